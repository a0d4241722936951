SPECIFICATION MCSpec
CONSTANT MaxNodes = 5
INVARIANTS FormIsDeclared Emit
