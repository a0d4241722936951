SPECIFICATION MCSpec
CONSTANT MaxNodes = 4
INVARIANTS FormIsDeclared Emit
