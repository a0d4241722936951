SPECIFICATION MCSpec
CONSTANT MaxLen = 4
INVARIANTS Result Ordered Coverage Emit
