SPECIFICATION MCSpec
CONSTANT MaxLen = 5
INVARIANTS Result Ordered Coverage Emit
