SPECIFICATION MCSpec
CONSTANT MaxOps = 3
INVARIANTS SameForAll Emit
