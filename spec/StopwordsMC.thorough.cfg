SPECIFICATION MCSpec
CONSTANT MaxOps = 4
INVARIANTS SameForAll Emit
