SPECIFICATION TSpec
INVARIANTS Shrinks
