SPECIFICATION TSpec
INVARIANTS Shrinks Apart
