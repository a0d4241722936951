SPECIFICATION TSpec
INVARIANT SameForAll
