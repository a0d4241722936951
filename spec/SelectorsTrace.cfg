SPECIFICATION TSpec
INVARIANTS PassAgrees InOrder ErrorFree
