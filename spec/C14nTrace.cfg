SPECIFICATION TSpec
INVARIANTS FormIsDeclared
