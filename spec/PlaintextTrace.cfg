SPECIFICATION TSpec
INVARIANTS TextIsDeclared RefusedOnlyIfUnmappable MapNested BackMapped
