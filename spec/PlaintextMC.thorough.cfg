SPECIFICATION MCSpec
CONSTANTS MaxNodes = 4
 Params = {1, 2, 3, 4, 5, 6}
 RuleSets = {1, 2, 3}
INVARIANTS TextIsDeclared NoDoubleBlank RefusedOnlyIfUnmappable MapNested BackMapped Emit
