SPECIFICATION MCSpec
CONSTANTS MaxNodes = 4
 Params = {1, 3, 4, 6}
 RuleSets = {1, 2}
INVARIANTS TextIsDeclared NoDoubleBlank RefusedOnlyIfUnmappable MapNested BackMapped Emit
