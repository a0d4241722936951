SPECIFICATION MCSpec
CONSTANTS MaxLen = 7 MaxW = 3 MaxN = 3 MaxOps = 3 MaxOpLen = 3 EmitAll = TRUE
INVARIANTS CountsAreHistory WindowBounded DictIsFirstSeen Emit
PROPERTIES Permanent
