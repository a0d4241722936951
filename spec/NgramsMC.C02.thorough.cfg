SPECIFICATION MCSpec
CONSTANTS MaxLen = 8 MaxW = 3 MaxN = 3 MaxOps = 4 MaxOpLen = 2 EmitAll = TRUE
INVARIANTS CountsAreHistory WindowBounded DictIsFirstSeen Emit
PROPERTIES Permanent
