SPECIFICATION MCSpec
CONSTANTS MaxLen = 10 MaxW = 4 MaxN = 4 MaxOps = 3 MaxOpLen = 3 EmitAll = TRUE
INVARIANTS CountsAreHistory WindowBounded DictIsFirstSeen Emit
PROPERTIES Permanent
