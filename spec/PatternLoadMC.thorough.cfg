SPECIFICATION MCSpec
CONSTANTS MaxRules = 4  MaxGrow = 3
INVARIANTS Closed OrderFree Emit
