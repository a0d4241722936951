SPECIFICATION MCSpec
CONSTANTS MaxRules = 3  MaxGrow = 2
INVARIANTS Closed OrderFree Emit
