SPECIFICATION MCSpec
CONSTANTS MaxNodes = 5
INVARIANTS PassAgrees InOrder ErrorFree Emit
