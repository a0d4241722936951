SPECIFICATION MCSpec
CONSTANTS MaxNodes = 4
INVARIANTS PassAgrees InOrder ErrorFree Emit
