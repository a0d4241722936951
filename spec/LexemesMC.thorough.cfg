SPECIFICATION MCSpec
CONSTANTS MaxChunks = 5 MaxTree = 2
INVARIANTS NothingLost TokensWellFormed CutsJustified NeverEmpty ResultHasNoMarks FallbackIff AsFunction Emit
