SPECIFICATION TSpec
INVARIANTS NothingLost TokensWellFormed CutsJustified NeverEmpty ResultHasNoMarks FallbackIff
