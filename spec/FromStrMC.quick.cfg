SPECIFICATION MCSpec
CONSTANT MaxChunks = 4
INVARIANTS RoundTrip RebuiltTokens Emit
