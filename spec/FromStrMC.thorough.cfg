SPECIFICATION MCSpec
CONSTANT MaxChunks = 5
INVARIANTS RoundTrip RebuiltTokens Emit
