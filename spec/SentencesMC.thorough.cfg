SPECIFICATION MCSpec
CONSTANT MaxChunks = 5
INVARIANTS OrderedAndTrimmed LettersCovered BreaksJustified WindowBounded Emit
PROPERTIES Progress
