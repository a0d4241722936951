SPECIFICATION MCSpec
CONSTANT MaxChunks = 4
INVARIANTS OrderedAndTrimmed LettersCovered BreaksJustified WindowBounded Emit
PROPERTIES Progress
