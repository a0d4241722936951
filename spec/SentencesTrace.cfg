SPECIFICATION TSpec
INVARIANTS OrderedAndTrimmed LettersCovered BreaksJustified WindowBounded
