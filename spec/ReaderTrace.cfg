SPECIFICATION TSpec
INVARIANTS WordsInSentences TaggedCover
