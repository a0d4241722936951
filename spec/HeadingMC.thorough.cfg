SPECIFICATION MSpec
CONSTANTS
  MaxWords = 3
  Vocabulary = {"x", "i", "iv", "a", "q", "NUM", "the", "list", "of", "for", "paper", "first", "foo", "lemmas", "proof", "methods", "data", "sets", "simulation", "exercise", "hypothesis", "related", "work", "xNUM", "an"}
INVARIANTS Agrees Shrinks Apart Stable SameNumbered
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
