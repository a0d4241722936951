SPECIFICATION MSpec
CONSTANTS
  MaxWords = 3
  Vocabulary = {"x", "i", "a", "q", "NUM", "the", "list", "of", "foo", "lemmas", "methods", "data", "sets"}
INVARIANTS Agrees Shrinks Apart Stable SameNumbered
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
