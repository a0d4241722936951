SPECIFICATION MSpec
CONSTANTS
  Pieces = {"mathformula", "CitationElement", "REF", "a", "math", "F", " ", "accent", "7"}
  MaxPieces = 3
  Confidences = {0, 9299, 9300, 9301, 10000}
INVARIANTS EnglishNeverRejected RejectedOnlyIf NothingLeft
PROPERTIES CheckNeverFails CheckKeepsParameters
CHECK_DEADLOCK FALSE
