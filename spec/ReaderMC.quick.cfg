SPECIFICATION MSpec
CONSTANTS
  Boxes = {"para", "p"}
  MaxBoxes = 2
  Pieces = {"word", "Cap's", ". ", "formula", "wide"}
  MaxPieces = 3
  Wholes = {"raw"}
INVARIANTS WordsInSentences WordsOfWhole TaggedCover
CHECK_DEADLOCK FALSE
