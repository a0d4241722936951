SPECIFICATION MSpec
CONSTANTS
  Boxes = {"para", "title", "p"}
  MaxBoxes = 2
  Pieces = {"word", "Cap's", ". ", "formula", "accent", "wide", "cite", "it?", " "}
  MaxPieces = 3
  Wholes = {"raw", "llamapun"}
INVARIANTS WordsInSentences WordsOfWhole TaggedCover
CHECK_DEADLOCK FALSE
