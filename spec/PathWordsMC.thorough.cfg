SPECIFICATION MSpec
CONSTANTS
  MaxParagraphs = 2
  Pieces = {"word", "A12", ". ", " ", "12.", "formula", "cite", "long", "error"}
  MaxPieces = 4
INVARIANTS OutputIsLines GoodLines NoneElse
CHECK_DEADLOCK FALSE
