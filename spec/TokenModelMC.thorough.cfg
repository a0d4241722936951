SPECIFICATION MSpec
CONSTANTS
  Containers = {"para", "abstract", "caption", "broken", "keywords", "thanks"}
  MaxContainers = 2
  Pieces = {"k", "12", "long", "formula", "cite", "plain", "don't, ", " -1.5e2 "}
  MaxPieces = 2
INVARIANTS ParagraphsAccounted LinesWellFormed TokensAccounted
CHECK_DEADLOCK FALSE
