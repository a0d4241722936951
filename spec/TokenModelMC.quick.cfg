SPECIFICATION MSpec
CONSTANTS
  Containers = {"para", "abstract", "caption", "broken"}
  MaxContainers = 2
  Pieces = {"k", "12", "long", "formula", "cite"}
  MaxPieces = 2
INVARIANTS ParagraphsAccounted LinesWellFormed TokensAccounted
CHECK_DEADLOCK FALSE
