SPECIFICATION MSpec
CONSTANTS
  KeySet = {0, 1, 2}
  CountSet = {0, 1, 2, 3}
  MaxEntries = 3
  Alphabet = {34, 92, 10, 110, 9, 233}
  MaxText = 3
INVARIANTS OnePointPerEntry AllDrawn TextsArrive LiteralsClosed
PROPERTIES Drawn
CHECK_DEADLOCK FALSE
