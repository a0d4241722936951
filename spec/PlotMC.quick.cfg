SPECIFICATION MSpec
CONSTANTS
  KeySet = {0, 1, 2}
  CountSet = {0, 1, 3}
  MaxEntries = 2
  Alphabet = {34, 92, 10, 110, 233}
  MaxText = 2
INVARIANTS OnePointPerEntry AllDrawn TextsArrive LiteralsClosed
PROPERTIES Drawn
CHECK_DEADLOCK FALSE
