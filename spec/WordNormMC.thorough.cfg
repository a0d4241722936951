SPECIFICATION MSpec
CONSTANTS
  Alphabet = {"1", "k", "l", ".", "e", "-", "+"}
  MaxLength = 6
  Pieces = {"formula", "number", "blank", "cite", "long", "edge", "k", "-", " ", "12", "'s", "K "}
  MaxPieces = 3
INVARIANTS LongRejected OptionsAgree NumbersHaveDigits SameNumbers
CHECK_DEADLOCK FALSE
