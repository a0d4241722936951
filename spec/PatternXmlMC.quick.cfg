SPECIFICATION MCSpec
CONSTANT MaxCh = 4
INVARIANTS ListingRight ContentRight Emit
