SPECIFICATION MCSpec
CONSTANT MaxCh = 6
INVARIANTS ListingRight ContentRight Emit
