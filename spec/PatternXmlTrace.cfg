SPECIFICATION TSpec
INVARIANTS ListingRight ContentRight
