SPECIFICATION TSpec
INVARIANTS RoundTrip
