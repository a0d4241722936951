SPECIFICATION TSpec
INVARIANTS Closed OrderFree
