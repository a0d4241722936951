SPECIFICATION TSpec
INVARIANTS Result Ordered Coverage
