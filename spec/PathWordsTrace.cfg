SPECIFICATION TSpec
INVARIANTS OutputIsLines
