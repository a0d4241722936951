SPECIFICATION TSpec
INVARIANTS Inside ResultsRight
