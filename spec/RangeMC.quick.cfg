SPECIFICATION MCSpec
CONSTANT MaxLen = 3
INVARIANTS Inside ResultsRight Emit
