SPECIFICATION MCSpec
CONSTANT MaxLen = 4
INVARIANTS Inside ResultsRight Emit
