SPECIFICATION MCSpec
CONSTANT MaxNodes = 4
INVARIANTS TextIsDeclared MapNested BackMapped TokensShown OtherTextShown AsFunction Emit
