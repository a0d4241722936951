SPECIFICATION MCSpec
CONSTANT MaxNodes = 3
INVARIANTS TextIsDeclared MapNested BackMapped TokensShown OtherTextShown AsFunction Emit
