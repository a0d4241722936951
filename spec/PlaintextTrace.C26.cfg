SPECIFICATION TSpec
INVARIANTS TextIsDeclared TokensShown OtherTextShown
