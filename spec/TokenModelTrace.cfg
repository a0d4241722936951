SPECIFICATION TSpec
INVARIANTS ParagraphsAccounted LinesWellFormed RepeatedBodyIsPlain
