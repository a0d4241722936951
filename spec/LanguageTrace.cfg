SPECIFICATION TSpec
INVARIANTS EnglishNeverRejected RejectedOnlyIf
