SPECIFICATION TSpec
INVARIANTS AllListed OnlyDocuments
