SPECIFICATION TSpec
INVARIANTS SequentialSum Partition OncePerDocument OnlyDocuments OnlyLost
