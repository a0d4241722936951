SPECIFICATION MCSpec
CONSTANTS MaxThreads = 3 Big = TRUE
INVARIANTS SequentialSum Partition OncePerDocument OnlyDocuments OnlyLost Emit
