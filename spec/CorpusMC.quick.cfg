SPECIFICATION MCSpec
CONSTANTS MaxThreads = 3 Big = FALSE
INVARIANTS SequentialSum Partition OncePerDocument OnlyDocuments OnlyLost Emit
