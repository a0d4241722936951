SPECIFICATION TSpec
INVARIANTS HistoryCounts WindowBounded HistoryDict
