SPECIFICATION Spec
CONSTANTS
  Workers = {1, 2, 3}
  Documents = 4
  MaxLines = 2
  Granularity = "document"
INVARIANTS Contiguous Complete
PROPERTIES Ends
