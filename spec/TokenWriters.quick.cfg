SPECIFICATION Spec
CONSTANTS
  Workers = {1, 2}
  Documents = 3
  MaxLines = 2
  Granularity = "document"
INVARIANTS Contiguous Complete
PROPERTIES Ends
