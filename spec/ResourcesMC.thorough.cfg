SPECIFICATION MSpec
CONSTANTS
  Names = {"a.html", "a.xhtml", "b", ".html", "a.html.x", "a.xml", "html"}
  MaxFiles = 3
INVARIANTS AllListed OnlyDocuments
PROPERTIES Ends
CHECK_DEADLOCK FALSE
