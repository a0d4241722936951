SPECIFICATION MSpec
CONSTANTS
  Names = {"a.html", "a.xhtml", "b", ".html", "a.html.x", "a.xml", "c.HTML"}
  MaxFiles = 2
INVARIANTS AllListed OnlyDocuments
PROPERTIES Ends
CHECK_DEADLOCK FALSE
