SPECIFICATION TSpec
INVARIANTS OnePointPerEntry AllDrawn TextsArrive LiteralsClosed
