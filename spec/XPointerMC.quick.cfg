SPECIFICATION MCSpec
CONSTANT MaxNodes = 4
INVARIANTS RoundTrips PointersUnique Emit
