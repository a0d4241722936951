SPECIFICATION MCSpec
CONSTANT MaxNodes = 5
INVARIANTS RoundTrips PointersUnique Emit
