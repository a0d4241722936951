SPECIFICATION MCSpec
CONSTANTS Depth = 2  MaxWords = 3
INVARIANTS MarksCoverWords MarksNested Emit
