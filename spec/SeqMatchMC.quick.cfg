SPECIFICATION MCSpec
CONSTANTS Depth = 1  MaxWords = 2
INVARIANTS MarksCoverWords MarksNested Emit
