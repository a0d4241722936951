SPECIFICATION TSpec
INVARIANTS MarksCoverWords MarksNested MathMarksInFormulas MathMarksNested
