SPECIFICATION MCSpec
CONSTANTS MaxNodes = 5  Deep = TRUE
INVARIANTS MathMarksInFormulas MathMarksNested Emit
