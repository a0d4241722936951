SPECIFICATION MCSpec
CONSTANTS MaxNodes = 5  Deep = FALSE
INVARIANTS MathMarksInFormulas MathMarksNested Emit
