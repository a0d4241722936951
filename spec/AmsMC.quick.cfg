SPECIFICATION MSpec
CONSTANTS
  MaxTokens = 3
  Tokens = {"ltx_theorem", "ltx_theorem_lemma", "ltx_theorem_nosuch", "ltx_proof", "_", "thm", "-"}
INVARIANTS Exactly Known
PROPERTIES Kept
CHECK_DEADLOCK FALSE
