SPECIFICATION MSpec
CONSTANTS
  MaxTokens = 4
  Tokens = {"ltx_theorem", "ltx_theorem_lemma", "ltx_theorem_nosuch", "ltx_proof", "_", "thm", "-", "ltx_", "theorem_", "proof", "remark1", "X"}
INVARIANTS Exactly Known
PROPERTIES Kept
CHECK_DEADLOCK FALSE
