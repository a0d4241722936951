----------------------------- MODULE SentencesMC -----------------------------
EXTENDS Sentences, TraceIO
CONSTANTS MaxChunks
Chunks == {T("."), T(":"), T(" "), T("\n\n"), T("\n"), T("Ab"), T("The"), T("Eq"), T("mathformula"), T("?"), T("("), T(")"), <<233>>}
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {<<>>} ELSE {a \o b : a \in Texts(n - 1), b \in Chunks \cup {<<>>}}
MCInit == \E t \in Texts(MaxChunks) : SInit({[text |-> t]})
MCSpec == MCInit /\ [][SNext \/ (SDone /\ UNCHANGED svars)]_svars
Emit == (pos = 0 /\ pc = "scan" /\ IOEnv.PROP = "C13") => EmitInput(inp)
=============================================================================
