------------------------------ MODULE WordsMC ------------------------------
EXTENDS Words, TraceIO
CONSTANT MaxLen
Alphabet == {32, 97, 115, 39, 8217, 44, 233, 55}
Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
\* contractions with neighbours
Around == {<<>>, T(" "), T("x"), T(","), T("'")}
Special == {a \o <<q>> \o c \o b : a \in Around, q \in {39, 8217}, c \in Contractions, b \in Around}
MCInit == WInit({[call |-> c, text |-> t] : c \in {"words", "punct"}, t \in Texts \cup Special})
MCSpec == MCInit /\ [][WNext \/ (done /\ UNCHANGED wvars)]_wvars
Emit == (en = 0 /\ ~done /\ IOEnv.PROP = "C14") => EmitInput([call |-> inp.call, text |-> inp.text, a |-> 0, b |-> Len(inp.text)])
=============================================================================
