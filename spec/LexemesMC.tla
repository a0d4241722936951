----------------------------- MODULE LexemesMC -----------------------------
EXTENDS Lexemes, TraceIO
CONSTANTS MaxChunks, MaxTree
Chunks == {T("ID"), T(":end"), T(":start"), T(" "), T("A"), T("NUM"), T("-"), T(":"), T("OPEN")}
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {<<>>} ELSE Texts(n - 1) \cup {a \o b : a \in Texts(n - 1), b \in Chunks}
Node(n, e, t, ch) == [n |-> n, e |-> e, t |-> t, ch |-> ch]
Math(ch) == [tree |-> Node("math", "", <<>>, ch)]
Scripts == {Math(<<Node("annotation", LlamapunEncoding, t, <<>>)>>) : t \in Texts(MaxChunks)}
\* shapes: which annotations count, and their order
Leaf == {Node(n, e, t, <<>>) : n \in {"annotation", "mi"}, e \in {LlamapunEncoding, "application/x-tex"}, t \in {<<>>, T("a:1"), T(" ")}}
Pair == {Node(n, e, T("b"), <<c>>) : n \in {"annotation", "mrow"}, e \in {LlamapunEncoding, ""}, c \in Leaf}
Shapes == {Math(<<>>)} \cup {Math(s) : s \in UNION {[1..m -> Leaf \cup Pair] : m \in 1..MaxTree}}
MCInit == LInit(Scripts \cup Shapes)
MCSpec == MCInit /\ [][LNext \/ (LDone /\ UNCHANGED lvars)]_lvars
Emit == (ai = 1 /\ pos = 1 /\ res = <<>>) => EmitInput(inp)
\* the functional form used by the models of whole documents
LT == INSTANCE LexemeText
AsFunction == LDone => res = LT!FormulaLexemes([x \in 1..Len(Annos) |-> ContentOf(Annos[x])])
=============================================================================
