---------------------------- MODULE PatternXmlMC ----------------------------
EXTENDS PatternXml, TraceIO
CONSTANT MaxCh
C(k, t) == [k |-> k, t |-> t]
Kinds == {C("el", <<>>), C("text", T(" ")), C("text", T(" a ")), C("comment", T("x")), C("pi", T("y"))}
NoAdjacentText(s) == \A i \in 1..(Len(s) - 1) : ~(s[i].k = "text" /\ s[i + 1].k = "text")
Children == {s \in UNION {[1..n -> Kinds] : n \in 0..MaxCh} : NoAdjacentText(s)}
Calls == {"content", "content_trim", "strict", "fast", "only", "nochild", "comments"}
Structural == {[call |-> c, ch |-> s, props |-> <<>>, prop |-> <<>>] : c \in Calls, s \in Children}
PropSets == { <<>>, <<<<T("name"), T("v")>>>>, <<<<T("name"), <<>>>>>>, <<<<T("ref"), T("w")>>, <<T("name"), T(" v ")>>>> }
Property == {[call |-> c, ch |-> <<>>, props |-> p, prop |-> n] : c \in {"require", "already"}, p \in PropSets, n \in {T("name"), T("ref"), T("x")}}
MCInit == PInit(Structural \cup Property)
MCSpec == MCInit /\ [][PNext \/ (PDone /\ UNCHANGED pvars)]_pvars
Emit == (pos = 1 /\ acc = <<>> /\ res = None) => EmitInput(inp)
=============================================================================
