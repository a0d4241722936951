------------------------------ MODULE MathMatchMC ------------------------------
(* A formula grown node by node, and every pattern composed from a few atoms *)
EXTENDS PatternMatch, TraceIO
CONSTANTS MaxNodes, Deep
N(op, args, ch) == [op |-> op, args |-> args, ch |-> ch]
AnyMath == N("math_any", <<>>, <<>>)
Mk(name, p) == N("math_marker", <<T(name)>>, <<p>>)
El(name, ch) == N("math_node", <<T(name)>>, ch)
TextX == N("mtext_ref", <<T("x")>>, <<>>)
NotX == N("mtext_ref", <<T("notx")>>, <<>>)
Atoms == {Mk("any", AnyMath), El("mi", <<>>), Mk("x", N("math_node", <<>>, <<TextX>>)), El("mi", <<NotX>>), Mk("row", N("math_ref", <<T("row")>>, <<>>))}
ChTypes == {T("exact"), T("starts_with"), T("ends_with"), T("arbitrary")}
DescTypes == {T("first"), T("at_least_one"), T("arbitrary")}
Lists == {<<p>> : p \in Atoms} \cup {<<p, q>> : p \in Atoms, q \in {Mk("any", AnyMath), El("mi", <<>>)}}
WithChildren == {N("math_node", <<>>, <<N("math_children", <<t>>, l)>>) : t \in ChTypes, l \in Lists}
Desc == {N("math_descendant", <<t>>, <<p>>) : t \in DescTypes, p \in Atoms}
Ors == {N("math_or", <<>>, <<p, q>>) : p \in Atoms, q \in Atoms} \cup {N("math_or", <<>>, <<>>)}
Deeper == {N("math_descendant", <<t>>, <<Mk("c", p)>>) : t \in DescTypes, p \in {N("math_node", <<>>, <<N("math_children", <<c>>, <<Mk("x", N("math_node", <<>>, <<TextX>>))>>)>>) : c \in ChTypes}}
          \cup {N("math_node", <<>>, <<N("math_children", <<c>>, <<p, Mk("any", AnyMath)>>)>>) : c \in ChTypes, p \in Desc}
Patterns == Atoms \cup WithChildren \cup Desc \cup (IF Deep THEN Ors \cup Deeper ELSE {})
Rules(p) == <<[kind |-> "seq", name |-> T("main"), p |-> N("seq_word", <<>>, <<N("word_math", <<>>, <<p>>)>>)],
              [kind |-> "math", name |-> T("row"), p |-> El("mrow", <<>>)],
              [kind |-> "mtext", name |-> T("x"), p |-> N("mtext_lit", <<T("x")>>, <<>>)],
              [kind |-> "mtext", name |-> T("notx"), p |-> N("mtext_not", <<>>, <<N("mtext_ref", <<T("x")>>, <<>>)>>)]>>
Nd(k, n, d, t) == [k |-> k, n |-> n, ns |-> "", d |-> d, c |-> <<>>, id |-> <<>>, t |-> T(t)]
Words0 == <<[gap |-> <<>>, t |-> T("mathformula"), pos |-> T("NN"), node |-> 2], [gap |-> T(" "), t |-> T("x"), pos |-> T("NN"), node |-> 0]>>
Psg == [l |-> "S", w |-> 0, k |-> <<[l |-> "", w |-> 1, k |-> <<>>], [l |-> "", w |-> 2, k |-> <<>>]>>]
Labels(d) == {Nd("e", "mi", d, ""), Nd("e", "mrow", d, ""), Nd("e", "semantics", d, ""), Nd("t", "text", d, "x")}
             \cup (IF Deep THEN {Nd("t", "text", d, "y"), Nd("c", "comment", d, "x")} ELSE {})
MCInit == /\ inp = [rules |-> Rules(AnyMath), rule |-> T("main"), pre |-> <<>>, words |-> Words0, psg |-> Psg, tree |-> <<Nd("e", "p", 0, ""), Nd("e", "math", 1, "")>>]
          /\ pos = 1 /\ out = <<>> /\ pc = "grow"
Grow == /\ pc = "grow" /\ Len(Tr) < MaxNodes
        /\ \E d \in 2..(Tr[Len(Tr)].d + 1) : \E l \in Labels(d) :
             LET t == Append(Tr, l) IN /\ (WellFormed(t) /\ (l.n = "semantics" => d = 2)) = TRUE /\ inp' = [inp EXCEPT !.tree = t]
        /\ UNCHANGED <<pos, out, pc>>
Choose == /\ pc = "grow" /\ pc' = "start" /\ \E p \in Patterns : inp' = [inp EXCEPT !.rules = Rules(p)] /\ UNCHANGED <<pos, out>>
MCSpec == MCInit /\ [][Grow \/ Choose \/ MNext \/ (MDone /\ UNCHANGED mvars)]_mvars
Emit == pc = "start" => EmitInput(inp)
=============================================================================
