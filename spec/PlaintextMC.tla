---------------------------- MODULE PlaintextMC ----------------------------
EXTENDS Plaintext, TraceIO
CONSTANTS MaxNodes, Params, RuleSets
Node(k, n, d, c, t) == [k |-> k, n |-> n, ns |-> "", d |-> d, c |-> c, id |-> <<>>, t |-> t]
Labels(d) == {Node("e", "a", d, <<>>, <<>>), Node("e", "b", d, <<>>, <<>>), Node("e", "b", d, T("x"), <<>>),
              Node("e", "a", d, T("y x"), <<>>), Node("c", "comment", d, <<>>, T("k"))}
             \cup {Node("t", "text", d, <<>>, t) : t \in {T("k"), T(" "), <<201, 107, 32>>}}
R(key, rule, token) == [key |-> key, rule |-> rule, token |-> token]
NameRules == << <<R("a", "token", T("t")), R("b", "enter", <<>>)>>, <<R("a", "skip", <<>>), R("b", "computed", <<>>)>>, <<>> >>
ClassRules == << <<R(T("x"), "skip", <<>>), R(T("y"), "enter", <<>>)>>, <<R(T("x"), "token", T("\nt"))>>,
                 <<R(T("x"), "computed", <<>>), R(T("y"), "skip", <<>>)>> >>
P(w, r, u, s, f, l, b) ==
  [ws |-> w, wrap |-> r, uni |-> u, stem |-> s, full |-> f, lower |-> l, back |-> b]
Pars == << P(TRUE, TRUE, TRUE, FALSE, FALSE, TRUE, TRUE), P(TRUE, FALSE, FALSE, FALSE, FALSE, FALSE, TRUE),
           P(FALSE, TRUE, TRUE, FALSE, FALSE, FALSE, TRUE), P(TRUE, TRUE, FALSE, TRUE, TRUE, FALSE, FALSE),
           P(FALSE, FALSE, FALSE, FALSE, FALSE, TRUE, TRUE), P(TRUE, TRUE, FALSE, TRUE, FALSE, FALSE, TRUE) >>
\* the documents are grown node by node, then processed
MCInit == /\ \E r \in {"a", "r"} : \E p \in Params : \E q \in RuleSets :
               inp = [tree |-> <<Node("e", r, 0, <<>>, <<>>)>>, root |-> 1, names |-> NameRules[q], classes |-> ClassRules[q], par |-> Pars[p]]
          /\ at = 0 /\ open = <<>> /\ out = <<>> /\ ws = TRUE /\ map = [i \in {} |-> <<>>] /\ pc = "grow"
Grow == /\ pc = "grow" /\ Len(Tr) < MaxNodes
        /\ \E d \in 1..(Tr[Len(Tr)].d + 1) : \E l \in Labels(d) :
             LET t == Append(Tr, l) IN WellFormed(t) = TRUE /\ inp' = [inp EXCEPT !.tree = t]
        /\ UNCHANGED <<at, open, out, ws, map, pc>>
Begin == /\ pc = "grow" /\ \E r \in 1..(IF Len(Tr) > 2 THEN 2 ELSE 1) : inp' = [inp EXCEPT !.root = r] /\ at' = r
         /\ pc' = "walk" /\ UNCHANGED <<open, out, ws, map>>
MCSpec == MCInit /\ [][Grow \/ Begin \/ PNext \/ (pc \in {"done", "refused"} /\ UNCHANGED pvars)]_pvars
Emit == (pc = "walk" /\ at = inp.root /\ open = <<>> /\ out = <<>> /\ DOMAIN map = {}
           /\ (IOEnv.PROP = "C09" \/ (IOEnv.PROP = "C08" /\ ~Unmappable))) => EmitInput(inp)
=============================================================================
