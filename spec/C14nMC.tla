------------------------------- MODULE C14nMC -------------------------------
EXTENDS C14n, TraceIO
CONSTANT MaxNodes
Node(k, n, d, c, t) == [k |-> k, n |-> n, ns |-> "", d |-> d, c |-> c, id |-> <<>>, t |-> t]
Labels(d) == {Node("e", "a", d, T("y x"), <<>>), Node("e", "a", d, T(" x  y "), <<>>), Node("e", "semantics", d, T("x"), <<>>), Node("e", "annotation", d, <<>>, <<>>),
              Node("e", "b", d, <<>>, <<>>), Node("c", "comment", d, <<>>, T("k"))}
             \cup {Node("t", "text", d, <<>>, t) : t \in {T("k "), T(" \n"), <<8195>>}}
\* b is skipped by the text
In(p) == [tree |-> <<Node("e", "r", 0, <<>>, <<>>)>>, root |-> 1, names |-> <<[key |-> "b", rule |-> p, token |-> T("t")]>>, classes |-> <<>>,
          par |-> [ws |-> p = "skip", wrap |-> FALSE, uni |-> FALSE, stem |-> FALSE, full |-> FALSE, lower |-> FALSE, back |-> TRUE]]
MCInit == /\ \E p \in {"skip", "enter"} : inp = In(p)
          /\ at = 0 /\ open = <<>> /\ out = <<>> /\ ws = TRUE /\ map = [i \in {} |-> <<>>] /\ pc = "grow"
          /\ from = 1 /\ cur = 1 /\ stack = <<>> /\ form = <<>>
Grow == /\ pc = "grow" /\ Len(Tr) < MaxNodes
        /\ \E d \in 1..(Tr[Len(Tr)].d + 1) : \E l \in Labels(d) :
             LET t == Append(Tr, l) IN WellFormed(t) = TRUE /\ inp' = [inp EXCEPT !.tree = t]
        /\ UNCHANGED <<at, open, out, ws, map, pc, from, cur, stack, form>>
Begin == /\ pc = "grow" /\ at' = 1 /\ pc' = "walk" /\ \E f \in 1..(IF Len(Tr) > 1 THEN 2 ELSE 1) : from' = f /\ cur' = f
         /\ UNCHANGED <<inp, open, out, ws, map, stack, form>>
MCSpec == MCInit /\ [][Grow \/ Begin \/ CNext \/ (CDone /\ UNCHANGED cvars)]_cvars
Emit == (pc = "walk" /\ at = 1 /\ open = <<>> /\ from = 1) => EmitInput(inp)
=============================================================================
