----------------------------- MODULE XPointerMC -----------------------------
EXTENDS XPointer, TraceIO
CONSTANT MaxNodes
Node(k, n, ns, d, id, t) == [k |-> k, n |-> n, ns |-> ns, d |-> d, c |-> <<>>, id |-> id, t |-> t]
Labels(d) == {Node("e", "a", "", d, <<>>, <<>>), Node("e", "a", "d", d, <<>>, <<>>), Node("e", "a", "-", d, <<>>, <<>>), Node("e", "a", "", d, T("i"), <<>>),
              Node("e", "m", "", d, <<>>, <<>>), Node("c", "comment", "", d, <<>>, T("k")), Node("t", "text", "", d, <<>>, <<223, 107>>)}
In == [tree |-> <<Node("e", "r", "", 0, <<>>, <<>>)>>, root |-> 1, names |-> <<[key |-> "m", rule |-> "token", token |-> T("tt")]>>, classes |-> <<>>,
       par |-> [ws |-> FALSE, wrap |-> FALSE, uni |-> TRUE, stem |-> FALSE, full |-> FALSE, lower |-> FALSE, back |-> TRUE]]
MCInit == /\ inp = In /\ at = 0 /\ open = <<>> /\ out = <<>> /\ ws = TRUE /\ map = [i \in {} |-> <<>>] /\ pc = "grow"
          /\ rs = 0 /\ re = 0 /\ ptr = <<>> /\ res = <<>>
Grow == /\ pc = "grow" /\ Len(Tr) < MaxNodes
        /\ \E d \in 1..(Tr[Len(Tr)].d + 1) : \E l \in Labels(d) :
             LET t == Append(Tr, l)
             IN /\ (WellFormed(t) /\ (l.id # <<>> => \A i \in 1..Len(Tr) : Tr[i].id = <<>>)) = TRUE
                /\ inp' = [inp EXCEPT !.tree = t]
        /\ UNCHANGED <<at, open, out, ws, map, pc, rs, re, ptr, res>>
Begin == /\ pc = "grow" /\ pc' = "walk"
         /\ \E r \in {1} \cup {i \in 2..Len(Tr) : i <= 3 /\ Tr[i].k = "e"} : inp' = [inp EXCEPT !.root = r] /\ at' = r
         /\ UNCHANGED <<open, out, ws, map, rs, re, ptr, res>>
MCSpec == MCInit /\ [][Grow \/ Begin \/ XNext \/ (XDone /\ UNCHANGED xvars)]_xvars
Emit == (pc = "walk" /\ at = inp.root /\ open = <<>>) => EmitInput(inp)
=============================================================================
