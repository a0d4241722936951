--------------------------- MODULE NormalizationMC ---------------------------
(* all documents of at most MaxNodes nodes over the documented elements       *)
EXTENDS Normalization, TraceIO
CONSTANT MaxNodes
Node(k, n, d, c, t) == [k |-> k, n |-> n, ns |-> "", d |-> d, c |-> T(c), id |-> <<>>, t |-> t]
Elements == {<<"p", "">>, <<"math", "">>, <<"math", "ltx_Math">>, <<"cite", "">>, <<"img", "">>, <<"table", "">>, <<"table", "ltx_equation">>, <<"head", "">>,
             <<"footer", "">>, <<"div", "ltx_equationgroup">>, <<"a", "ltx_ref">>, <<"div", "ltx_authors">>, <<"nav", "ltx_TOC">>,
             <<"sup", "ltx_note_mark">>, <<"span", "ltx_note_outer">>, <<"section", "ltx_bibliography">>, <<"span", "ltx_tag ltx_tag_figure">>,
             <<"span", "ltx_tag_table">>, <<"span", "ltx_tag">>, <<"math", "ltx_ref">>, <<"span", "ltx_ref ltx_authors">>}
Labels(d) == {Node("e", x[1], d, x[2], <<>>) : x \in Elements} \cup {Node("t", "text", d, "", t) : t \in {T("u\nv"), <<233>>}}
             \cup {Node("c", "comment", d, "", T("k"))}
MCInit == /\ inp = WithDefaults(<<Node("e", "html", 0, "", <<>>)>>)
          /\ at = 0 /\ open = <<>> /\ out = <<>> /\ ws = TRUE /\ map = [i \in {} |-> <<>>] /\ pc = "grow"
Grow == /\ pc = "grow" /\ Len(Tr) < MaxNodes
        /\ \E d \in 1..(Tr[Len(Tr)].d + 1) : \E l \in Labels(d) :
             LET t == Append(Tr, l) IN WellFormed(t) = TRUE /\ inp' = [inp EXCEPT !.tree = t]
        /\ UNCHANGED <<at, open, out, ws, map, pc>>
Begin == pc = "grow" /\ at' = 1 /\ pc' = "walk" /\ UNCHANGED <<inp, open, out, ws, map>>
MCSpec == MCInit /\ [][Grow \/ Begin \/ PNext \/ (PDone /\ UNCHANGED pvars)]_pvars
Emit == (pc = "walk" /\ at = 1) => EmitInput([tree |-> Tr, root |-> 1, default |-> TRUE])
\* the functional form used by the models of whole documents is the same text, node by node
DT == INSTANCE DocText
AsFunction == PDone => DT!Shown(Tr, 1) = [j \in 1..Len(out) |-> <<out[j][1], out[j][2]>>]
=============================================================================
