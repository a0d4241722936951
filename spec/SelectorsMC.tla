----------------------------- MODULE SelectorsMC -----------------------------
(* documents grow node by node over the elements the selectors look at       *)
EXTENDS Selectors, TraceIO
CONSTANTS MaxNodes
Node(k, n, d, c, t) == [k |-> k, n |-> n, ns |-> "", d |-> d, c |-> T(c), id |-> <<>>, t |-> t]
Elements == {<<"div", "ltx_para">>, <<"p", "ltx_p">>, <<"span", "ltx_ERROR undefined">>, <<"div", "ltx_abstract">>, <<"div", "ltx_keywords">>,
             <<"div", "ltx_acknowledgement">>, <<"figcaption", "ltx_caption">>, <<"h2", "ltx_title">>, <<"h1", "ltx_title ltx_title_document">>,
             <<"math", "ltx_Math">>, <<"a", "ltx_ref">>, <<"section", "">>, <<"span", "ltx_ref_tag">>}
\* the larger documents use fewer kinds of elements
Few == {"ltx_para", "ltx_p", "ltx_ERROR undefined", "ltx_abstract", "ltx_caption", "ltx_title"}
Used == IF MaxNodes > 4 THEN {x \in Elements : x[2] \in Few} ELSE Elements
Labels(d) == {Node("e", x[1], d, x[2], <<>>) : x \in Used} \cup {Node("t", "text", d, "", T("t"))}
MCInit == /\ inp = [tree |-> <<Node("e", "html", 0, "", <<>>)>>] /\ at = 0 /\ open = <<>> /\ sib = <<FALSE>>
          /\ tainted = {} /\ late = {} /\ pc = "grow"
Grow == /\ pc = "grow" /\ Len(Tr) < MaxNodes
        /\ \E d \in 1..(Tr[Len(Tr)].d + 1) : \E l \in Labels(d) :
             LET t == Append(Tr, l) IN WellFormed(t) = TRUE /\ inp' = [inp EXCEPT !.tree = t]
        /\ UNCHANGED <<at, open, sib, tainted, late, pc>>
Begin == pc = "grow" /\ at' = 1 /\ pc' = "walk" /\ UNCHANGED <<inp, open, sib, tainted, late>>
MCSpec == MCInit /\ [][Grow \/ Begin \/ SelNext \/ (SelDone /\ UNCHANGED selvars)]_selvars
Emit == (pc = "walk" /\ at = 1) => EmitInput([tree |-> Tr, filters |-> <<"all">>, xpaths |-> <<"//*[local-name()='p']">>])
=============================================================================
