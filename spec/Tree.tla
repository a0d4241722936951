-------------------------------- MODULE Tree --------------------------------
(* Documents as tables of their nodes in document order.  A node has         *)
(*   k  kind: "e" element, "t" text, "c" comment, "p" processing instruction *)
(*   d  depth below the document's root element (the root has 0)             *)
(*   n  local name, ns namespace prefix ("" none)                            *)
(*   c  value of the class attribute (code points), id of the id attribute   *)
(*   t  text (code points)                                                   *)
(* Nodes are numbered from 1; no two text nodes are neighbouring siblings.   *)
EXTENDS Chars

\* last node of the subtree of i
RECURSIVE SubEndFrom(_, _, _)
SubEndFrom(tree, i, j) == IF j < Len(tree) /\ tree[j + 1].d > tree[i].d THEN SubEndFrom(tree, i, j + 1) ELSE j
SubEnd(tree, i) == SubEndFrom(tree, i, i)
Below(tree, i, j) == i < j /\ j <= SubEnd(tree, i)           \* j is below i
RECURSIVE ParentFrom(_, _, _)
ParentFrom(tree, i, j) == IF j = 0 THEN 0 ELSE IF tree[j].d < tree[i].d THEN j ELSE ParentFrom(tree, i, j - 1)
Parent(tree, i) == ParentFrom(tree, i, i - 1)
IsChild(tree, p, j) == Below(tree, p, j) /\ tree[j].d = tree[p].d + 1
\* children in order
Children(tree, i) == SelectSeq([m \in 1..(SubEnd(tree, i) - i) |-> i + m], LAMBDA j : tree[j].d = tree[i].d + 1)
NextSibling(tree, i) == LET j == SubEnd(tree, i) + 1
                        IN IF j <= Len(tree) /\ tree[j].d = tree[i].d THEN j ELSE 0
IsElement(tree, i) == tree[i].k = "e"
IsText(tree, i) == tree[i].k = "t"
Classes(tree, i) == IF tree[i].k = "e" THEN SplitWs(tree[i].c) ELSE <<>>
\* string value: the text nodes below (or at) a node, joined
RECURSIVE TextFrom(_, _, _)
TextFrom(tree, i, e) == IF i > e THEN <<>> ELSE (IF tree[i].k = "t" THEN tree[i].t ELSE <<>>) \o TextFrom(tree, i + 1, e)
TextContent(tree, i) == TextFrom(tree, i, SubEnd(tree, i))
\* well-formed tables
WellFormed(tree) ==
  /\ tree # <<>> /\ tree[1].d = 0
  /\ \A i \in 2..Len(tree) : tree[i].d \in 1..(tree[i - 1].d + (IF tree[i - 1].k = "e" THEN 1 ELSE 0))
  /\ \A i \in 1..Len(tree) : tree[i].k = "t" => NextSibling(tree, i) = 0 \/ tree[NextSibling(tree, i)].k # "t"
=============================================================================
