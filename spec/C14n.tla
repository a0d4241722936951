-------------------------------- MODULE C14n --------------------------------
(* src/dnm/c14n.rs: canonical form of a node.  The plain text is built       *)
(* first (Plaintext), then the subtree of node `from` is written, one step   *)
(* per tag or text.  form: what has been written; stack: opened elements.    *)
EXTENDS Plaintext
VARIABLES from, cur, stack, form
cvars == <<pvars, from, cur, stack, form>>
CStart(in, f) == PStart(in) /\ from = f /\ cur = f /\ stack = <<>> /\ form = <<>>

\* class tokens sorted by code points
RECURSIVE Less(_, _)
Less(a, b) == IF a = <<>> THEN b # <<>> ELSE IF b = <<>> THEN FALSE
              ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
RECURSIVE Insert(_, _)
Insert(x, s) == IF s = <<>> THEN <<x>> ELSE IF Less(x, s[1]) THEN <<x>> \o s ELSE <<s[1]>> \o Insert(x, Tail(s))
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN s ELSE Insert(s[1], Sorted(Tail(s)))
OpenTag(i) == T("<") \o T(Tr[i].n)
              \o (IF Classes(Tr, i) = <<>> THEN <<>> ELSE T(" class=\"") \o JoinWith(Sorted(Classes(Tr, i)), T(" ")) \o T("\""))
              \o T(">")
CloseTag(i) == T("</") \o T(Tr[i].n) \o T(">")

Building == pc = "walk" /\ PNext /\ UNCHANGED <<from, cur, stack, form>>
CEnd == SubEnd(Tr, from)
Top == stack[Len(stack)]
Closing == stack # <<>> /\ cur > SubEnd(Tr, Top)
CClose == /\ pc = "done" /\ Closing
          /\ form' = (IF Tr[Top].n = "semantics" THEN form ELSE form \o CloseTag(Top))
          /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<pvars, from, cur>>
At == pc = "done" /\ ~Closing /\ cur <= CEnd
IsAnnotation == Tr[cur].n \in {"annotation", "annotation-xml"}
NodeText(i) == IF i \in DOMAIN map THEN [m \in 1..(map[i][2] - map[i][1]) |-> out[map[i][1] + m][1]] ELSE <<>>
CAnnotation == /\ At /\ IsElement(Tr, cur) /\ IsAnnotation /\ cur' = CEnd + 1 - (CEnd - SubEnd(Tr, cur))
               /\ UNCHANGED <<pvars, from, stack, form>>
COpen == /\ At /\ IsElement(Tr, cur) /\ ~IsAnnotation
         /\ form' = (IF Tr[cur].n = "semantics" THEN form ELSE form \o OpenTag(cur))
         /\ stack' = Append(stack, cur) /\ cur' = cur + 1 /\ UNCHANGED <<pvars, from>>
CText == /\ At /\ IsText(Tr, cur)
         /\ form' = (IF Trim(NodeText(cur)) = <<>> THEN form ELSE form \o NodeText(cur))
         /\ cur' = cur + 1 /\ UNCHANGED <<pvars, from, stack>>
COther == At /\ ~IsElement(Tr, cur) /\ ~IsText(Tr, cur) /\ cur' = cur + 1 /\ UNCHANGED <<pvars, from, stack, form>>
CFinish == pc = "done" /\ ~Closing /\ cur > CEnd /\ pc' = "written" /\ UNCHANGED <<inp, at, open, out, ws, map, from, cur, stack, form>>
CNext == Building \/ CClose \/ CAnnotation \/ COpen \/ CText \/ COther \/ CFinish
CDone == pc = "written"
----------------------------------------------------------------------------
(* C10: the form is that of the tree itself, by recursion *)
RECURSIVE FormOf(_)
FormOf(i) ==
  IF Tr[i].k = "t" THEN (IF \A m \in 1..Len(NodeText(i)) : IsWs(NodeText(i)[m]) THEN <<>> ELSE NodeText(i))
  ELSE IF Tr[i].k # "e" \/ Tr[i].n \in {"annotation", "annotation-xml"} THEN <<>>
  ELSE LET cs == Children(Tr, i)
           inside == Flatten([m \in 1..Len(cs) |-> FormOf(cs[m])])
       IN IF Tr[i].n = "semantics" THEN inside ELSE OpenTag(i) \o inside \o CloseTag(i)
FormIsDeclared == CDone => form = FormOf(from)
\* noise: reordering classes, other attributes, comments do not change the form (ids stand for other attributes)
Denoised == [m \in 1..Len(Tr) |-> [Tr[m] EXCEPT !.id = <<>>, !.c = JoinWith(Sorted(SplitWs(@)), T(" "))]]
=============================================================================
