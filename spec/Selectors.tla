------------------------------ MODULE Selectors ------------------------------
(* C18: one pass over the document that keeps, for every element, whether    *)
(* error markup has been met below it or among its preceding siblings.       *)
EXTENDS Select, TLC
VARIABLES inp, at,
          open,    \* the elements around the next node
          sib,     \* per depth: error markup among the siblings so far
          tainted, \* elements with error markup below
          late,    \* nodes after an error sibling
          pc
selvars == <<inp, at, open, sib, tainted, late, pc>>
Tr == inp.tree
SStart(in) == inp = in /\ at = 1 /\ open = <<>> /\ sib = <<FALSE>> /\ tainted = {} /\ late = {} /\ pc = "walk"
D == Tr[at].d
Around == SubSeq(open, 1, D)     \* an element of depth d has d elements around it
Visit(err) ==
  /\ pc = "walk" /\ at <= Len(Tr) /\ IsError(Tr, at) = err
  /\ late' = IF sib[D + 1] THEN late \cup {at} ELSE late
  /\ tainted' = IF err THEN tainted \cup {Around[j] : j \in 1..D} ELSE tainted
  /\ sib' = IF IsElement(Tr, at) THEN SubSeq(sib, 1, D) \o <<sib[D + 1] \/ err, FALSE>> ELSE SubSeq(sib, 1, D + 1)
  /\ open' = IF IsElement(Tr, at) THEN Append(Around, at) ELSE Around
  /\ at' = at + 1 /\ UNCHANGED <<inp, pc>>
VisitError == Visit(TRUE)
VisitOther == Visit(FALSE)
Stop == pc = "walk" /\ at > Len(Tr) /\ pc' = "done" /\ UNCHANGED <<inp, at, open, sib, tainted, late>>
SelNext == VisitError \/ VisitOther \/ Stop
SelDone == pc = "done"
Pick(Test(_)) == SelectSeq(All(Tr), Test)
MParagraphs == Pick(LAMBDA i : Names(Tr, i, {"div"}) /\ HasInClass(Tr, i, "ltx_para") /\ i \notin tainted /\ i \notin late)
MHeadings == Pick(LAMBDA i : /\ Names(Tr, i, {"h1", "h2", "h3", "h4", "h5", "h6"}) /\ HasInClass(Tr, i, "ltx_title")
                             /\ ~HasInClass(Tr, i, "ltx_title_document") /\ i \notin tainted)
MClean(n, cl) == Pick(LAMBDA i : Names(Tr, i, {n}) /\ HasInClass(Tr, i, cl) /\ i \notin tainted)
MExtended == FirstOf(Pick(LAMBDA i : /\ Names(Tr, i, {"p"}) /\ HasInClass(Tr, i, "ltx_p")
                                     /\ \E m \in 1..Len(MClean("div", "ltx_abstract")) : Below(Tr, MClean("div", "ltx_abstract")[m], i)))
             \o FirstOf(MClean("div", "ltx_keywords")) \o MParagraphs \o FirstOf(MClean("div", "ltx_acknowledgement"))
             \o MClean("figcaption", "ltx_caption")
\* the pass and the conditions agree
PassAgrees == SelDone => /\ MParagraphs = Paragraphs(Tr) /\ MHeadings = Headings(Tr) /\ MExtended = Extended(Tr)
Before(s) == \A a, b \in 1..Len(s) : a < b => s[a] < s[b]
InOrder == SelDone => /\ Before(MParagraphs) /\ Before(MHeadings) /\ Before(MathNodes(Tr)) /\ Before(RefNodes(Tr))
ErrorFree == SelDone => \A a \in 1..Len(MParagraphs) : ~ErrorBelow(Tr, MParagraphs[a])
=============================================================================
