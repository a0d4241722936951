----------------------------- MODULE Resources -----------------------------
(* src/util/test.rs RESOURCE_DOCUMENTS: the names of the documents below     *)
(* ./tests/resources, listed once per process.                               *)
(* inp: [root, files]: whether the folder exists; its entries                *)
(*   <<[p, n, k]>>: parent entry (0 the folder), name, "d" folder, "f" file, *)
(*   "l" link to a file, "ld" link to a folder (not entered)                 *)
EXTENDS Chars, FiniteSets, TLC
VARIABLES inp, stack, listed, pc
rsvars == <<inp, stack, listed, pc>>
Files == inp.files
Kids(i) == {j \in 1..Len(Files) : Files[j].p = i}
\* the last dot of a name, unless it is the first character
DotOf(s) == LET d == {i \in 2..Len(s) : s[i] = 46} IN IF d = {} THEN 0 ELSE CHOOSE i \in d : \A j \in d : j <= i
Extension(s) == IF DotOf(s) = 0 THEN <<>> ELSE SubSeq(s, DotOf(s) + 1, Len(s))
Stem(s) == IF DotOf(s) = 0 THEN s ELSE SubSeq(s, 1, DotOf(s) - 1)
IsDocument(i) == Files[i].k \in {"f", "l"} /\ Extension(Files[i].n) \in {T("html"), T("xhtml")}
RSStart(x) == inp = x /\ stack = (IF x.root THEN {j \in 1..Len(x.files) : x.files[j].p = 0} ELSE {}) /\ listed = <<>> /\ pc = "walk"
Next1 == CHOOSE i \in stack : TRUE
EnterFolder == /\ pc = "walk" /\ stack # {} /\ Files[Next1].k = "d"
               /\ stack' = (stack \ {Next1}) \cup Kids(Next1) /\ UNCHANGED <<inp, listed, pc>>
ListDocument == /\ pc = "walk" /\ stack # {} /\ IsDocument(Next1)
                /\ listed' = Append(listed, Stem(Files[Next1].n)) /\ stack' = stack \ {Next1} /\ UNCHANGED <<inp, pc>>
PassOver == /\ pc = "walk" /\ stack # {} /\ Files[Next1].k # "d" /\ ~IsDocument(Next1)
            /\ stack' = stack \ {Next1} /\ UNCHANGED <<inp, listed, pc>>
Walked == pc = "walk" /\ stack = {} /\ pc' = "done" /\ UNCHANGED <<inp, stack, listed>>
RSNext == EnterFolder \/ ListDocument \/ PassOver \/ Walked
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ (s = t \/ \A i \in 1..Len(s) : Count(s, s[i]) = Count(t, s[i]))
----------------------------------------------------------------------------
(* C29: said by names *)
RECURSIVE Inside(_)
Inside(i) == i = 0 \/ (Files[i].k = "d" /\ Inside(Files[i].p))
NameFits(s) == Len(s) > 0 /\ \E m \in {T(".html"), T(".xhtml")} : Len(s) > Len(m) /\ SubSeq(s, Len(s) - Len(m) + 1, Len(s)) = m
Wanted == {i \in 1..Len(Files) : Files[i].k \in {"f", "l"} /\ NameFits(Files[i].n) /\ Inside(Files[i].p)}
AllListed == pc = "done" /\ inp.root => Len(listed) = Cardinality(Wanted)
\* the list grows by one name at a time: the last one says it for all of them
OnlyDocuments == pc # "grow" /\ listed # <<>> =>
   LET x == listed[Len(listed)]
   IN \E i \in 1..Len(Files) : (x \o T(".html") = Files[i].n \/ x \o T(".xhtml") = Files[i].n) /\ i \in Wanted
Ends == (pc = "walk") ~> (pc = "done")
=============================================================================
