------------------------------ MODULE XPointer ------------------------------
(* src/dnm/range.rs: serialize and deserialize.  After the text has been     *)
(* built, a non-empty range <<rs, re>> of it is written as a pair of         *)
(* pointers and the pointers are resolved against the document again.        *)
(* A pointer is [path, idx]: a path of steps, and the character index in a   *)
(* text node (or -1: the node itself).                                       *)
EXTENDS Plaintext
VARIABLES rs, re, ptr, res
xvars == <<pvars, rs, re, ptr, res>>

Step(kind, name, ns, num) == [kind |-> kind, name |-> name, ns |-> ns, num |-> num]
\* namespaces are given by prefixes; "-" is a default namespace, and two of the prefixes stand for the
\* namespace of another one (a step selects by namespace, whatever the prefix an element was written with)
Namespace(prefix) == CASE prefix = "y" -> "x" [] prefix = "d" -> "-" [] OTHER -> prefix
Matches(st, i) == CASE st.kind = "text" -> Tr[i].k = "t"
                    [] st.kind = "any" -> Tr[i].k = "e" /\ Tr[i].n = st.name
                    [] OTHER -> Tr[i].k = "e" /\ Tr[i].n = st.name /\ Namespace(Tr[i].ns) = Namespace(st.ns)
KidsOf(p) == IF p = 0 THEN <<1>> ELSE Children(Tr, p)
MatchingKids(p, st) == SelectSeq(KidsOf(p), LAMBDA j : Matches(st, j))
StepFor(i) ==
  LET st == IF Tr[i].k = "t" THEN Step("text", "", "", 0)
            ELSE IF Tr[i].ns = "-" THEN Step("any", Tr[i].n, "", 0) ELSE Step("name", Tr[i].n, Tr[i].ns, 0)
      ks == MatchingKids(Parent(Tr, i), st)
  IN [st EXCEPT !.num = CHOOSE m \in 1..Len(ks) : ks[m] = i]
RECURSIVE PathTo(_)
PathTo(i) == IF Tr[i].id # <<>> THEN <<Step("id", Tr[i].id, "", 0)>>
             ELSE IF i = inp.root THEN <<Step("root", "", "", 0)>>
             ELSE Append(PathTo(Parent(Tr, i)), StepFor(i))
\* the next text or element after the subtree of i inside the root, or 0
RECURSIVE After(_)
After(i) == IF i = inp.root THEN 0
            ELSE LET j == NextSibling(Tr, i)
                     RECURSIVE Addressable(_)
                     Addressable(m) == IF m = 0 THEN 0 ELSE IF Tr[m].k \in {"e", "t"} THEN m ELSE Addressable(NextSibling(Tr, m))
                 IN IF Addressable(j) # 0 THEN Addressable(j) ELSE After(Parent(Tr, i))

\* resolution: what an XPath processor selects
Kth(p, st) == LET ks == MatchingKids(p, st) IN IF st.num <= Len(ks) THEN {ks[st.num]} ELSE {}
RECURSIVE Select(_, _)
Select(ns, steps) == IF steps = <<>> THEN ns ELSE Select(UNION {Kth(p, steps[1]) : p \in ns}, Tail(steps))
SelectPath(path) ==
  CASE path[1].kind = "id" -> Select({i \in 1..Len(Tr) : Tr[i].k = "e" /\ Tr[i].id = path[1].name}, Tail(path))
    \* "/" followed by a step is "//": the step is taken from everywhere
    [] OTHER -> IF Len(path) = 1 THEN {0} ELSE Select({p \in 0..Len(Tr) : p = 0 \/ Tr[p].k = "e"}, Tail(path))
InRoot(i) == i >= inp.root /\ i <= End
NodeOfPath(path) == LET all == SelectPath(path)
                    IN IF Cardinality(all) <= 1 THEN all ELSE {i \in all : i # 0 /\ InRoot(i) /\ PathTo(i) = path}
RECURSIVE LowestStart(_)
LowestStart(i) == IF i \in DOMAIN map THEN map[i][1] ELSE IF i = 0 THEN 0 - 1 ELSE LowestStart(Parent(Tr, i))
RECURSIVE FirstFrom(_, _, _)
FirstFrom(p, e, o) == IF p < e /\ out[p + 1][3] < o THEN FirstFrom(p + 1, e, o) ELSE p
PositionOf(p) ==
  LET ns == NodeOfPath(p.path)
  IN IF Cardinality(ns) # 1 THEN 0 - 2
     ELSE LET i == CHOOSE x \in ns : TRUE
          IN IF p.idx >= 0 /\ i \in DOMAIN map THEN FirstFrom(map[i][1], map[i][2], p.idx) ELSE LowestStart(i)

XStart(in) == PStart(in) /\ rs = 0 /\ re = 0 /\ ptr = <<>> /\ res = <<>>
Building == pc = "walk" /\ PNext /\ UNCHANGED <<rs, re, ptr, res>>
Keep == UNCHANGED <<inp, at, open, out, ws, map>>
Choose == /\ pc = "done" /\ \E s \in 0..(Len(out) - 1) : \E e \in (s + 1)..Len(out) : rs' = s /\ re' = e
          /\ pc' = "write start" /\ Keep /\ UNCHANGED <<ptr, res>>
WriteStart == /\ pc = "write start" /\ pc' = "write end"
              /\ ptr' = <<[path |-> PathTo(out[rs + 1][2]), idx |-> out[rs + 1][3]]>> /\ Keep /\ UNCHANGED <<rs, re, res>>
WriteEnd == /\ pc = "write end" /\ pc' = "resolve start"
            /\ LET n == out[re][2]  p == out[re][3]
               IN ptr' = Append(ptr, IF p >= 0 THEN [path |-> PathTo(n), idx |-> p + 1]
                                     ELSE [path |-> PathTo(IF After(n) = 0 THEN n ELSE After(n)), idx |-> 0 - 1])
            /\ Keep /\ UNCHANGED <<rs, re, res>>
ResolveStart == pc = "resolve start" /\ pc' = "resolve end" /\ res' = <<PositionOf(ptr[1])>> /\ Keep /\ UNCHANGED <<rs, re, ptr>>
ResolveEnd == pc = "resolve end" /\ pc' = "resolved" /\ res' = Append(res, PositionOf(ptr[2])) /\ Keep /\ UNCHANGED <<rs, re, ptr>>
XNext == Building \/ Choose \/ WriteStart \/ WriteEnd \/ ResolveStart \/ ResolveEnd
XDone == pc = "resolved" \/ (pc = "done" /\ out = <<>>)
----------------------------------------------------------------------------
(* C12 *)
SameUnit(a, b) == out[a][2] = out[b][2] /\ out[a][3] = out[b][3]
RECURSIVE UnitStart(_)
UnitStart(p) == IF p > 0 /\ SameUnit(p, p + 1) THEN UnitStart(p - 1) ELSE p      \* p: offset of a character
RECURSIVE UnitEnd(_)
UnitEnd(p) == IF p < Len(out) /\ SameUnit(p, p + 1) THEN UnitEnd(p + 1) ELSE p   \* p: offset behind a character
ExpectedRange(s, e) == <<UnitStart(s), UnitEnd(e)>>
Exempt(s, e) == out[e][3] < 0 /\ After(out[e][2]) = 0
UniqueIds == \A i, j \in 1..Len(Tr) : (i # j /\ Tr[i].id # <<>>) => Tr[i].id # Tr[j].id
RoundTrips == (pc = "resolved" /\ UniqueIds /\ ~Exempt(rs, re)) => res = ExpectedRange(rs, re)
PointersUnique == (pc \in {"resolve start", "resolve end", "resolved"} /\ UniqueIds /\ ~Exempt(rs, re)) =>
                     \A m \in 1..Len(ptr) : Cardinality(NodeOfPath(ptr[m].path)) = 1
=============================================================================
