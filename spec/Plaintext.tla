------------------------------ MODULE Plaintext ------------------------------
(* src/dnm/mod.rs: the traversal that builds the plain text of a document    *)
(* and the maps between text offsets and nodes.                              *)
(*                                                                           *)
(* Input: tree (Tree.tla), root (the node the DNM is built for), names and   *)
(* classes: the rules <<[key, rule, token]>> with rule "enter", "skip",      *)
(* "token" or "computed" (the harness's function gives "<name>"), and par,   *)
(* the flags [ws, wrap, uni, stem, full, lower, back].                       *)
(* One step per node.                                                        *)
EXTENDS Tree, FiniteSets, TLC

VARIABLES inp,
          at,       \* next node
          open,     \* entered elements: <<node, first offset>>
          out,      \* the text: <<character, node, position in node or -1>>
          ws,       \* the text is terminated by whitespace
          map,      \* node -> <<start, end>>
          pc        \* "walk" | "done" | "refused"
pvars == <<inp, at, open, out, ws, map, pc>>

Tr == inp.tree
Par == inp.par
\* ws: leading whitespace is dropped
PStart(in) == /\ inp = in /\ at = in.root /\ open = <<>> /\ out = <<>> /\ ws = TRUE
              /\ map = [i \in {} |-> <<>>] /\ pc = "walk"
PInit(inputs) == \E in \in inputs : PStart(in)

RuleAt(rules, key) == LET hits == {i \in 1..Len(rules) : rules[i].key = key}
                      IN IF hits = {} THEN [rule |-> "none"] ELSE rules[CHOOSE i \in hits : TRUE]
\* the first class with a rule decides, then the name
RECURSIVE FirstRule(_, _)
FirstRule(cs, i) == IF cs = <<>> THEN RuleAt(inp.names, Tr[i].n)
                    ELSE LET r == RuleAt(inp.classes, Head(cs))
                         IN IF r.rule # "none" THEN r ELSE FirstRule(Tail(cs), i)
RuleOf(i) == IF Tr[i].k # "e" THEN [rule |-> "none"] ELSE FirstRule(Classes(Tr, i), i)
TokenOf(i, r) == IF r.rule = "computed" THEN T("<") \o T(Tr[i].n) \o T(">") ELSE r.token

----------------------------------------------------------------------------
(* text processing: sequences of <<character, position>> *)
LowerOf(c) == IF c < 128 THEN <<AsciiLowerOf(c)>>
              ELSE IF c \in DOMAIN NonAsciiLowercaseFn THEN NonAsciiLowercaseFn[c] ELSE <<c>>
TranslitOf(c) == IF c < 128 THEN <<c>> ELSE IF c \in DOMAIN TranslitFn THEN TranslitFn[c] ELSE <<>>
\* every character replaced by several, with its position
Replace(t, F(_)) == Flatten([m \in 1..Len(t) |-> LET r == F(t[m][1]) IN [j \in 1..Len(r) |-> <<r[j], t[m][2]>>]])
\* the stemmer (stand-in): drops a final s, the full one then a final ing
DropS(t) == IF Len(t) > 1 /\ t[Len(t)][1] = 115 THEN SubSeq(t, 1, Len(t) - 1) ELSE t
EndsIng(t) == Len(t) > 3 /\ <<t[Len(t) - 2][1], t[Len(t) - 1][1], t[Len(t)][1]>> = T("ing")
DropIng(t) == IF EndsIng(t) THEN SubSeq(t, 1, Len(t) - 3) ELSE t
Stem(t) == IF Par.full THEN DropIng(DropS(t)) ELSE IF Par.stem THEN DropS(t) ELSE t
\* whitespace normalization continues across nodes: w says whether the text so far ends in whitespace
RECURSIVE Squeeze(_, _)
Squeeze(t, w) == IF t = <<>> THEN [t |-> <<>>, w |-> w]
                 ELSE IF IsWs(t[1][1])
                      THEN LET r == Squeeze(Tail(t), TRUE)
                           IN [t |-> (IF w THEN <<>> ELSE <<<<32, t[1][2]>>>>) \o r.t, w |-> r.w]
                      ELSE LET r == Squeeze(Tail(t), FALSE) IN [t |-> <<t[1]>> \o r.t, w |-> r.w]
Numbered(t) == [j \in 1..Len(t) |-> <<t[j], j - 1>>]
Shaped(t) ==   \* everything but whitespace
  LET a == IF Par.uni THEN Replace(Numbered(t), TranslitOf) ELSE Numbered(t)
      b == Stem(a)
  IN IF Par.lower THEN Replace(b, LowerOf) ELSE b

Own(t, i) == [j \in 1..Len(t) |-> <<t[j][1], i, t[j][2]>>]
Tok(t, i) == [j \in 1..Len(t) |-> <<t[j], i, 0 - 1>>]
Record(i, s, e) == map' = [j \in DOMAIN map \cup {i} |-> IF j = i THEN <<s, e>> ELSE map[j]]
End == SubEnd(Tr, inp.root)

\* an element has been left: it covers what its children produced
MustClose == open # <<>> /\ at > SubEnd(Tr, open[Len(open)][1])
Close == /\ pc = "walk" /\ MustClose
         /\ LET top == open[Len(open)] IN Record(top[1], top[2], Len(out))
         /\ open' = SubSeq(open, 1, Len(open) - 1)
         /\ UNCHANGED <<inp, at, out, ws, pc>>
Visit == pc = "walk" /\ ~MustClose /\ at <= End
\* a stemmed text has no source positions: asking for both is refused when there is a text
Unmappable == Par.back /\ (Par.stem \/ Par.full)
RefuseText == /\ Visit /\ Tr[at].k = "t" /\ Unmappable
              /\ pc' = "refused" /\ UNCHANGED <<inp, at, open, out, ws, map>>
VisitText == /\ Visit /\ Tr[at].k = "t" /\ ~Unmappable
             /\ LET r == IF Par.ws THEN Squeeze(Shaped(Tr[at].t), ws) ELSE [t |-> Shaped(Tr[at].t), w |-> ws]
                IN /\ out' = out \o Own(r.t, at) /\ ws' = r.w
                   /\ Record(at, Len(out), Len(out) + Len(r.t))
             /\ at' = at + 1 /\ UNCHANGED <<inp, open, pc>>
VisitSkipped == /\ Visit /\ Tr[at].k # "t" /\ RuleOf(at).rule = "skip"
                /\ Record(at, Len(out), Len(out)) /\ at' = SubEnd(Tr, at) + 1
                /\ UNCHANGED <<inp, open, out, ws, pc>>
VisitReplaced == /\ Visit /\ Tr[at].k # "t" /\ RuleOf(at).rule \in {"token", "computed"}
                 /\ LET r == RuleOf(at)
                        before == IF Par.wrap /\ (~ws \/ ~Par.ws) THEN <<32>> ELSE <<>>
                        after == IF Par.wrap THEN <<32>> ELSE <<>>
                        o == out \o Tok(before \o TokenOf(at, r) \o after, at)
                    IN /\ out' = o /\ ws' = Par.wrap /\ Record(at, Len(out), Len(o))
                 /\ at' = SubEnd(Tr, at) + 1 /\ UNCHANGED <<inp, open, pc>>
VisitEntered == /\ Visit /\ Tr[at].k # "t" /\ RuleOf(at).rule \in {"none", "enter"}
                /\ open' = Append(open, <<at, Len(out)>>) /\ at' = at + 1
                /\ UNCHANGED <<inp, out, ws, map, pc>>
Finish == /\ pc = "walk" /\ ~MustClose /\ at > End
          /\ pc' = "done" /\ UNCHANGED <<inp, at, open, out, ws, map>>
PNext == Close \/ RefuseText \/ VisitText \/ VisitSkipped \/ VisitReplaced \/ VisitEntered \/ Finish
PDone == pc = "done"
Text == [j \in 1..Len(out) |-> out[j][1]]

----------------------------------------------------------------------------
(* C08, stated without the traversal: the visible nodes are those without a  *)
(* skipped or replaced node above them (up to the root)                      *)
Hides(i) == RuleOf(i).rule \in {"skip", "token", "computed"}
Visible(j) == j \in inp.root..End /\ \A i \in inp.root..(j - 1) : ~(Below(Tr, i, j) /\ Hides(i))
Nothing == 0 - 1   \* where an empty token stands (its own blanks are kept)
\* what a visible node contributes before whitespace is normalized: <<character, is it of a token>>
Contribution(j) ==
  IF Tr[j].k = "t" THEN LET t == Shaped(Tr[j].t) IN [m \in 1..Len(t) |-> <<t[m][1], FALSE>>]
  ELSE IF RuleOf(j).rule \in {"token", "computed"}
       THEN LET t == TokenOf(j, RuleOf(j))  w == IF Par.wrap THEN << <<32, FALSE>> >> ELSE <<>>
            IN w \o (IF t = <<>> THEN << <<Nothing, TRUE>> >> ELSE [m \in 1..Len(t) |-> <<t[m], TRUE>>]) \o w
       ELSE <<>>
RECURSIVE Stream(_)
Stream(j) == IF j > End THEN <<>> ELSE (IF Visible(j) THEN Contribution(j) ELSE <<>>) \o Stream(j + 1)
\* whitespace of the text is dropped at the beginning and after other whitespace
Blank(x) == IsWs(x[1]) /\ ~x[2]
Normalized(s) ==
  LET keep == SelectSeq([m \in 1..Len(s) |-> m], LAMBDA m : ~Blank(s[m]) \/ (m > 1 /\ ~Blank(s[m - 1])))
  IN [m \in 1..Len(keep) |-> IF Blank(s[keep[m]]) THEN 32 ELSE s[keep[m]][1]]
Raw(s) == [m \in 1..Len(s) |-> s[m][1]]
DeclaredText == LET s == Stream(inp.root) IN SelectSeq(IF Par.ws THEN Normalized(s) ELSE Raw(s), LAMBDA c : c # Nothing)
TextIsDeclared == PDone => Text = DeclaredText
NoDoubleBlank == (Par.ws /\ PDone) => \A m \in 1..(Len(out) - 1) :
                    ~(IsWs(out[m][1]) /\ IsWs(out[m + 1][1]) /\ out[m][3] >= 0 /\ out[m + 1][3] >= 0)

(* C09 *)
RefusedOnlyIfUnmappable == (pc = "refused" => Unmappable) /\ (PDone /\ Unmappable => \A j \in 1..Len(out) : out[j][3] < 0)
MapNested ==
  PDone =>
    /\ DOMAIN map = {j \in inp.root..End : Visible(j)}
    /\ map[inp.root] = <<0, Len(out)>>
    /\ \A j \in DOMAIN map : map[j][1] <= map[j][2]
    /\ \A i, j \in DOMAIN map :
         /\ Below(Tr, i, j) => map[i][1] <= map[j][1] /\ map[j][2] <= map[i][2]
         /\ (SubEnd(Tr, i) < j) => map[i][2] <= map[j][1]
    /\ \A i \in DOMAIN map : RuleOf(i).rule \in {"none", "enter"} /\ Tr[i].k = "e" =>
         LET cs == Children(Tr, i)
         IN IF cs = <<>> THEN map[i][1] = map[i][2]
            ELSE /\ map[cs[1]][1] = map[i][1] /\ map[cs[Len(cs)]][2] = map[i][2]
                 /\ \A m \in 1..(Len(cs) - 1) : map[cs[m]][2] = map[cs[m + 1]][1]
    /\ \A i \in DOMAIN map : RuleOf(i).rule = "skip" => map[i][1] = map[i][2]
BackMapped ==
  PDone => \A m \in 1..Len(out) :
    LET c == out[m][1]  i == out[m][2]  p == out[m][3]
    IN /\ i \in DOMAIN map /\ map[i][1] < m /\ m <= map[i][2]
       /\ IF p < 0 THEN RuleOf(i).rule \in {"token", "computed"}
          ELSE /\ Tr[i].k = "t" /\ p < Len(Tr[i].t)
               /\ (m > 1 /\ out[m - 1][2] = i) => out[m - 1][3] <= p
               /\ LET src == Tr[i].t[p + 1]
                      one == IF Par.uni THEN TranslitOf(src) ELSE <<src>>
                      all == IF Par.lower THEN Raw(Replace([x \in 1..Len(one) |-> <<one[x], 0>>], LowerOf)) ELSE one
                  IN \E x \in 1..Len(all) : c = all[x] \/ (Par.ws /\ IsWs(all[x]) /\ c = 32)
=============================================================================
