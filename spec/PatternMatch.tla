----------------------------- MODULE PatternMatch -----------------------------
(* src/patterns/matching.rs: match_sentence.                                 *)
(*                                                                           *)
(* A case is a set of rules [kind, name, p] (patterns as in PatternLoad:     *)
(* [op, args, ch]), the name of the sequence rule to match, and a tagged and *)
(* parsed sentence:                                                          *)
(*   pre    text before the sentence                                         *)
(*   words  [gap, t, pos, node]: text in front, text, tag, document node     *)
(*   psg    phrase structure tree: [l |-> label, w |-> 0, k |-> children] or *)
(*          [l |-> "", w |-> word, k |-> <<>>]                               *)
(*   tree   the document (Tree)                                              *)
(* The matcher tries the rule at every word.  Left recursive rules have no   *)
(* meaning and are outside the domain.                                       *)
EXTENDS Tree, FiniteSets, TLC
VARIABLES inp, pos, out, pc
mvars == <<inp, pos, out, pc>>

Words == inp.words
Tr == inp.tree
NWords == Len(Words)
RuleAt(kind, name) == LET m == CHOOSE i \in 1..Len(inp.rules) : inp.rules[i].kind = kind /\ inp.rules[i].name = name IN inp.rules[m].p
HasRule(kind, name) == \E i \in 1..Len(inp.rules) : inp.rules[i].kind = kind /\ inp.rules[i].name = name

\* character offsets of the words in the whole text
RECURSIVE LenUpTo(_)
LenUpTo(m) == IF m = 0 THEN Len(inp.pre) ELSE LenUpTo(m - 1) + Len(Words[m].gap) + Len(Words[m].t)
WordEnd(m) == LenUpTo(m)
WordStart(m) == LenUpTo(m) - Len(Words[m].t)

\* marks
TextMark(p, from, to, sub) == [kind |-> "text", name |-> p.args[1], tags |-> Tail(p.args), s |-> WordStart(from), e |-> WordEnd(to), node |-> 0, sub |-> sub]
MathMark(p, n, sub) == [kind |-> "math", name |-> p.args[1], tags |-> Tail(p.args), s |-> 0, e |-> 0, node |-> n, sub |-> sub]
No == [m |-> FALSE, e |-> 0, ms |-> <<>>]
Yes(e, ms) == [m |-> TRUE, e |-> e, ms |-> ms]

----------------------------------------------------------------------------
(* part-of-speech patterns *)
RECURSIVE PosM(_, _)
PosM(p, tag) == CASE p.op = "pos" -> p.args[1] = tag
                  [] p.op = "pos_not" -> ~PosM(p.ch[1], tag)
                  [] p.op = "pos_or" -> \E i \in 1..Len(p.ch) : PosM(p.ch[i], tag)
                  [] OTHER -> PosM(RuleAt("pos", p.args[1]), tag)
(* texts of formula symbols *)
RECURSIVE MTextM(_, _)
MTextM(p, t) == CASE p.op = "mtext_any" -> TRUE
                  [] p.op = "mtext_lit" -> p.args[1] = t
                  [] p.op = "mtext_not" -> ~MTextM(p.ch[1], t)
                  [] p.op = "mtext_or" -> \E i \in 1..Len(p.ch) : MTextM(p.ch[i], t)
                  [] OTHER -> MTextM(RuleAt("mtext", p.args[1]), t)

(* formulas.  Kids are the element children *)
Kids(n) == SelectSeq(Children(Tr, n), LAMBDA j : Tr[j].k \in {"e", "p"})
Symbol(n) == LET cs == Children(Tr, n) IN IF cs = <<>> THEN <<<<>>>> ELSE IF Len(cs) = 1 /\ Tr[cs[1]].k = "t" THEN <<Tr[cs[1]].t>> ELSE <<>>
AllSubs(rs) == Flatten([i \in 1..Len(rs) |-> rs[i].ms])
Parts(p, op) == SelectSeq(p.ch, LAMBDA c : c.op = op)
RECURSIVE MathM(_, _)
\* the patterns ps match the children ks from offset o on
Row(ps, ks, o) == TLCEval([i \in 1..Len(ps) |-> MathM(ps[i], ks[o + i])])
RECURSIVE FirstRow(_, _, _)
FirstRow(ps, ks, offsets) ==
  IF offsets = <<>> THEN No
  ELSE LET r == Row(ps, ks, offsets[1])
       IN IF \A i \in 1..Len(ps) : r[i].m THEN Yes(0, AllSubs(r)) ELSE FirstRow(ps, ks, Tail(offsets))
ChildrenM(c, n) ==
  LET ps == c.ch   ks == Kids(n)   slack == Len(ks) - Len(ps)   type == c.args[1]
      offsets == IF Len(ks) < Len(ps) THEN <<>>
                 ELSE CASE type = T("exact") -> IF slack = 0 THEN <<0>> ELSE <<>>
                        [] type = T("starts_with") -> <<0>>
                        [] type = T("ends_with") -> <<slack>>
                        [] OTHER -> [i \in 1..(slack + 1) |-> i - 1]
  IN FirstRow(ps, ks, offsets)
\* n and the elements below it, in document order
RECURSIVE Family(_)
Family(n) == LET ks == Kids(n) IN <<n>> \o Flatten([i \in 1..Len(ks) |-> Family(ks[i])])
RECURSIVE FirstOf(_, _, _)
FirstOf(p, ns, i) == IF i > Len(ns) THEN No ELSE LET r == MathM(p, ns[i]) IN IF r.m THEN r ELSE FirstOf(p, ns, i + 1)
RECURSIVE FirstAlt(_, _, _)
FirstAlt(ps, n, i) == IF i > Len(ps) THEN No ELSE LET r == MathM(ps[i], n) IN IF r.m THEN r ELSE FirstAlt(ps, n, i + 1)
MathM(p, n) ==
  CASE p.op = "math_any" -> Yes(0, <<>>)
    [] p.op = "math_ref" -> MathM(RuleAt("math", p.args[1]), n)
    [] p.op = "math_marker" -> LET r == TLCEval(MathM(p.ch[1], n)) IN IF r.m THEN Yes(0, <<MathMark(p, n, r.ms)>>) ELSE No
    [] p.op = "math_or" -> FirstAlt(p.ch, n, 1)
    [] p.op = "math_descendant" ->
         LET fam == Family(n)
             all == SelectSeq(TLCEval([i \in 1..Len(fam) |-> MathM(p.ch[1], fam[i])]), LAMBDA r : r.m)
         IN CASE p.args[1] = T("first") -> FirstOf(p.ch[1], fam, 1)
              [] p.args[1] = T("at_least_one") -> IF all = <<>> THEN No ELSE Yes(0, AllSubs(all))
              [] OTHER -> Yes(0, AllSubs(all))
    [] OTHER -> \* math_node
         IF p.args # <<>> /\ T(Tr[n].n) # p.args[1] THEN No
         ELSE LET texts == Parts(p, "mtext_ref")   lists == Parts(p, "math_children")
              IN IF texts # <<>> /\ (IF Symbol(n) = <<>> THEN TRUE ELSE ~MTextM(RuleAt("mtext", texts[1].args[1]), Symbol(n)[1])) THEN No
                 ELSE IF lists = <<>> THEN Yes(0, <<>>) ELSE ChildrenM(lists[1], n)

(* words *)
\* the formula of a math element: its first element child, inside a semantics wrapper if there is one
Formula(n) == IF n = 0 THEN 0
              ELSE IF Tr[n].n # "math" \/ Kids(n) = <<>> THEN 0
              ELSE LET c == Kids(n)[1]
                   IN IF Tr[c].n # "semantics" THEN c ELSE IF Kids(c) = <<>> THEN 0 ELSE Kids(c)[1]
RECURSIVE WordM(_, _)
RECURSIVE FirstWord(_, _, _)
FirstWord(ps, w, i) == IF i > Len(ps) THEN No ELSE LET r == TLCEval(WordM(ps[i], w)) IN IF r.m THEN r ELSE FirstWord(ps, w, i + 1)
WordM(p, w) ==
  CASE p.op = "word_any" -> Yes(0, <<>>)
    [] p.op = "word" -> IF p.args[1] = Words[w].t THEN Yes(0, <<>>) ELSE No
    [] p.op = "word_ref" -> WordM(RuleAt("word", p.args[1]), w)
    [] p.op = "word_or" -> FirstWord(p.ch, w, 1)
    [] p.op = "word_not" -> IF WordM(p.ch[1], w).m THEN No ELSE Yes(0, <<>>)
    [] p.op = "word_pos" -> IF PosM(p.ch[1], Words[w].pos) THEN WordM(p.ch[2], w) ELSE No
    [] p.op = "word_marker" -> LET r == TLCEval(WordM(p.ch[1], w)) IN IF r.m THEN Yes(0, <<TextMark(p, w, w, r.ms)>>) ELSE No
    [] OTHER -> LET f == Formula(Words[w].node) IN IF f = 0 THEN No ELSE MathM(p.ch[1], f)

(* phrases: the nodes of the tree, as [l, s, e], first and last word *)
RECURSIVE Leaves(_)
Leaves(t) == IF t.l = "" THEN <<t.w>> ELSE Flatten([i \in 1..Len(t.k) |-> Leaves(t.k[i])])
RECURSIVE Nodes(_)
Nodes(t) == IF t.l = "" THEN {}
            ELSE LET ls == Leaves(t) IN (IF ls = <<>> THEN {} ELSE {[l |-> t.l, s |-> ls[1], e |-> ls[Len(ls)]]}) \cup UNION {Nodes(t.k[i]) : i \in 1..Len(t.k)}
\* ends (position after the last word) of the phrases with a label that start at a position, in the order they are tried
PhraseEnds(label, at) == {n.e + 1 : n \in {n \in Nodes(inp.psg) : n.s = at /\ T(n.l) = label}}
RECURSIVE SortUp(_)
SortUp(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SortUp(S \ {x})
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

(* sequences: a match from position `at` (1-based) ends before position e *)
RECURSIVE SeqM(_, _)
RECURSIVE InOrder(_, _, _, _)
InOrder(ps, i, at, ms) == IF i > Len(ps) THEN Yes(at, ms)
                          ELSE LET r == TLCEval(SeqM(ps[i], at)) IN IF r.m THEN InOrder(ps, i + 1, r.e, ms \o r.ms) ELSE No
RECURSIVE EndsWithFrom(_, _, _)
EndsWithFrom(p, from, e) == IF from >= e THEN No ELSE LET r == TLCEval(SeqM(p, from)) IN IF r.m /\ r.e = e THEN r ELSE EndsWithFrom(p, from + 1, e)
RECURSIVE TryEnds(_, _, _)
TryEnds(p, at, ends) ==
  IF ends = <<>> THEN No
  ELSE LET starts == Parts(p, "starts_with_seq")   lasts == Parts(p, "ends_with_seq")   e == ends[1]
           s == IF starts = <<>> THEN Yes(at, <<>>) ELSE TLCEval(SeqM(starts[1].ch[1], at))
           sok == IF ~s.m THEN FALSE ELSE IF starts = <<>> THEN TRUE ELSE starts[1].args[1] = T("any") \/ s.e <= e
           l == IF lasts = <<>> THEN Yes(e, <<>>) ELSE TLCEval(EndsWithFrom(lasts[1].ch[1], at, e))
       IN IF sok /\ l.m THEN Yes(e, s.ms \o l.ms) ELSE TryEnds(p, at, Tail(ends))
MaxEnd(rs, at) == CHOOSE x \in {at} \cup {rs[i].e : i \in 1..Len(rs)} : x >= at /\ \A i \in 1..Len(rs) : x >= rs[i].e
Alternatives(p, at) ==
  LET rs == TLCEval(SelectSeq(TLCEval([i \in 1..Len(p.ch) |-> SeqM(p.ch[i], at)]), LAMBDA r : r.m))
      type == p.args[1]
  IN IF rs = <<>> THEN (IF type = T("any") THEN Yes(at, <<>>) ELSE No)
     ELSE CASE type = T("first") -> rs[1]
            [] type = T("longest") -> SelectSeq(rs, LAMBDA r : r.e = MaxEnd(rs, at))[1]
            [] OTHER -> Yes(MaxEnd(rs, at), AllSubs(rs))
SeqM(p, at) ==
  CASE p.op = "seq_ref" -> SeqM(RuleAt("seq", p.args[1]), at)
    [] p.op = "seq_word" -> IF at > NWords THEN No ELSE LET r == TLCEval(WordM(p.ch[1], at)) IN IF r.m THEN Yes(at + 1, r.ms) ELSE No
    [] p.op = "seq_seq" -> InOrder(p.ch, 1, at, <<>>)
    [] p.op = "seq_or" -> Alternatives(p, at)
    [] p.op = "seq_marker" -> LET r == TLCEval(SeqM(p.ch[1], at))
                              IN IF r.m /\ r.e > at THEN Yes(r.e, <<TextMark(p, at, r.e - 1, r.ms)>>) ELSE r
    [] OTHER -> TryEnds(p, at, IF p.args[2] = T("longest") THEN Rev(SortUp(PhraseEnds(p.args[1], at))) ELSE SortUp(PhraseEnds(p.args[1], at)))

----------------------------------------------------------------------------
(* the machine: one attempt per word *)
MStart(in) == inp = in /\ pos = 1 /\ out = <<>> /\ pc = "start"
Usable == HasRule("seq", inp.rule) /\ inp.psg.l # ""
Refuse == pc = "start" /\ Usable = FALSE /\ pc' = "err" /\ UNCHANGED <<inp, pos, out>>
Begin == pc = "start" /\ Usable = TRUE /\ pc' = "match" /\ UNCHANGED <<inp, pos, out>>
Attempt == TLCEval(SeqM(RuleAt("seq", inp.rule), pos))
Match == /\ pc = "match" /\ pos <= NWords /\ Attempt.m /\ out' = out \o Attempt.ms /\ pos' = pos + 1 /\ UNCHANGED <<inp, pc>>
NoMatch == /\ pc = "match" /\ pos <= NWords /\ ~Attempt.m /\ pos' = pos + 1 /\ UNCHANGED <<inp, pc, out>>
End == pc = "match" /\ pos > NWords /\ pc' = "ok" /\ UNCHANGED <<inp, pos, out>>
MNext == Refuse \/ Begin \/ Match \/ NoMatch \/ End
MDone == pc \in {"ok", "err"}

\* the markers of a match, outermost first
RECURSIVE Names(_)
Names(m) == <<m.name>> \o Flatten([i \in 1..Len(m.sub) |-> Names(m.sub[i])])
----------------------------------------------------------------------------
(* C06 and C07, declaratively *)
RECURSIVE AllMarks(_)
AllMarks(ms) == UNION {{ms[i]} \cup AllMarks(ms[i].sub) : i \in 1..Len(ms)}
RECURSIVE Ops(_)
Ops(p) == {p.op} \cup UNION {Ops(p.ch[i]) : i \in 1..Len(p.ch)}
UsedOps == UNION {Ops(inp.rules[i].p) : i \in 1..Len(inp.rules)}
\* text marks cover whole words, inside the sentence
MarksCoverWords == \A m \in AllMarks(out) : m.kind = "text" =>
  \E a, b \in 1..NWords : a <= b /\ m.s = WordStart(a) /\ m.e = WordEnd(b)
\* without phrases (whose conditions may reach beyond them), sub-marks lie inside
MarksNested == "phrase" \notin UsedOps =>
  \A m \in AllMarks(out) : m.kind = "text" => \A i \in 1..Len(m.sub) : m.sub[i].kind = "text" => m.s <= m.sub[i].s /\ m.sub[i].e <= m.e
\* math marks are elements below a formula word
MathMarksInFormulas == \A m \in AllMarks(out) : m.kind = "math" =>
  \E w \in 1..NWords : LET f == Formula(Words[w].node) IN IF f = 0 THEN FALSE ELSE (m.node = f \/ Below(Tr, f, m.node)) /\ Tr[m.node].k = "e"
\* math marks contain no text marks, and lie at or below the marked node
MathMarksNested == \A m \in AllMarks(out) : m.kind = "math" =>
  \A i \in 1..Len(m.sub) : m.sub[i].kind = "math" /\ (m.sub[i].node = m.node \/ Below(Tr, m.node, m.sub[i].node))
=============================================================================
