------------------------------- MODULE Reader -------------------------------
(* The reading interfaces (src/data.rs, src/parallel_data.rs).  A document   *)
(* is read as a whole, then paragraph by paragraph, heading by heading and   *)
(* through a filter; each unit gives sentences, each sentence gives words.   *)
(* inp: [kind: doc | rootless, tree, whole: llamapun | raw, tags, opts]      *)
(*   whole: how the corpus has whole documents normalized ("raw": not)       *)
EXTENDS Reading
VARIABLES inp, unit, at, words, out, pc
rdvars == <<rvars, inp, unit, at, words, out, pc>>
RDStart(x) == inp = x /\ unit = 0 /\ at = 1 /\ words = <<>> /\ out = <<>> /\ pc = "next" /\ ReadIdle
Unit(from, node) == [from |-> from, node |-> node]
UnitsOf(from, nodes) == [m \in 1..Len(nodes) |-> Unit(from, nodes[m])]
Units == IF inp.kind # "doc" THEN <<>>
         ELSE <<Unit("whole", 1)>> \o UnitsOf("paragraph", Paragraphs(inp.tree)) \o UnitsOf("heading", Headings(inp.tree))
              \o UnitsOf("filter", Filtered(inp.tree, "p"))
Verbatim(tree) == Flatten([i \in 1..Len(tree) |-> IF tree[i].k = "t" THEN tree[i].t ELSE <<>>])
TextOf(x) == IF x.from = "whole" /\ inp.whole = "raw" THEN Verbatim(inp.tree) ELSE CharsOf(Shown(inp.tree, x.node))
UnitText == stext.text
Open == /\ pc = "next" /\ unit < Len(Units) /\ unit' = unit + 1 /\ ReadText(TextOf(Units[unit + 1]))
        /\ words' = <<>> /\ at' = 1 /\ pc' = "split" /\ UNCHANGED <<inp, out>>
Split == pc = "split" /\ ~ReadOver /\ ReadOn /\ UNCHANGED <<inp, unit, at, words, out, pc>>
SplitOver == pc = "split" /\ ReadOver /\ pc' = "read" /\ UNCHANGED <<rvars, inp, unit, at, words, out>>
With(t, rs) == [m \in 1..Len(rs) |-> <<rs[m][1], rs[m][2], Piece(t, rs[m])>>]
NonEmpty(rs) == SelectSeq(rs, LAMBDA r : r[1] < r[2])
ReadSentence ==
  /\ pc = "read" /\ at <= Len(SentencesRead)
  /\ LET r == SentencesRead[at]
         tagged == TaggedAt(UnitText, r)
     IN words' = Append(words, TLCEval([words |-> With(UnitText, NonEmpty(WordsAt(UnitText, r))),
                                        tokens |-> With(UnitText, NonEmpty(TokensAt(UnitText, r))),
                                        tagged |-> With(UnitText, tagged),
                                        tags |-> [m \in 1..Len(tagged) |-> TagOf(inp.tags, m)]]))
  /\ at' = at + 1 /\ UNCHANGED <<rvars, inp, unit, out, pc>>
Close == /\ pc = "read" /\ at > Len(SentencesRead) /\ pc' = "next"
         /\ LET all == <<0, Len(UnitText)>>
            IN out' = Append(out, TLCEval([from |-> Units[unit].from, text |-> UnitText, sentences |-> With(UnitText, SentencesRead), read |-> words,
                                           words |-> With(UnitText, NonEmpty(WordsAt(UnitText, all))),
                                           tokens |-> With(UnitText, NonEmpty(TokensAt(UnitText, all)))]))
         /\ UNCHANGED <<rvars, inp, unit, at, words>>
Over == pc = "next" /\ unit = Len(Units) /\ pc' = "done" /\ UNCHANGED <<rvars, inp, unit, at, words, out>>
RDNext == Open \/ Split \/ SplitOver \/ ReadSentence \/ Close \/ Over
----------------------------------------------------------------------------
(* C25 *)
InOrder(rs) == \A m \in 1..Len(rs) : rs[m][1] < rs[m][2] /\ (m > 1 => rs[m - 1][2] <= rs[m][1])
Inside(rs, r) == \A m \in 1..Len(rs) : r[1] <= rs[m][1] /\ rs[m][2] <= r[2]
WordsInSentences ==
  \A u \in 1..Len(out) : LET o == out[u] IN
    /\ InOrder(o.sentences) /\ Inside(o.sentences, <<0, Len(o.text)>>) /\ Len(o.read) = Len(o.sentences)
    /\ \A s \in 1..Len(o.read) : \A rs \in {o.read[s].words, o.read[s].tokens, o.read[s].tagged} : InOrder(rs) /\ Inside(rs, o.sentences[s])
\* every word of the text starting in a sentence is one of its words unless a sentence ends inside it
WordsOfWhole ==
  \A u \in 1..Len(out) : LET o == out[u] IN
    \A w \in 1..Len(o.words) : \A s \in 1..Len(o.sentences) :
      (o.sentences[s][1] <= o.words[w][1] /\ o.words[w][2] <= o.sentences[s][2]) =>
        \E x \in 1..Len(o.read[s].words) : o.read[s].words[x][1] <= o.words[w][1] /\ o.words[w][2] <= o.read[s].words[x][2]
\* tagged words and tokens of a sentence both cover exactly what is not whitespace
Covered(rs, r, t, blank(_)) == \A i \in (r[1] + 1)..r[2] : ~blank(t[i]) <=> \E m \in 1..Len(rs) : rs[m][1] < i /\ i <= rs[m][2]
TaggedCover ==
  \A u \in 1..Len(out) : \A s \in 1..Len(out[u].read) :
    Covered(out[u].read[s].tagged, out[u].sentences[s], out[u].text, IsWs) /\ Covered(out[u].read[s].tokens, out[u].sentences[s], out[u].text, IsWs)
=============================================================================
