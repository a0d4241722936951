------------------------------- MODULE Ngrams -------------------------------
(* src/ngrams.rs: the word dictionary and the (anchored) n-gram table.       *)
(*                                                                           *)
(* `inp` is a script of operations on one Dictionary and one Ngrams table;   *)
(* the machine executes it operation by operation, an anchored addition word *)
(* by word (one action per kind of word, as in add_anchored_content).  The   *)
(* table after each operation is appended to `out`.                          *)
(*                                                                           *)
(* The properties are stated independently of the machine, over positions:   *)
(* C01 Participates / ExpectedGrams, C02 the history definitions.            *)
EXTENDS Chars, FiniteSets, TLC

VARIABLES
  inp,    \* [W, n, anchor, ops]: window, length, anchor word, sequence of operations
  opi,    \* index of the operation under way
  wi,     \* index of the next word of the content under way (0: not inside an addition)
  cw,     \* the words of the content under way
  win,    \* the last words that are not justified yet, at most W
  buf,    \* the words justified so far, in one continuous sequence
  since,  \* words since the last anchor; side = "R" while still justified from the left
  side,
  counts, \* the n-gram table: function from phrases to counts
  dict,   \* the dictionary: function from words to indexes
  out     \* table contents after each finished operation

nvars == <<inp, opi, wi, cw, win, buf, since, side, counts, dict, out>>

----------------------------------------------------------------------------
(* words of a content: ASCII-whitespace separated, first character alphanumeric *)
WordsOf(c) == SelectSeq(SplitAsciiWs(c), LAMBDA w : IsAlnum(w[1]))
Phrase(ws) == JoinWith(ws, <<32>>)

EmptyFn == [x \in {} |-> 0]
Bump(f, k) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = @ + 1] ELSE f @@ (k :> 1)
RECURSIVE Record(_, _, _, _)
\* record every contiguous sequence of n words of ws, starting at position k
Record(f, ws, n, k) ==
  IF k + n - 1 > Len(ws) THEN f
  ELSE Record(Bump(f, Phrase(SubSeq(ws, k, k + n - 1))), ws, n, k + 1)

Op == inp.ops[opi]
Content == cw

NInit(inputs) ==
  /\ inp \in inputs
  /\ opi = 1 /\ wi = 0 /\ cw = <<>> /\ win = <<>> /\ buf = <<>> /\ since = 0 /\ side = "L"
  /\ counts = EmptyFn /\ dict = EmptyFn /\ out = <<>>

Finish(cs, d) ==  \* end of an operation
  /\ counts' = cs /\ dict' = d
  /\ out' = Append(out, [counts |-> cs, dict |-> d])
  /\ opi' = opi + 1 /\ wi' = 0 /\ cw' = <<>> /\ win' = <<>> /\ buf' = <<>> /\ since' = 0 /\ side' = "L"
  /\ UNCHANGED inp

Running == opi <= Len(inp.ops)

DictInsert ==
  /\ Running /\ Op.op = "dict"
  /\ Finish(counts, IF Op.c \in DOMAIN dict THEN dict
                    ELSE dict @@ (Op.c :> Cardinality(DOMAIN dict) + 1))
GramInsert ==
  /\ Running /\ Op.op = "insert"
  /\ Finish(Bump(counts, Op.c), dict)
\* numbered words, each several times
RECURSIVE ShowNumber(_), ToNumber(_)
ShowNumber(j) == IF j < 10 THEN <<48 + j>> ELSE Append(ShowNumber(j \div 10), 48 + (j % 10))
ToNumber(t) == IF t = <<>> THEN 0 ELSE 10 * ToNumber(SubSeq(t, 1, Len(t) - 1)) + t[Len(t)] - 48
Numbered(op) == {op.c \o ShowNumber(j) : j \in 1..op.to}
RECURSIVE EnterAll(_, _, _)
EnterAll(d, op, j) ==
  IF j > op.to THEN d
  ELSE LET w == op.c \o ShowNumber(j)
       IN EnterAll(IF w \in DOMAIN d THEN d ELSE d @@ (w :> Cardinality(DOMAIN d) + 1), op, j + 1)
ManyWords ==
  /\ Running /\ Op.op = "dicts"
  /\ Finish(counts, IF DOMAIN dict # {} THEN EnterAll(dict, Op, 1)
                    ELSE [x \in Numbered(Op) |-> ToNumber(SubSeq(x, Len(Op.c) + 1, Len(x)))])
ManyInserts ==
  /\ Running /\ Op.op = "inserts"
  /\ Finish(LET new == Numbered(Op) IN [x \in DOMAIN counts \cup new |->
              (IF x \in DOMAIN counts THEN counts[x] ELSE 0) + (IF x \in new THEN Op.rep ELSE 0)], dict)
\* a sequence of words repeated: every turn of it is met once per repetition, unless it does not fit behind the end
RECURSIVE AddAll(_, _, _, _)
Turn(ws, j, n) == Phrase([i \in 1..n |-> ws[((j + i - 2) % Len(ws)) + 1]])
AddAll(f, ws, n, j) ==
  IF j > Len(ws) THEN f
  ELSE LET total == Len(ws) * Op.rep
           starts == IF total < n THEN 0 ELSE total - n + 1       \* starts 1..starts, of which j, j + Len(ws), ...
           times == IF starts < j THEN 0 ELSE (starts - j) \div Len(ws) + 1
           key == Turn(ws, j, n)
       IN AddAll(IF times = 0 THEN f ELSE IF key \in DOMAIN f THEN [f EXCEPT ![key] = @ + times] ELSE f @@ (key :> times), ws, n, j + 1)
RecordMany ==
  /\ Running /\ Op.op = "records"
  /\ Finish(AddAll(counts, Op.ws, inp.n, 1), dict)
RecordWords ==
  /\ Running /\ Op.op = "record"
  /\ Finish(Record(counts, Op.ws, inp.n, 1), dict)

StartAdd ==
  /\ Running /\ Op.op = "add" /\ wi = 0
  /\ wi' = 1 /\ cw' = WordsOf(Op.c)
  /\ UNCHANGED <<inp, opi, win, buf, since, side, counts, dict, out>>
InAdd == Running /\ Op.op = "add" /\ wi > 0 /\ wi <= Len(Content)
\* an anchor justifies the window and itself
AnchorWord ==
  /\ InAdd /\ Content[wi] = inp.anchor
  /\ since' = 0 /\ side' = "R" /\ win' = <<>>
  /\ buf' = Append(buf \o win, Content[wi])
  /\ wi' = wi + 1
  /\ UNCHANGED <<inp, opi, cw, counts, dict, out>>
NonAnchor == InAdd /\ Content[wi] # inp.anchor
InRight == side = "R" /\ since + 1 <= inp.W
\* a word within W to the right of an anchor
JustifiedWord ==
  /\ NonAnchor /\ InRight
  /\ since' = since + 1 /\ side' = "R"
  /\ buf' = Append(buf, Content[wi]) /\ wi' = wi + 1
  /\ UNCHANGED <<inp, opi, cw, win, counts, dict, out>>
\* a word that needs an anchor to its right, while the window still has room
PendingWord ==
  /\ NonAnchor /\ ~InRight /\ Len(win) < inp.W
  /\ since' = since + 1 /\ side' = "L"
  /\ win' = Append(win, Content[wi]) /\ wi' = wi + 1
  /\ UNCHANGED <<inp, opi, cw, buf, counts, dict, out>>
\* the oldest pending word falls out of the window, which ends the current sequence
OverflowWord ==
  /\ NonAnchor /\ ~InRight /\ Len(win) = inp.W
  /\ since' = since + 1 /\ side' = "L"
  /\ counts' = Record(counts, buf, inp.n, 1) /\ buf' = <<>>
  /\ win' = Append(Tail(win), Content[wi]) /\ wi' = wi + 1
  /\ UNCHANGED <<inp, opi, cw, dict, out>>
EndAdd ==
  /\ Running /\ Op.op = "add" /\ wi > Len(Content)
  /\ Finish(Record(counts, buf, inp.n, 1), dict)

NNext == DictInsert \/ ManyWords \/ ManyInserts \/ RecordMany \/ GramInsert \/ RecordWords \/ StartAdd \/ AnchorWord
         \/ JustifiedWord \/ PendingWord \/ OverflowWord \/ EndAdd
NDone == ~Running

----------------------------------------------------------------------------
(* C01, stated over positions *)
Dist(i, j) == IF i < j THEN j - i ELSE i - j
Participates(ws, a, W, i) == \E j \in 1..Len(ws) : ws[j] = a /\ Dist(i, j) <= W
\* positions at which an n-gram of participating words starts
GramStarts(ws, a, W, n) ==
  LET P == [i \in 1..Len(ws) |-> Participates(ws, a, W, i)]
  IN {k \in 1..(IF Len(ws) < n THEN 0 ELSE Len(ws) - n + 1) : \A d \in 0..(n-1) : P[k + d]}
Max0(a, b) == IF a > b THEN a ELSE b
\* how often one operation of the script adds the phrase p
OpContribution(op, p) ==
  CASE op.op = "insert" -> IF op.c = p THEN 1 ELSE 0
    [] op.op = "record" ->
         Cardinality({k \in 1..(IF Len(op.ws) < inp.n THEN 0 ELSE Len(op.ws) - inp.n + 1) :
                        Phrase(SubSeq(op.ws, k, k + inp.n - 1)) = p})
    [] op.op = "records" ->
         LET ws == [i \in 1..(Len(op.ws) * op.rep) |-> op.ws[((i - 1) % Len(op.ws)) + 1]]
         IN Cardinality({k \in 1..(IF Len(ws) < inp.n THEN 0 ELSE Len(ws) - inp.n + 1) :
                        Phrase(SubSeq(ws, k, k + inp.n - 1)) = p})
    [] op.op = "inserts" -> IF p \in Numbered(op) THEN op.rep ELSE 0
    [] op.op = "add" ->
         LET ws == WordsOf(op.c)
         IN Cardinality({k \in GramStarts(ws, inp.anchor, inp.W, inp.n) :
                           Phrase(SubSeq(ws, k, k + inp.n - 1)) = p})
    [] OTHER -> 0
RECURSIVE Total(_, _)
Total(p, k) == IF k = 0 THEN 0 ELSE OpContribution(inp.ops[k], p) + Total(p, k - 1)
\* every phrase any operation could mention
AllPhrases ==
  UNION { LET op == inp.ops[k] IN
          CASE op.op = "insert" -> {op.c}
            [] op.op \in {"record", "add"} ->
                 LET ws == IF op.op = "record" THEN op.ws ELSE WordsOf(op.c)
                 IN {Phrase(SubSeq(ws, i, i + inp.n - 1)) : i \in 1..(IF Len(ws) < inp.n THEN 0 ELSE Len(ws) - inp.n + 1)}
            [] op.op = "inserts" -> Numbered(op)
            [] op.op = "records" -> {Turn(op.ws, j, inp.n) : j \in 1..Len(op.ws)}
            [] OTHER -> {}
          : k \in 1..Len(inp.ops) }

BetweenOps == wi = 0
\* C01 + C02: between operations the table holds exactly the counts of the history
CountsAreHistory ==
  BetweenOps =>
    /\ DOMAIN counts = {p \in AllPhrases : Total(p, opi - 1) > 0}
    /\ \A p \in DOMAIN counts : counts[p] = Total(p, opi - 1)
\* C01: the window never holds a word that is already justified, and never exceeds W
WindowBounded == Len(win) <= inp.W /\ (side = "R" => win = <<>>)

(* C02, the dictionary: indexes are 1..count, in order of first insertion *)
RECURSIVE FirstSeen(_)
FirstSeen(k) ==  \* the distinct dictionary words among the first k operations, in order
  IF k = 0 THEN <<>>
  ELSE LET prev == FirstSeen(k - 1)
           op == inp.ops[k]
       IN IF op.op = "dicts"
          THEN prev \o SelectSeq([j \in 1..op.to |-> op.c \o ShowNumber(j)], LAMBDA w : \A i \in 1..Len(prev) : prev[i] # w)
          ELSE IF op.op = "dict" /\ \A i \in 1..Len(prev) : prev[i] # op.c THEN Append(prev, op.c) ELSE prev
DictIsFirstSeen ==
  BetweenOps =>
    LET fs == FirstSeen(opi - 1)
    IN /\ DOMAIN dict = {fs[i] : i \in 1..Len(fs)}
       /\ \A i \in 1..Len(fs) : dict[fs[i]] = i
\* an index, once given, never changes; counts never decrease
Permanent == [][ /\ \A w \in DOMAIN dict : w \in DOMAIN dict' /\ dict'[w] = dict[w]
                 /\ \A p \in DOMAIN counts : p \in DOMAIN counts' /\ counts'[p] >= counts[p] ]_nvars
=============================================================================
