----------------------------- MODULE Stopwords -----------------------------
(* src/stopwords.rs: the stopword set.  `load` may be called any number of   *)
(* times from any thread; each call returns the fixed set, and asking a      *)
(* loaded set for a word is a membership test.  A script is a sequence of    *)
(* loads (each by some thread) and queries on earlier loads.                 *)
EXTENDS Chars, StopwordTable, FiniteSets, TLC
VARIABLES inp,   \* script: <<[op, thread, word]>>
          pos,   \* next operation
          loaded,\* thread -> the set it loaded last
          ans    \* answers so far: a set for a load, a boolean for a query
svars == <<inp, pos, loaded, ans>>

SInit(inputs) == inp \in inputs /\ pos = 1 /\ loaded = [t \in {} |-> {}] /\ ans = <<>>
Running == pos <= Len(inp.ops)
Op == inp.ops[pos]
Load ==
  /\ Running /\ Op.op = "load"
  /\ loaded' = [t \in DOMAIN loaded \cup {Op.thread} |-> IF t = Op.thread THEN Stopwords ELSE loaded[t]]
  /\ ans' = Append(ans, [set |-> Stopwords, yes |-> TRUE])
  /\ pos' = pos + 1 /\ UNCHANGED inp
Query ==
  /\ Running /\ Op.op = "query" /\ Op.thread \in DOMAIN loaded
  /\ ans' = Append(ans, [set |-> {}, yes |-> Op.word \in loaded[Op.thread]])
  /\ pos' = pos + 1 /\ UNCHANGED <<inp, loaded>>
SNext == Load \/ Query
SDone == ~Running
----------------------------------------------------------------------------
(* C23 *)
IsLowerWord(w) ==
  /\ Len(w) > 0
  /\ \A i \in 1..Len(w) : LET c == CodeOf[SubSeq(w, i, i)] IN IsAsciiLower(c) \/ c \in {39, 46, 45}
  /\ \E i \in 1..Len(w) : IsAsciiLower(CodeOf[SubSeq(w, i, i)])
ListWellFormed == /\ \A i \in 1..Len(StopwordList) : IsLowerWord(StopwordList[i])
                  /\ Cardinality(Stopwords) = Len(StopwordList)
ASSUME ListWellFormed
\* every thread that loaded holds the same set, whatever happened before
SameForAll == \A t \in DOMAIN loaded : loaded[t] = Stopwords
=============================================================================
