--------------------------- MODULE StopwordsTrace ---------------------------
EXTENDS Stopwords, TraceIO
VARIABLES k, verdict
tvars == <<inp, pos, loaded, ans, k, verdict>>
Obs == Trace[k].obs
TInit == k \in 1..NCases /\ verdict = "run" /\ SInit({Trace[k].in})
AnswerOk(o, a, op) ==
  IF op.op = "load" THEN /\ {o.list[i] : i \in 1..Len(o.list)} = a.set
                         /\ Len(o.list) = Cardinality(a.set)
  ELSE o.yes = a.yes
Judge == IF Obs.status = "ok" /\ Len(Obs.ans) >= pos /\ AnswerOk(Obs.ans[pos], ans'[pos], Op)
         THEN verdict' = "run"
         ELSE verdict' = "reject" /\ Reject(k, [op |-> Op, yes |-> ans'[pos].yes,
                 missing |-> IF Obs.status = "ok" /\ Op.op = "load" THEN Stopwords \ {Obs.ans[pos].list[i] : i \in 1..Len(Obs.ans[pos].list)} ELSE {},
                 extra |-> IF Obs.status = "ok" /\ Op.op = "load" THEN {Obs.ans[pos].list[i] : i \in 1..Len(Obs.ans[pos].list)} \ Stopwords ELSE {}])
TNext == \/ verdict = "run" /\ SNext /\ Judge /\ UNCHANGED k
         \/ (SDone \/ verdict = "reject") /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
