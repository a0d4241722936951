---------------------------- MODULE FromStrTrace ----------------------------
EXTENDS FromStr, TraceIO
VARIABLES k, verdict
tvars == <<fvars, k, verdict>>
Obs == Trace[k].obs
TInit == k \in 1..NCases /\ verdict = "run" /\ FStart(Trace[k].in)
Fold(t) == IF Par.lower THEN [j \in 1..Len(t) |-> IF t[j] = 962 THEN 963 ELSE t[j]] ELSE t
Ok == /\ Obs.status = "ok" /\ Obs.tree = Tr /\ Fold(Obs.text) = Fold(Text) /\ Fold(Obs.later) = Fold(Text)
      /\ Obs.whole = <<0, Len(out)>>
Judge == IF pc' # "done" THEN verdict' = "run"
         ELSE IF Ok' THEN verdict' = "accept"
         ELSE verdict' = "reject" /\ Reject(k, [text |-> Text, tree |-> Tr])
TNext == \/ verdict = "run" /\ FNext /\ UNCHANGED k /\ Judge
         \/ verdict # "run" /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
