--------------------------- MODULE WordNormTrace ---------------------------
EXTENDS WordNormRun, TraceIO
VARIABLES k, verdict
tvars == <<nvars, k, verdict>>
Obs == Trace[k].obs
TInit == k \in 1..NCases /\ verdict = "run" /\ NStart(Trace[k].in)
Ok == /\ Obs.status = "ok" /\ Obs.text = CharsOf(shown) /\ Obs.words = out /\ Obs.heading = heading'
Judge == IF pc' # "done" THEN verdict' = "run"
         ELSE IF Ok THEN verdict' = "accept"
         ELSE verdict' = "reject" /\ Reject(k, [text |-> CharsOf(shown), words |-> out, heading |-> heading'])
TNext == \/ verdict = "run" /\ NNext /\ UNCHANGED k /\ Judge
         \/ verdict # "run" /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
