---------------------------- MODULE HeadingTrace ----------------------------
EXTENDS HeadingRun, TraceIO
VARIABLES k, verdict
tvars == <<hvars, k, verdict>>
Obs == Trace[k].obs
TInit == k \in 1..NCases /\ verdict = "run" /\ HStart(Trace[k].in)
Ok == Obs.status = "ok" /\ Obs.res = res'
Judge == IF pc' # "done" THEN verdict' = "run"
         ELSE IF Ok THEN verdict' = "accept"
         ELSE verdict' = "reject" /\ Reject(k, [res |-> res'])
TNext == \/ verdict = "run" /\ HNext /\ UNCHANGED k /\ Judge
         \/ verdict # "run" /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
