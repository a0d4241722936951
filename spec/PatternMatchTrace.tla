--------------------------- MODULE PatternMatchTrace ---------------------------
EXTENDS PatternMatch, TraceIO
VARIABLES k, verdict
tvars == <<inp, pos, out, pc, k, verdict>>
Obs == Trace[k].obs
TInit == k \in 1..NCases /\ verdict = "run" /\ MStart(Trace[k].in)
Lists == [i \in 1..Len(out) |-> Names(out[i])]
Agrees == /\ Obs.status = "ok" /\ Obs.err = (pc' = "err")
          /\ (pc' = "ok" => Obs.matches = out' /\ Obs.lists = Lists')
Judge == IF pc' \notin {"ok", "err"} THEN verdict' = "run"
         ELSE IF Agrees = TRUE THEN verdict' = "accept"
         ELSE verdict' = "reject" /\ Reject(k, [res |-> pc', matches |-> out'])
TNext == \/ verdict = "run" /\ MNext /\ Judge /\ UNCHANGED k
         \/ verdict # "run" /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
