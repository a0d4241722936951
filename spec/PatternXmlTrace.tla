--------------------------- MODULE PatternXmlTrace ---------------------------
EXTENDS PatternXml, TraceIO
VARIABLES k, verdict
tvars == <<inp, pos, acc, res, k, verdict>>
Obs == Trace[k].obs
TInit == k \in 1..NCases /\ verdict = "run" /\ PInit({Trace[k].in})
Same(o, r) == o.kind = r.kind /\ (r.kind = "ok" => o.v = r.v)
Judge == IF res' = None THEN verdict' = "run"
         ELSE IF Obs.status = "ok" /\ Same(Obs.res, res') THEN verdict' = "accept"
         ELSE verdict' = "reject" /\ Reject(k, res')
TNext == \/ verdict = "run" /\ PNext /\ Judge /\ UNCHANGED k
         \/ verdict # "run" /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
