---------------------------- MODULE LexemesTrace ----------------------------
EXTENDS Lexemes, TraceIO
VARIABLES k, verdict
tvars == <<inp, ai, pos, cur, toks, raw, parts, res, k, verdict>>
Obs == Trace[k].obs
TInit == k \in 1..NCases /\ verdict = "run" /\ LInit({Trace[k].in})
Judge == IF res' = <<>> THEN verdict' = "run"
         ELSE IF Obs.status = "ok" /\ Obs.res = res' THEN verdict' = "accept"
         ELSE verdict' = "reject" /\ Reject(k, [res |-> res'])
TNext == \/ verdict = "run" /\ LNext /\ Judge /\ UNCHANGED k
         \/ verdict # "run" /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
