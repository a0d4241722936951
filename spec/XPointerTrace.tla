---------------------------- MODULE XPointerTrace ----------------------------
(* Each case: a document and the ranges that were written and resolved.       *)
EXTENDS XPointer, TraceIO
VARIABLES k, verdict
tvars == <<xvars, k, verdict>>
Obs == Trace[k].obs
TInit == k \in 1..NCases /\ verdict = "run" /\ XStart(Trace[k].in)
RangeOk(x) == \/ x.s >= x.e \/ x.e > Len(out) \/ Exempt(x.s, x.e)
              \/ x.status = "ok" /\ <<x.rs, x.re>> = ExpectedRange(x.s, x.e)
Bad == {j \in 1..Len(Obs.ranges) : ~RangeOk(Obs.ranges[j])}
Ok == Obs.status = "ok" /\ Obs.len = Len(out) /\ Bad = {}
Judge == IF pc' # "done" THEN verdict' = "run"
         ELSE IF Ok' THEN verdict' = "accept"
         ELSE verdict' = "reject" /\ Reject(k, IF Obs.status # "ok" \/ Bad' = {} THEN [len |-> Len(out)]
                                               ELSE [range |-> Obs.ranges[CHOOSE j \in Bad' : TRUE],
                                                     expected |-> LET x == Obs.ranges[CHOOSE j \in Bad' : TRUE] IN ExpectedRange(x.s, x.e)])
TNext == \/ verdict = "run" /\ Building /\ UNCHANGED k /\ Judge
         \/ verdict # "run" /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
