----------------------------- MODULE RangeTrace -----------------------------
EXTENDS Range, TraceIO
VARIABLES k, verdict
tvars == <<inp, opi, rs, re, pc, ts, te, lo, hi, bs, out, k, verdict>>
Obs == Trace[k].obs
TInit == k \in 1..NCases /\ verdict = "run" /\ RInit({Trace[k].in})
Finished == Len(out') > Len(out)
\* bounds, text, truncated text and emptiness of the returned range
\* (of a long range the ends are observed)
Ends == 60
StepOk(o) ==
  /\ o.s = rs' /\ o.e = re' /\ o.empty = (rs' = re')
  /\ IF o.count <= 6 * Ends
     THEN LET t == Sub(rs', re') IN o.text = t /\ o.trunc = TrimEnd(t)
     ELSE /\ o.count = re' - rs' /\ o.text = Sub(rs', rs' + Ends) \o Sub(re' - Ends, re')
          /\ Len(o.trunc) = Ends /\ \E n \in 0..Ends : o.trunc = Sub(re' - n - Ends, re' - n) /\ (\A i \in (re' - n + 1)..re' : IsWs(Ch(i))) /\ ~IsWs(Ch(re' - n))
Judge == IF ~Finished THEN verdict' = "run"
         ELSE IF Obs.status = "ok" /\ StepOk(Obs.steps[Len(out')]) THEN verdict' = "run"
         ELSE verdict' = "reject" /\ Reject(k, [op |-> opi, s |-> rs', e |-> re'])
TNext == \/ verdict = "run" /\ RNext /\ Judge /\ UNCHANGED k
         \/ (RDone \/ verdict = "reject") /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
