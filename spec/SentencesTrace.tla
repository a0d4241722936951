--------------------------- MODULE SentencesTrace ---------------------------
EXTENDS Sentences, TraceIO
VARIABLES k, verdict
tvars == <<inp, pos, start, lw, raw, pc, k, verdict>>
Obs == Trace[k].obs
TInit == k \in 1..NCases /\ verdict = "run" /\ SInit({Trace[k].in})
Matches(rs) ==
  /\ Obs.status = "ok" /\ Len(Obs.ranges) = Len(rs)
  /\ \A i \in 1..Len(rs) : /\ Obs.ranges[i].s = rs[i][1] /\ Obs.ranges[i].e = rs[i][2]
                           /\ Obs.ranges[i].text = SubSeq(Txt, rs[i][1] + 1, rs[i][2])
Judge == IF pc' # "done" THEN verdict' = "run"
         ELSE LET rs == SentencesOf(raw')
              IN IF Matches(rs) THEN verdict' = "accept"
                 ELSE verdict' = "reject" /\ Reject(k, [ranges |-> rs, reasons |-> [i \in 1..Len(raw') |-> raw'[i][3]]])
TNext == \/ verdict = "run" /\ SNext /\ Judge /\ UNCHANGED k
         \/ verdict # "run" /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
