----------------------------- MODULE WordsTrace -----------------------------
(* the recorded range is [a, b) of a longer text; returned ranges are        *)
(* relative to the whole text; empty ranges are not tokens                   *)
EXTENDS Words, TraceIO
VARIABLES k, verdict
tvars == <<inp, st, en, flag, res, done, k, verdict>>
Obs == Trace[k].obs
In == Trace[k].in
TInit == /\ k \in 1..NCases /\ verdict = "run"
         /\ WInit({[call |-> In.call, text |-> SubSeq(In.text, In.a + 1, In.b)]})
NonEmpty(l) == SelectSeq(l, LAMBDA r : r.s # r.e)
\* a long text is a unit that ends in a blank, repeated: its words repeat (and are observed once)
Repeats == "times" \in DOMAIN In => Obs.counts = <<In.times>>
Matches == /\ Obs.status = "ok" /\ Repeats
           /\ LET l == NonEmpty(Obs.ranges)
              IN /\ Len(l) = Len(res')
                 /\ \A i \in 1..Len(l) :
                      /\ l[i].s = In.a + res'[i][1] /\ l[i].e = In.a + res'[i][2]
                      /\ l[i].text = SubSeq(Txt, res'[i][1] + 1, res'[i][2])
Judge == IF ~done' THEN verdict' = "run"
         ELSE IF Matches THEN verdict' = "accept"
         ELSE verdict' = "reject" /\ Reject(k, [i \in 1..Len(res') |-> <<In.a + res'[i][1], In.a + res'[i][2]>>])
TNext == \/ verdict = "run" /\ WNext /\ Judge /\ UNCHANGED k
         \/ verdict # "run" /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
