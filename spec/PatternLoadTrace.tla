--------------------------- MODULE PatternLoadTrace ---------------------------
EXTENDS PatternLoad, TraceIO
VARIABLES k, verdict
tvars == <<inp, todo, defs, used, meta, pc, k, verdict>>
Obs == Trace[k].obs
TInit == k \in 1..NCases /\ verdict = "run" /\ LStart(Trace[k].in)
SetOf(s) == {s[m] : m \in 1..Len(s)}
Agrees == /\ Obs.status = "ok" /\ Obs.loaded = (pc' = "ok")
          /\ (pc' = "ok" => /\ Obs.summary = FileSummary' /\ Len(Obs.rules) = Len(defs') /\ SetOf(Obs.rules) = SetOf(defs'))
Judge == IF pc' \notin {"ok", "err"} THEN verdict' = "run"
         ELSE IF Agrees = TRUE THEN verdict' = "accept"
         ELSE verdict' = "reject" /\ Reject(k, [res |-> pc', rules |-> defs', summary |-> FileSummary'])
TNext == \/ verdict = "run" /\ LNext /\ Judge /\ UNCHANGED k
         \/ verdict # "run" /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
