-------------------------- MODULE PathWordsTrace ---------------------------
(* A path is converted by path_to_words and through the C interface.         *)
EXTENDS PathWords, TraceIO
VARIABLES k, verdict
tvars == <<pwvars, k, verdict>>
Obs == Trace[k].obs
TInit == k \in 1..NCases /\ verdict = "run" /\ PWStart(Trace[k].in)
\* a path that is no valid UTF-8 can only be given through the C interface
DirectOk == IF inp.kind = "notext" THEN Obs.direct = "none" ELSE Obs.direct = "ok" /\ Obs.words = out
Ok == Obs.status = "ok" /\ DirectOk /\ Obs.c = "ok" /\ Obs.cwords = out
Judge == IF pc' # "done" THEN verdict' = "run"
         ELSE IF Ok THEN verdict' = "accept"
         ELSE verdict' = "reject" /\ Reject(k, [out |-> out])
TNext == \/ verdict = "run" /\ PWNext /\ UNCHANGED k /\ Judge
         \/ verdict # "run" /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
