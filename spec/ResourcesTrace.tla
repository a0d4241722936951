--------------------------- MODULE ResourcesTrace ---------------------------
(* Observation: the list, as each of several threads of one process sees it. *)
EXTENDS Resources, TraceIO
VARIABLES k, judged
tvars == <<rsvars, k, judged>>
Obs == Trace[k].obs
TInit == k \in 1..NCases /\ judged = "run" /\ RSStart(Trace[k].in)
Ok == Obs.status = "ok" /\ \A i \in 1..Len(Obs.lists) : SameBag(Obs.lists[i], listed) /\ Obs.lists[i] = Obs.lists[1]
Judge == IF pc' # "done" THEN judged' = "run"
         ELSE IF Ok THEN judged' = "accept"
         ELSE judged' = "reject" /\ Reject(k, [listed |-> listed])
TNext == \/ judged = "run" /\ RSNext /\ UNCHANGED k /\ Judge
         \/ judged # "run" /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
