----------------------------- MODULE C14nTrace -----------------------------
EXTENDS C14n, TraceIO
VARIABLES k, verdict
tvars == <<cvars, k, verdict>>
Obs == Trace[k].obs
Nodes(n, x) == IF n <= 5 THEN 1..n ELSE {1} \cup {i \in 1..n : i % 4 = x % 4}
TInit == k \in 1..NCases /\ verdict = "run" /\ \E f \in Nodes(Len(Trace[k].in.tree), k) : CStart(Trace[k].in, f)
\* final sigma: see PlaintextTrace
Fold(t) == IF Par.lower THEN [j \in 1..Len(t) |-> IF t[j] = 962 THEN 963 ELSE t[j]] ELSE t
Ok == /\ Obs.status = "ok"
      /\ Fold(Obs.forms[from].form) = Fold(form)
      \* the digest is that of the form, also when computed together with others, at the same time
      /\ Obs.forms[from].hash = Obs.forms[from].md5
      /\ from = 1 => Obs.whole.form = Obs.forms[1].form /\ Obs.whole.hash = Obs.forms[1].hash /\ Obs.concurrent
Judge == IF pc' # "written" THEN verdict' = "run"
         ELSE IF Ok' THEN verdict' = "accept"
         ELSE verdict' = "reject" /\ Reject(k, [node |-> from, form |-> form])
TNext == \/ verdict = "run" /\ CNext /\ UNCHANGED k /\ Judge
         \/ verdict # "run" /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
