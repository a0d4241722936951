--------------------------- MODULE LanguageTrace ---------------------------
EXTENDS Language, TraceIO
VARIABLES k, judged
tvars == <<lgvars, k, judged>>
Obs == Trace[k].obs
TInit == k \in 1..NCases /\ judged = "run" /\ LGStart(Trace[k].in)
\* whatever is detected, it is the text without its placeholders
SeenOk == \A i \in 1..Len(Obs.seen) : SplitWs(Obs.seen[i]) = SeenWords
TextOk == Obs.invalid = (verdict' = "invalid") /\ SeenOk
CheckOk == Obs.kept /\ Obs.warned = (warnings' > 0)
Ok == Obs.status = "ok" /\ (IF inp.kind = "text" THEN TextOk ELSE CheckOk)
Judge == IF pc' # "done" THEN judged' = "run"
         ELSE IF Ok THEN judged' = "accept"
         ELSE judged' = "reject" /\ Reject(k, [verdict |-> verdict', left |-> left])
TNext == \/ judged = "run" /\ LGNext /\ UNCHANGED k /\ Judge
         \/ judged # "run" /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
