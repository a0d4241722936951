------------------------------ MODULE AmsTrace ------------------------------
(* Every question about environments and the answer of the real code.  The   *)
(* table of all environments' labels is one question of its own.             *)
EXTENDS Ams, TraceIO
VARIABLES k, verdict
tvars == <<k, verdict>>
Obs == Trace[k].obs
In == Trace[k].in
\* both enumerations, each environment with its label
AllAms == {<<e, Lower(T(e))>> : e \in EnvNames}
AllStructural == {<<Structural[i][1], T(Structural[i][2])>> : i \in 1..Len(Structural)} \cup {<<"Other", T("other")>>}
SetOf(s) == {s[i] : i \in 1..Len(s)}
Answer == IF In.kind = "labels" THEN [ams |-> AllAms, structural |-> AllStructural] ELSE AmsAnswer(In)
Ok(a) == /\ Obs.status = "ok"
         /\ CASE In.kind = "labels" -> SetOf(Obs.ams) = a.ams /\ SetOf(Obs.structural) = a.structural
              [] In.kind = "markup" -> Obs.seq = a.seq /\ Obs.xml = a.xml
              [] OTHER -> Obs.env = a.env /\ (a.env # "" => Obs.label = a.label)
TInit == k \in 1..NCases /\ verdict = "run"
TNext == \/ /\ verdict = "run" /\ UNCHANGED k
            /\ LET a == Answer IN IF Ok(a) THEN verdict' = "accept" ELSE verdict' = "reject" /\ Reject(k, a)
         \/ verdict # "run" /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
