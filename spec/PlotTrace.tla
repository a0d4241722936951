----------------------------- MODULE PlotTrace -----------------------------
(* Observation: the scripts the plotting program was started with.           *)
EXTENDS Plot, TraceIO
VARIABLES k, judged
tvars == <<plvars, k, judged>>
Obs == Trace[k].obs
TInit == k \in 1..NCases /\ judged = "run" /\ PLStart(Trace[k].in)
ScriptOk(s) == /\ s.terminal = "pngcairo" /\ s.style = "points" /\ s.plots = 1
               /\ s.points = drawn
               /\ <<ReadLiteral(s.path, 1), ReadLiteral(s.xl, 1), ReadLiteral(s.yl, 1), ReadLiteral(s.title, 1)>> = read
Ok == Obs.status = "ok" /\ Len(Obs.scripts) = 1 /\ ScriptOk(Obs.scripts[1])
Judge == IF pc' # "done" THEN judged' = "run"
         ELSE IF Ok THEN judged' = "accept"
         ELSE judged' = "reject" /\ Reject(k, [points |-> drawn, texts |-> read])
TNext == \/ judged = "run" /\ PLNext /\ UNCHANGED k /\ Judge
         \/ judged # "run" /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
