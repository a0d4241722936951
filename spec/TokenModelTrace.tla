-------------------------- MODULE TokenModelTrace --------------------------
(* The file is recorded as a table of its distinct lines and the sequence of *)
(* their numbers.                                                            *)
EXTENDS TokenModel, TraceIO
VARIABLES k, verdict
tvars == <<tmvars, k, verdict>>
Obs == Trace[k].obs
TInit == k \in 1..NCases /\ verdict = "run" /\ TMStart(Trace[k].in)
Total == IF counts.document_count = 0 THEN {} ELSE {<<c, counts[c]>> : c \in DOMAIN counts}
FileLines == TLCEval([i \in 1..Len(Obs.file) |-> Obs.lines[Obs.file[i]]])
\* every line is preceded by a line break, so the file starts with an empty one
FileOk == LET f == FileLines  bs == TLCEval(Written) IN f # <<>> /\ f[1] = <<>> /\ Arranged(Tail(f), bs)
CountsOk == {<<Obs.counts[i][1], Obs.counts[i][2]>> : i \in 1..Len(Obs.counts)} = Total
Ok == IF inp.sink # "file" THEN Obs.status = "error"
      ELSE Obs.status = "ok" /\ CountsOk /\ FileOk
Judge == IF pc' # "done" THEN verdict' = "run"
         ELSE IF Ok THEN verdict' = "accept"
         ELSE verdict' = "reject" /\ Reject(k, [counts |-> counts, blocks |-> IF Len(blocks) < 4 THEN blocks ELSE <<>>, sink |-> inp.sink])
TNext == \/ verdict = "run" /\ TMNext /\ UNCHANGED k /\ Judge
         \/ verdict # "run" /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
