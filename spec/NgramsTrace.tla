----------------------------- MODULE NgramsTrace -----------------------------
(* Checks recorded scripts: after every operation the real tables must hold  *)
(* exactly what the machine's hold, and all queries must agree with them.    *)
EXTENDS Ngrams, TraceIO
VARIABLES k, verdict
tvars == <<inp, opi, wi, cw, win, buf, since, side, counts, dict, out, k, verdict>>
Obs == Trace[k].obs
TInit == /\ k \in 1..NCases /\ verdict = "run"
         /\ NInit({Trace[k].in})

\* a listing (sequence of <<key, value>>) is exactly the function f, without duplicates
IsListing(l, f) == /\ Len(l) = Cardinality(DOMAIN f)
                   /\ {l[i][1] : i \in 1..Len(l)} = DOMAIN f
                   /\ \A i \in 1..Len(l) : l[i][2] = f[l[i][1]]
Descending(l) == \A i \in 1..(Len(l)-1) : l[i][2] >= l[i+1][2]
Lookup(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 0
\* C01 judges the counts that additions produce, C02 everything else
StepOk(o, cs, d) ==
  IF o.quiet THEN TRUE ELSE
  IF IOEnv.PROP = "C01" THEN IsListing(o.counts, cs) ELSE
  /\ IsListing(o.counts, cs) /\ IsListing(o.sorted, cs) /\ Descending(o.sorted)
  /\ o.distinct = Cardinality(DOMAIN cs)
  /\ \A i \in 1..Len(o.gets) : o.gets[i][2] = Lookup(cs, o.gets[i][1])
  /\ IsListing(o.dmap, d) /\ IsListing(o.dsorted, d) /\ Descending(o.dsorted)
  /\ o.dcount = Cardinality(DOMAIN d)
\* conformance is judged as soon as an operation finishes
OpFinished == Len(out') > Len(out)
Show(f) == {<<x, f[x]>> : x \in DOMAIN f}
Judge ==
  IF ~OpFinished THEN verdict' = "run"
  ELSE IF Obs.status = "ok" /\ Len(Obs.steps) >= Len(out') /\ StepOk(Obs.steps[Len(out')], counts', dict')
       THEN verdict' = "run"
       ELSE /\ verdict' = "reject"
            /\ Reject(k, [op |-> opi, counts |-> Show(counts'), dict |-> Show(dict')])
TNext == \/ verdict = "run" /\ NNext /\ Judge /\ UNCHANGED k
         \/ (NDone \/ verdict = "reject") /\ UNCHANGED tvars
\* the histories of long scripts are too long for the definitions over positions
Short == Len(inp.ops) <= 12 /\ (\A m \in 1..Len(inp.ops) : inp.ops[m].op \notin {"dicts", "inserts", "records"}) /\ \A m \in 1..Len(inp.ops) : Len(inp.ops[m].c) <= 400 /\ Len(inp.ops[m].ws) <= 12
HistoryCounts == Short => CountsAreHistory
HistoryDict == Short => DictIsFirstSeen
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
