--------------------------- MODULE PlaintextTrace ---------------------------
EXTENDS Normalization, TraceIO
VARIABLES k, verdict
tvars == <<inp, at, open, out, ws, map, pc, k, verdict>>
In == IF IOEnv.PROP = "C26" THEN WithDefaults(Trace[k].in.tree) ELSE Trace[k].in
\* a long document repeats the described one, and so has to do its text and its maps
Long == "times" \in DOMAIN Trace[k].in
Whole == Trace[k].obs
Repeats(o) == Long => /\ Whole.status = "ok" /\ Whole.len = Len(o) * In.times
                      /\ Len(Whole.runs) = 1 /\ Whole.runs[1].count = In.times
Obs == IF Long THEN Whole.runs[1].obs ELSE Whole
TInit == k \in 1..NCases /\ verdict = "run" /\ PStart(In)

\* the lower case of a final sigma depends on the context
Fold(t) == IF Par.lower THEN [j \in 1..Len(t) |-> IF t[j] = 962 THEN 963 ELSE t[j]] ELSE t
TextOk(m, o) == Obs.status = "ok" /\ Fold(Obs.text) = Fold([j \in 1..Len(o) |-> o[j][1]]) /\ Obs.stable
RECURSIVE Bytes(_, _)
Bytes(o, b) == IF o = <<>> THEN <<b>> ELSE <<b>> \o Bytes(Tail(o), b + Utf8Len(o[1][1]))
MapsOk(m, o) ==
  /\ Obs.status = "ok"
  /\ Obs.bytes = Bytes(o, 0)
  /\ Obs.whole = <<0, Len(o)>>
  /\ Par.back => /\ Len(Obs.back) = Len(o)
                 /\ \A j \in 1..Len(o) : Obs.back[j] = <<o[j][2], o[j][3]>> /\ Obs.starts[j] = o[j][2]
  /\ \A i \in 1..Len(Tr) :
       IF i \in DOMAIN m
       THEN /\ Len(Obs.ranges[i]) = 3 /\ Obs.ranges[i][1] = m[i][1] /\ Obs.ranges[i][2] = m[i][2]
            /\ Fold(Obs.ranges[i][3]) = Fold([j \in 1..(m[i][2] - m[i][1]) |-> o[m[i][1] + j][1]])
       ELSE Obs.ranges[i] = <<>>
Expected == IF IOEnv.PROP = "C09" THEN [map |-> [i \in 1..Len(Tr) |-> IF i \in DOMAIN map THEN map[i] ELSE <<>>], out |-> out] ELSE [text |-> Text]
Judge == IF pc' = "refused" THEN (IF Trace[k].obs.status = "panic" THEN verdict' = "accept" ELSE verdict' = "reject" /\ Reject(k, "refused"))
         ELSE IF pc' # "done" THEN verdict' = "run"
         ELSE IF Repeats(out) /\ (IF IOEnv.PROP = "C09" THEN MapsOk(map, out) ELSE TextOk(map, out)) THEN verdict' = "accept"
         ELSE verdict' = "reject" /\ Reject(k, Expected)
TNext == \/ verdict = "run" /\ PNext /\ Judge /\ UNCHANGED k
         \/ verdict # "run" /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
