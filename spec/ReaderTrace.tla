---------------------------- MODULE ReaderTrace ----------------------------
(* Recorded: the units as read by the sequential interface (whole, paragraph)*)
(* and by the parallel one (all), and a second reading of the whole.         *)
EXTENDS Reader, TraceIO
VARIABLES k, verdict
tvars == <<rdvars, k, verdict>>
Obs == Trace[k].obs
TInit == k \in 1..NCases /\ verdict = "run" /\ RDStart(Trace[k].in)
SeqUnit(o) == [text |-> o.text, sentences |-> o.sentences, words |-> [s \in 1..Len(o.read) |-> o.read[s].words],
               tagged |-> [s \in 1..Len(o.read) |-> o.read[s].tagged], tags |-> [s \in 1..Len(o.read) |-> o.read[s].tags]]
ParUnit(o) == [text |-> o.text, sentences |-> o.sentences, words |-> [s \in 1..Len(o.read) |-> o.read[s].words],
               tokens |-> [s \in 1..Len(o.read) |-> o.read[s].tokens], allwords |-> o.words, alltokens |-> o.tokens]
\* of a whole document the parallel interface has no words without sentences
ParWhole(o) == [ParUnit(o) EXCEPT !.allwords = <<>>, !.alltokens = <<>>]
SeqUnits == LET us == SelectSeq(out, LAMBDA o : o.from \in {"whole", "paragraph"}) IN [u \in 1..Len(us) |-> SeqUnit(us[u])]
ParUnits == [u \in 1..Len(out) |-> IF out[u].from = "whole" THEN ParWhole(out[u]) ELSE ParUnit(out[u])]
Again == IF out = <<>> THEN <<>> ELSE out[1].sentences
Ok == Obs.status = "ok" /\ Obs.seq = SeqUnits /\ Obs.par = ParUnits /\ Obs.again = <<Again, Again>> /\ Obs.proper
      \* the tagger is run with the options of the corpus
      /\ \A i \in 1..Len(Obs.opts) : Obs.opts[i] = inp.opts
Judge == IF pc' # "done" THEN verdict' = "run"
         ELSE IF Ok THEN verdict' = "accept"
         ELSE verdict' = "reject" /\ Reject(k, [seq |-> Obs.status = "ok" /\ Obs.seq = SeqUnits, par |-> Obs.status = "ok" /\ Obs.par = ParUnits, expected |-> SeqUnits])
TNext == \/ verdict = "run" /\ RDNext /\ UNCHANGED k /\ Judge
         \/ verdict # "run" /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
