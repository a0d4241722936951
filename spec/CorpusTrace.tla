---------------------------- MODULE CorpusTrace -----------------------------
EXTENDS Corpus, TraceIO
VARIABLES k, at, verdict
tvars == <<cvars, k, at, verdict>>
Obs == Trace[k].obs
Events == Obs.events
TInit == /\ k \in 1..NCases /\ at = 1 /\ verdict = "run" /\ CStart(Trace[k].in)
Reports == [documents |-> Documents, sum |-> <<SumOf(Documents, FALSE), SumOf(Documents, TRUE)>>, event |-> at,
            read |-> [i \in 1..Len(Files) |-> ReadOf(i)]]
Refuse == verdict' = "reject" /\ Reject(k, Reports) /\ UNCHANGED <<cvars, k, at>>
\* nobody sees the unreadable ones, nor in which order sums are merged
Unseen == \/ (\E i \in todo : Fail(i) /\ \A j \in todo : j < i => Loads(j))
          \/ (~(\E i \in todo : ~Loads(i)) /\ \E i \in todo : Bulk(i) /\ \A j \in todo : j < i => Files[j].r = 1)
CanUnseen == \E i \in todo : ~Loads(i) \/ Files[i].r > 1
EventOk(e) == /\ e.f \in 1..Len(Files) /\ Files[e.f].r = 1
              /\ IF e.e = "vanish" THEN active = {} /\ ~Par
               ELSE IF e.e = "begin" THEN e.f \in todo \cup lost /\ Cardinality(active) < Limit /\ e.m = ReadOf(e.f)
                 ELSE e.f \in active
Event(e) == IF EventOk(e) THEN /\ (IF e.e = "begin" THEN Begin(e.f) ELSE IF e.e = "vanish" THEN Vanish(e.f) ELSE EndOf(e.f)) /\ at' = at + 1
                               /\ UNCHANGED <<k, verdict>>
            ELSE Refuse
First(s) == CHOOSE p \in s : TRUE
MergeAll == LET p == First(parts)  q == First(parts \ {p}) IN Merge(p, q)
AsFn(c) == CatOf(c, 1)
Copies == \A i \in 1..Len(Files) : Obs.calls[i] = (IF i \in Kept THEN Files[i].r ELSE 0)
\* catalogues hold no key twice, which CatOf would hide
Plain(c) == Len(c) = Cardinality(Keys(c))
EndOk == /\ Obs.strangers = 0 /\ Copies /\ Plain(Obs.sum) /\ Plain(Obs.sum2)
         /\ (IF Par THEN AsFn(Obs.sum) = Result[2] /\ AsFn(Obs.sum2) = Result[3] ELSE TRUE)
TStep == IF Obs.status # "ok" THEN Refuse
         ELSE IF CanUnseen THEN Unseen /\ UNCHANGED <<k, at, verdict>>
         ELSE IF at <= Len(Events) THEN Event(Events[at])
         ELSE IF todo # {} \/ active # {} THEN Refuse
         ELSE IF Cardinality(parts) > 1 THEN MergeAll /\ UNCHANGED <<k, at, verdict>>
         ELSE IF pc = "walk" THEN Stop /\ UNCHANGED <<k, at, verdict>>
         ELSE IF EndOk THEN verdict' = "accept" /\ UNCHANGED <<cvars, k, at>>
         ELSE Refuse
TNext == (verdict = "run" /\ TStep) \/ (verdict # "run" /\ UNCHANGED tvars)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
