------------------------------ MODULE HashLock ------------------------------
(* src/dnm/c14n.rs node_hash_basic: one hasher behind one lock.  Every       *)
(* thread takes the lock, resets the hasher, feeds it its canonical form and *)
(* reads the digest before it gives the lock back.  The digest is a one to   *)
(* one function of what was fed since the reset, so the buffer stands for it.*)
(* Guarded = FALSE drops the lock: the property then fails, which shows that *)
(* the model can tell (checked by tools/selftest.py).                        *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Threads, Rounds, Guarded
VARIABLES buf, lock, pcs, round, result
hvars == <<buf, lock, pcs, round, result>>
FormOf(t, r) == <<t, r>>
HInit == /\ buf = <<>> /\ lock = 0 /\ pcs = [t \in Threads |-> "take"] /\ round = [t \in Threads |-> 1]
         /\ result = [t \in Threads |-> <<>>]
Step(t, a, b) == pcs[t] = a /\ pcs' = [pcs EXCEPT ![t] = b]
Take(t) == Step(t, "take", "reset") /\ (Guarded => lock = 0) /\ lock' = t /\ UNCHANGED <<buf, round, result>>
Reset(t) == Step(t, "reset", "feed") /\ buf' = <<>> /\ UNCHANGED <<lock, round, result>>
Feed(t) == Step(t, "feed", "read") /\ buf' = buf \o FormOf(t, round[t]) /\ UNCHANGED <<lock, round, result>>
Read(t) == Step(t, "read", "give") /\ result' = [result EXCEPT ![t] = Append(@, buf)] /\ UNCHANGED <<buf, lock, round>>
Give(t) == /\ Step(t, "give", IF round[t] < Rounds THEN "take" ELSE "stop") /\ lock' = 0
           /\ round' = [round EXCEPT ![t] = @ + 1] /\ UNCHANGED <<buf, result>>
Stopped == \A t \in Threads : pcs[t] = "stop"
HNext == (\E t \in Threads : Take(t) \/ Reset(t) \/ Feed(t) \/ Read(t) \/ Give(t)) \/ (Stopped /\ UNCHANGED hvars)
HSpec == HInit /\ [][HNext]_hvars /\ \A t \in Threads : WF_hvars(Take(t) \/ Reset(t) \/ Feed(t) \/ Read(t) \/ Give(t))
AsIfAlone == \A t \in Threads : \A r \in 1..Len(result[t]) : result[t][r] = FormOf(t, r)
AllFinish == <>Stopped
=============================================================================
