------------------------------- MODULE PlotMC -------------------------------
(* All lists of up to MaxEntries entries, all texts of up to MaxText         *)
(* characters in one of the four places.                                     *)
EXTENDS Plot, TraceIO
CONSTANTS KeySet, CountSet, MaxEntries, Alphabet, MaxText
VARIABLES es, txt
mvars == <<plvars, es, txt>>
MInit == /\ es = <<>> /\ txt = <<>> /\ inp = [entries |-> <<>>, xl |-> <<>>, yl |-> <<>>, title |-> <<>>, path |-> <<>>]
         /\ n = 1 /\ drawn = <<>> /\ part = 1 /\ at = 1 /\ quoted = <<>> /\ sent = <<>> /\ read = <<>> /\ pc = "grow"
AddEntry == pc = "grow" /\ txt = <<>> /\ Len(es) < MaxEntries /\ \E k \in KeySet, c \in CountSet : es' = Append(es, [k |-> k, c |-> c]) /\ UNCHANGED <<plvars, txt>>
AddCharacter == pc = "grow" /\ Len(es) < 2 /\ Len(txt) < MaxText /\ \E c \in Alphabet : txt' = Append(txt, c) /\ UNCHANGED <<plvars, es>>
Other == <<97, 34, 98>>
Go == /\ pc = "grow"
      /\ \E w \in (IF txt = <<>> THEN {1} ELSE 1..4) :
           LET t(i) == IF i = w THEN txt ELSE Other IN
           /\ inp' = [entries |-> es, path |-> t(1), xl |-> t(2), yl |-> t(3), title |-> t(4)]
           /\ EmitInput(inp')
      /\ pc' = "points" /\ UNCHANGED <<n, drawn, part, at, quoted, sent, read, es, txt>>
MNext == AddEntry \/ AddCharacter \/ Go \/ (PLNext /\ UNCHANGED <<es, txt>>)
MSpec == MInit /\ [][MNext]_mvars /\ WF_mvars(PLNext /\ UNCHANGED <<es, txt>>)
=============================================================================
