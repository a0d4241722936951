------------------------------ MODULE NgramsMC ------------------------------
(* Exhaustive exploration of the n-gram machine within small bounds, and     *)
(* generator of the same scripts for replay into the real code.              *)
EXTENDS Ngrams, TraceIO
CONSTANTS MaxLen, MaxW, MaxN, MaxOps, MaxOpLen, EmitAll

A == T("a")   \* the anchor
B == T("b")
C == T("c")
Seqs(S, lo, hi) == UNION {[1..k -> S] : k \in lo..hi}
\* one long content
OneAdd == { [W |-> w, n |-> m, anchor |-> A, ops |-> <<[op |-> "add", c |-> Phrase(ws), ws |-> <<>>]>>] :
              w \in 1..MaxW, m \in 1..MaxN, ws \in Seqs({A, B}, 0, MaxLen) }
\* histories of several operations
SmallOps == { [op |-> "dict", c |-> x, ws |-> <<>>] : x \in {A, B, C} }
       \cup { [op |-> "insert", c |-> x, ws |-> <<>>] : x \in {A, Phrase(<<B, A>>)} }
       \cup { [op |-> "record", c |-> <<>>, ws |-> ws] : ws \in Seqs({A, B}, 0, MaxOpLen) }
       \cup { [op |-> "add", c |-> Phrase(ws), ws |-> <<>>] : ws \in Seqs({A, C}, 2, MaxOpLen) }
\* words in bulk
BulkOps == { [op |-> "records", c |-> <<>>, ws |-> ws, rep |-> 2] : ws \in Seqs({A, B}, 1, 2) }
       \cup { [op |-> x, c |-> <<>>, ws |-> <<>>, to |-> 2, rep |-> 2] : x \in {"dicts", "inserts"} }
       \cup { [op |-> "dict", c |-> ShowNumber(2), ws |-> <<>>] }
Histories == { [W |-> 1, n |-> 2, anchor |-> A, ops |-> os] : os \in Seqs(SmallOps, 1, MaxOps) }

\* the additions of one table (C01), and the other operations (C02)
AddOps == {op \in SmallOps : op.op = "add"}
AddHistories == { [W |-> w, n |-> m, anchor |-> A, ops |-> os] : w \in 1..2, m \in 1..2, os \in Seqs(AddOps, 2, MaxOps) }
TableHistories == { [W |-> 1, n |-> 2, anchor |-> A, ops |-> os] : os \in Seqs(SmallOps \ AddOps, 1, MaxOps) }
              \cup { [W |-> 1, n |-> 2, anchor |-> A, ops |-> os] : os \in Seqs((SmallOps \ AddOps) \cup BulkOps, 1, 2) }
MCInit == NInit(IF IOEnv.PROP = "C01" THEN OneAdd \cup AddHistories
                ELSE IF IOEnv.PROP = "C02" THEN TableHistories
                ELSE Histories)
MCNext == NNext \/ (NDone /\ UNCHANGED nvars)
MCSpec == MCInit /\ [][MCNext]_nvars
Emit == (opi = 1 /\ wi = 0 /\ EmitAll) => EmitInput(inp)
=============================================================================
