---------------------------- MODULE StopwordsMC ----------------------------
(* every short history of loads and queries over two threads, plus one query *)
(* script that asks for every word of the list and its near misses           *)
EXTENDS Stopwords, TraceIO
CONSTANT MaxOps
Threads == {0, 1}
Probe == {"the", "The", "theorem", "'t", "inspired", "", "a's", "x"}
AnyOp == {[op |-> "load", thread |-> t, word |-> ""] : t \in Threads}
         \cup {[op |-> "query", thread |-> t, word |-> w] : t \in Threads, w \in Probe}
LoadsFirst(os) == \A i \in 1..Len(os) : os[i].op = "query" =>
                     \E j \in 1..(i-1) : os[j].op = "load" /\ os[j].thread = os[i].thread
Histories == {[ops |-> os] : os \in {s \in UNION {[1..n -> AnyOp] : n \in 1..MaxOps} : LoadsFirst(s)}}
Ld == [op |-> "load", thread |-> 0, word |-> ""]
Q(w) == [op |-> "query", thread |-> 0, word |-> w]
Variants(w) == <<Q(w), Q(w \o "s"), Q(w \o " "), Q(IF Len(w) > 1 THEN SubSeq(w, 1, Len(w) - 1) ELSE "-"),
                 Q(IF Len(w) > 1 THEN SubSeq(w, 2, Len(w)) ELSE "-"), Q(Str([i \in 1..Len(w) |-> AsciiUpperOf(CodeOf[SubSeq(w, i, i)])]))>>
All == {[ops |-> <<Ld>> \o Variants(StopwordList[i])] : i \in 1..Len(StopwordList)}
MCInit == SInit(Histories \cup All)
MCSpec == MCInit /\ [][SNext \/ (SDone /\ UNCHANGED svars)]_svars
Emit == (pos = 1) => EmitInput(inp)
=============================================================================
