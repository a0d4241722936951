------------------------------ MODULE RangeMC ------------------------------
(* all texts over a blank, a wide blank, an ASCII letter and 2/3/4-byte      *)
(* characters; all sub-intervals; one operation, or a trim after a subrange  *)
EXTENDS Range, TraceIO
CONSTANT MaxLen
Alphabet == {32, 8195, 97, 233, 8211, 128512}
Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
RECURSIVE Bytes(_)
Bytes(t) == IF t = <<>> THEN 0 ELSE Utf8Len(t[1]) + Bytes(Tail(t))
O(op, a, b) == [op |-> op, a |-> a, b |-> b]
Start(t, s, e, ops) == RInit({[text |-> t, s |-> s, e |-> e, ops |-> ops]})
MCInit ==
  \E t \in Texts : \E s \in 0..Len(t) : \E e \in s..Len(t) :
    LET L == e - s  B == Bytes(SubSeq(t, s + 1, e))
    IN \/ Start(t, s, e, <<O("trim", 0, 0)>>)
       \/ \E x \in 0..B : \E y \in x..B : Start(t, s, e, <<O("bytes", x, y)>>)
       \/ \E x \in 0..L : \E y \in x..L : Start(t, s, e, <<O("sub", x, y), O("trim", 0, 0)>>)
MCSpec == MCInit /\ [][RNext \/ (RDone /\ UNCHANGED rvars)]_rvars
Emit == (opi = 1 /\ pc = "op") => EmitInput(inp)
=============================================================================
