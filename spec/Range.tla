------------------------------- MODULE Range -------------------------------
(* src/dnm/range.rs: ranges over a plain text.  Offsets count characters     *)
(* from 0, a range is [s, e) .                                               *)
(*                                                                           *)
(* A script is a text, an initial range and a chain of operations, each      *)
(* applied to the range the previous one returned.  Trimming walks over the  *)
(* whitespace at both ends, the byte-offset conversion bisects.              *)
EXTENDS Chars, FiniteSets, TLC
VARIABLES inp, opi,
          rs, re,      \* the current range
          pc,          \* "op" | "trimL" | "trimR" | "bis1" | "bis2"
          ts, te,      \* trimming: candidate bounds
          lo, hi,      \* bisection: current interval of characters
          bs,          \* bisection: the start that was found first
          out          \* results: the range after each operation
rvars == <<inp, opi, rs, re, pc, ts, te, lo, hi, bs, out>>

\* a long text is a unit, repeated
Unit == inp.text
Times == IF "times" \in DOMAIN inp THEN inp.times ELSE 1
TextLen == Len(Unit) * Times
Ch(i) == Unit[((i - 1) % Len(Unit)) + 1]
RECURSIVE UnitByte(_)
UnitByte(i) == IF i = 0 THEN 0 ELSE UnitByte(i - 1) + Utf8Len(Unit[i])
\* byte offset of character i (0-based); of TextLen: the length in bytes
Byte(i) == IF Unit = <<>> THEN 0 ELSE (i \div Len(Unit)) * UnitByte(Len(Unit)) + UnitByte(i % Len(Unit))
Sub(s, e) == [j \in 1..(e - s) |-> Ch(s + j)]

RInit(inputs) ==
  /\ inp \in inputs /\ opi = 1 /\ rs = inp.s /\ re = inp.e /\ pc = "op"
  /\ ts = 0 /\ te = 0 /\ lo = 0 /\ hi = 0 /\ bs = 0 /\ out = <<>>
Running == opi <= Len(inp.ops)
Op == inp.ops[opi]
At(p) == Running /\ pc = p
Result(s, e) ==
  /\ rs' = s /\ re' = e /\ out' = Append(out, <<s, e>>) /\ opi' = opi + 1 /\ pc' = "op"
  /\ UNCHANGED <<inp, ts, te, lo, hi, bs>>

Subrange == At("op") /\ Op.op = "sub" /\ Result(rs + Op.a, rs + Op.b)

StartTrim == /\ At("op") /\ Op.op = "trim"
             /\ pc' = "trimL" /\ ts' = rs /\ te' = re
             /\ UNCHANGED <<inp, opi, rs, re, lo, hi, bs, out>>
TrimLeft == /\ At("trimL") /\ ts < re /\ IsWs(Ch(ts + 1)) /\ ts' = ts + 1
            /\ UNCHANGED <<inp, opi, rs, re, pc, te, lo, hi, bs, out>>
TurnTrim == /\ At("trimL") /\ ~(ts < re /\ IsWs(Ch(ts + 1))) /\ pc' = "trimR"
            /\ UNCHANGED <<inp, opi, rs, re, ts, te, lo, hi, bs, out>>
TrimRight == /\ At("trimR") /\ te > rs /\ IsWs(Ch(te)) /\ te' = te - 1
             /\ UNCHANGED <<inp, opi, rs, re, pc, ts, lo, hi, bs, out>>
EndTrim == /\ At("trimR") /\ ~(te > rs /\ IsWs(Ch(te)))
           /\ IF ts >= te THEN Result(re, re) ELSE Result(ts, te)

\* bytes: the first and the last byte of the interval are looked up by bisection
Target == IF pc = "bis1" THEN Byte(rs) + Op.a ELSE Byte(rs) + Op.b - 1
StartBytes == /\ At("op") /\ Op.op = "bytes"
              /\ pc' = "bis1" /\ lo' = rs /\ hi' = re
              /\ UNCHANGED <<inp, opi, rs, re, ts, te, bs, out>>
Bisecting == Running /\ pc \in {"bis1", "bis2"}
Halve == /\ Bisecting /\ hi > lo + 1
         /\ LET m == (lo + hi) \div 2
            IN IF Byte(m) > Target THEN hi' = m /\ lo' = lo ELSE lo' = m /\ hi' = hi
         /\ UNCHANGED <<inp, opi, rs, re, pc, ts, te, bs, out>>
Found == IF hi = lo + 1 /\ Byte(hi) <= Target THEN hi ELSE lo
FoundStart == /\ At("bis1") /\ hi <= lo + 1 /\ Op.a < Op.b
              /\ bs' = Found /\ pc' = "bis2" /\ lo' = rs /\ hi' = re
              /\ UNCHANGED <<inp, opi, rs, re, ts, te, out>>
\* no bytes: nothing
FoundNone == At("bis1") /\ hi <= lo + 1 /\ Op.a = Op.b /\ Result(Found, Found)
FoundEnd == At("bis2") /\ hi <= lo + 1 /\ Result(bs, Found + 1)

RNext == Subrange \/ StartTrim \/ TrimLeft \/ TurnTrim \/ TrimRight \/ EndTrim \/ StartBytes \/ Halve \/ FoundStart \/ FoundNone \/ FoundEnd
RDone == ~Running
----------------------------------------------------------------------------
(* C11 *)
Inside == /\ 0 <= rs /\ rs <= re /\ re <= TextLen
\* the range before operation j
Before(j) == IF j = 1 THEN <<inp.s, inp.e>> ELSE out[j - 1]
TrimRight1(j) ==   \* trimming removes exactly the whitespace at both ends
  LET b == Before(j)  o == out[j]
      blank == \A i \in (b[1] + 1)..b[2] : IsWs(Ch(i))
  IN IF blank THEN o = <<b[2], b[2]>>
     ELSE /\ b[1] <= o[1] /\ o[1] < o[2] /\ o[2] <= b[2]
          /\ \A i \in (b[1] + 1)..o[1] : IsWs(Ch(i)) /\ \A m \in (o[2] + 1)..b[2] : IsWs(Ch(m))
          /\ ~IsWs(Ch(o[1] + 1)) /\ ~IsWs(Ch(o[2]))
\* the characters that overlap the given bytes, and no others
Overlap(b, x, y) == {i \in (b[1] + 1)..b[2] : Byte(i - 1) < Byte(b[1]) + y /\ Byte(i) > Byte(b[1]) + x}
BytesRight(j) ==
  LET b == Before(j)  o == out[j]  x == inp.ops[j].a
  IN IF x = inp.ops[j].b
     THEN /\ o[1] = o[2] /\ b[1] <= o[1] /\ o[1] <= b[2] /\ Byte(o[1]) <= Byte(b[1]) + x
          /\ (o[1] < b[2] => Byte(b[1]) + x < Byte(o[1] + 1))
     ELSE (o[1] + 1)..o[2] = Overlap(b, x, inp.ops[j].b)
\* (for long texts the machine alone decides)
ResultsRight ==
  Running \/ Times > 1 \/ \A j \in 1..Len(out) :
    CASE inp.ops[j].op = "trim" -> TrimRight1(j)
      [] inp.ops[j].op = "bytes" -> BytesRight(j)
      [] OTHER -> out[j] = <<Before(j)[1] + inp.ops[j].a, Before(j)[1] + inp.ops[j].b>>
=============================================================================
