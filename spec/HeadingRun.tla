----------------------------- MODULE HeadingRun -----------------------------
(* The cascade of Heading.tla as a machine: one removal per step.            *)
EXTENDS Heading
VARIABLES inp,   \* [text]
          cur,   \* what is left of the heading
          begun, \* what was left when the round began
          step,  \* index of the next removal
          pc, res
hvars == <<inp, cur, begun, step, pc, res>>
HStart(x) == inp = x /\ cur = x.text /\ begun = x.text /\ step = 1 /\ pc = "run" /\ res = <<>>
Remove == /\ pc = "run" /\ step <= Len(Removals)
          /\ cur' = TLCEval(Take(Removals[step], cur)) /\ step' = step + 1
          /\ UNCHANGED <<inp, begun, pc, res>>
RoundOver == pc = "run" /\ step > Len(Removals)
Nothing == RoundOver /\ cur = <<>> /\ pc' = "done" /\ res' = <<>> /\ UNCHANGED <<inp, cur, begun, step>>
Again == RoundOver /\ cur # <<>> /\ cur # begun /\ begun' = cur /\ step' = 1 /\ UNCHANGED <<inp, cur, pc, res>>
Lookup == RoundOver /\ cur # <<>> /\ cur = begun /\ pc' = "done" /\ res' = Category(cur) /\ UNCHANGED <<inp, cur, begun, step>>
HNext == Remove \/ Nothing \/ Again \/ Lookup
----------------------------------------------------------------------------
(* C19 *)
Agrees == pc = "done" => res = NormHeading(inp.text)
\* a round that changes something leaves less
Shrinks == RoundOver /\ cur # begun => Len(cur) < Len(begun)
\* no removal joins two words: every word that is left lies within one word of the heading
Apart == LET left == SplitWs(cur)
             whole == SplitWs(inp.text)
         IN pc # "grow" => \A i \in 1..Len(left) : \E j \in 1..Len(whole) : Contains(whole[j], left[i])
Stable == pc = "done" => NormHeading(res) = res
=============================================================================
