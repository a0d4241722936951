----------------------------- MODULE HeadingMC ------------------------------
(* All headings of up to MaxWords words over Vocabulary, and with every kind *)
(* of blank between two words of a pair.                                     *)
EXTENDS HeadingRun, TraceIO
CONSTANTS MaxWords, Vocabulary
VARIABLE words
mvars == <<hvars, words>>
Content == {"foo", "lemmas", "proof", "methods", "data", "sets", "simulation", "exercise", "hypothesis", "related", "work"}
Heading(ws) == JoinWith([i \in 1..Len(ws) |-> T(ws[i])], <<32>>)
MInit == words = <<>> /\ pc = "grow" /\ inp = [text |-> <<>>] /\ cur = <<>> /\ begun = <<>> /\ step = 1 /\ res = <<>>
Grow == pc = "grow" /\ Len(words) < MaxWords /\ \E w \in Vocabulary : words' = Append(words, w) /\ UNCHANGED hvars
Go == /\ pc = "grow" /\ inp' = [text |-> Heading(words)] /\ cur' = inp'.text /\ begun' = cur' /\ pc' = "run"
      /\ EmitInput([kind |-> "heading", text |-> inp'.text]) /\ UNCHANGED <<words, step, res>>
MNext == Grow \/ Go \/ (HNext /\ UNCHANGED words)
MSpec == MInit /\ [][MNext]_mvars /\ WF_mvars(HNext /\ UNCHANGED words)
\* numbering around a heading with a word of its own makes no difference
Numbering == {"NUM", "i", "xiv", "a"}
HasContent == \E i \in 1..Len(words) : words[i] \in Content
SameNumbered == pc = "done" /\ HasContent =>
  \A n \in Numbering : /\ NormHeading(T(n) \o <<32>> \o inp.text) = res
                       /\ NormHeading(inp.text \o <<32>> \o T(n)) = res
Terminates == (pc = "run") ~> (pc = "done")
=============================================================================
