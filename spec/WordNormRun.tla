---------------------------- MODULE WordNormRun ----------------------------
(* One word after another is normalized under every combination of options;  *)
(* then the document is read as a heading.                                   *)
(* inp: [tree, ranges, raw (optional: characters are not transliterated)]; a range <<a, b>> stands for the characters a..b-1 of *)
(* the text, counted from 0 and cut at its end; empty ones are left out.     *)
EXTENDS WordNorm
VARIABLES inp, shown, at, out, heading, pc
nvars == <<inp, shown, at, out, heading, pc>>
IsRaw(x) == IF "raw" \in DOMAIN x THEN x.raw ELSE FALSE
NStart(x) == inp = x /\ shown = (IF IsRaw(x) THEN ShownRaw(x.tree, 1) ELSE Shown(x.tree, 1)) /\ at = 1 /\ out = <<>> /\ heading = Rejected /\ pc = "words"
Cut(r) == SubSeq(shown, r[1] + 1, IF r[2] < Len(shown) THEN r[2] ELSE Len(shown))
Options == <<[keep |-> FALSE, drop |-> FALSE], [keep |-> FALSE, drop |-> TRUE], [keep |-> TRUE, drop |-> FALSE], [keep |-> TRUE, drop |-> TRUE]>>
NextWord == /\ pc = "words" /\ at <= Len(inp.ranges)
            /\ LET s == Cut(inp.ranges[at]) IN
               out' = Append(out, IF s = <<>> THEN <<>> ELSE [x \in 1..4 |-> NormalWord(inp.tree, s, Options[x].keep, Options[x].drop)])
            /\ at' = at + 1 /\ UNCHANGED <<inp, shown, heading, pc>>
ReadHeading == /\ pc = "words" /\ at > Len(inp.ranges)
               /\ heading' = HeadingText(inp.tree, 1) /\ pc' = "done" /\ UNCHANGED <<inp, shown, at, out>>
NNext == NextWord \/ ReadHeading
----------------------------------------------------------------------------
(* C21 *)
Results == {<<x, y>> \in (1..Len(out)) \X (1..4) : out[x] # <<>>}
LongRejected == \A r \in Results : LET o == out[r[1]][r[2]] IN
                  /\ ~o.ok => Len(Cut(inp.ranges[r[1]])) > MaxWord
                  /\ (Len(Cut(inp.ranges[r[1]])) <= MaxWord) => o.ok
\* dropping punctuation can only turn a rejected word into an accepted one, and the two mathematics
\* options differ at most where there is a formula
OptionsAgree == \A x \in 1..Len(out) : out[x] # <<>> =>
                  /\ \A y \in {1, 2} : out[x][y + 2].ok => out[x][y].ok
                  /\ \A y \in {1, 3} : out[x][y].ok = out[x][y + 1].ok
                                       /\ (out[x][y] # out[x][y + 1] => out[x][y + 1].word = <<>>)
NumbersHaveDigits == \A r \in Results : out[r[1]][r[2]].word = NumberWord =>
                       \/ \E m \in 1..Len(Cut(inp.ranges[r[1]])) : IsDecimal(Cut(inp.ranges[r[1]])[m][1])
                       \/ Contains(LowerWord(CharsOf(Cut(inp.ranges[r[1]]))), FormulaWord)
=============================================================================
