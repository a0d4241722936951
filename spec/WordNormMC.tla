----------------------------- MODULE WordNormMC -----------------------------
(* A heading grows: either one text, character by character, taken as one    *)
(* word; or a sequence of pieces (texts, formulas with and without lexemes,  *)
(* citations, references), of which every word, every token and the whole    *)
(* are taken.                                                                *)
EXTENDS WordNormRun, TraceIO
CONSTANTS Alphabet, MaxLength, Pieces, MaxPieces
VARIABLES made   \* characters, or pieces
mvars == <<nvars, made>>
Node(k, n, d, t) == [k |-> k, n |-> n, ns |-> "", d |-> d, c |-> <<>>, id |-> <<>>, t |-> t]
Anno(d, enc) == [k |-> "e", n |-> "annotation", ns |-> "", d |-> d, c |-> <<>>, id |-> <<>>, t |-> <<>>, a |-> <<[k |-> "encoding", v |-> T(enc)]>>]
Root == Node("e", "h2", 0, <<>>)
PieceNodes(p) ==
  CASE p = "formula" -> <<Node("e", "math", 1, <<>>), Anno(2, "application/x-llamapun"), Node("t", "text", 3, T("UNKNOWN:x RELOP:equals NUM:1"))>>
    [] p = "number" -> <<Node("e", "math", 1, <<>>), Anno(2, "application/x-llamapun"), Node("t", "text", 3, T("NUM:1"))>>
    [] p = "blank" -> <<Node("e", "math", 1, <<>>), Anno(2, "application/x-tex"), Node("t", "text", 3, T("x=1"))>>
    [] p = "cite" -> <<Node("e", "cite", 1, <<>>), Node("t", "text", 2, T("[3]"))>>
    [] p = "long" -> <<Node("t", "text", 1, T("abcdefghijklmnopqrstuvwxyz"))>>
    [] p = "edge" -> <<Node("t", "text", 1, T("abcdefghijklmnopqrstuvwx-"))>>
    [] OTHER -> <<Node("t", "text", 1, T(p))>>
IsTextPiece(p) == p \notin {"formula", "number", "blank", "cite"}
DocOf(ps) == <<Root>> \o Flatten([i \in 1..Len(ps) |-> PieceNodes(ps[i])])
Empty == [tree |-> <<Root>>, ranges |-> <<>>]
MInit == made \in {<<"chars">>, <<"pieces">>} /\ pc = "grow" /\ inp = Empty /\ shown = <<>> /\ at = 1 /\ out = <<>> /\ heading = Rejected
Grow == /\ pc = "grow" /\ UNCHANGED nvars
        /\ IF made[1] = "chars" THEN Len(made) <= MaxLength /\ \E c \in Alphabet : made' = Append(made, c)
           ELSE Len(made) <= MaxPieces /\ \E p \in Pieces : made' = Append(made, p) /\ (IsTextPiece(p) /\ Len(made) > 1 => ~IsTextPiece(made[Len(made)]))
Input == IF made[1] = "chars"
         THEN LET t == Flatten([i \in 1..(Len(made) - 1) |-> T(made[i + 1])]) IN [tree |-> <<Root, Node("t", "text", 1, t)>>, ranges |-> << <<0, 99>> >>]
         ELSE LET tree == DocOf(Tail(made))
                  cs == CharsOf(Shown(tree, 1))
              IN [tree |-> tree, ranges |-> Wd!WordRanges(cs) \o Wd!TokenRanges(cs) \o << <<0, 99>> >>]
Go == /\ pc = "grow" /\ Len(made) > 1
      /\ inp' = TLCEval(Input) /\ shown' = Shown(inp'.tree, 1) /\ pc' = "words" /\ EmitInput(inp') /\ UNCHANGED <<at, out, heading, made>>
MNext == Grow \/ Go \/ (NNext /\ UNCHANGED made)
MSpec == MInit /\ [][MNext]_mvars
\* the numbers of the statement, by an automaton of their own
RECURSIVE Auto(_, _)
Auto(q, t) ==
  IF t = <<>> THEN q \in {"int", "letter", "frac", "exp"}
  ELSE LET c == t[1] IN
       LET n == CASE q \in {"start", "sign"} -> IF IsDigit(c) THEN "int" ELSE IF q = "start" /\ c = 45 THEN "sign" ELSE "no"
                  [] q = "int" -> IF IsDigit(c) THEN "int" ELSE IF c = 46 THEN "point" ELSE IF c \in 97..107 THEN "letter" ELSE "no"
                  [] q = "point" -> IF IsDigit(c) THEN "frac" ELSE "no"
                  [] q = "frac" -> IF IsDigit(c) THEN "frac" ELSE IF c \in {69, 101} THEN "e" ELSE "no"
                  [] q = "e" -> IF IsDigit(c) THEN "exp" ELSE IF c \in {43, 45} THEN "es" ELSE "no"
                  [] q = "es" -> IF IsDigit(c) THEN "exp" ELSE "no"
                  [] q = "exp" -> IF IsDigit(c) THEN "exp" ELSE "no"
                  [] OTHER -> "no"
       IN n # "no" /\ Auto(n, Tail(t))
SameNumbers == (pc = "done" /\ made[1] = "chars") => LET t == LowerWord(inp.tree[2].t) IN IsNumber(t) = Auto("start", t)
=============================================================================
