------------------------------ MODULE Sentences ------------------------------
(* src/tokenizer.rs: Tokenizer::sentences.                                   *)
(*                                                                           *)
(* The machine reads the text with a cursor.  Its actions are the cases of   *)
(* the tokenizer; `lw` is the left window, the last (at most 11) characters  *)
(* read since the last break that can still matter.  Offsets count           *)
(* characters from 0.                                                        *)
EXTENDS Chars, StopwordTable, AbbreviationTable, FiniteSets, TLC

Window == 11
MaxNextWord == 20
Formula == T("mathformula")

PushAll(w, cs) == LET all == w \o cs IN SubSeq(all, (IF Len(all) > Window THEN Len(all) - Window ELSE 0) + 1, Len(all))
Push1(w, c) == PushAll(w, <<c>>)

\* the lower case of a text, character by character
LowerOf(c) == IF c < 128 THEN <<AsciiLowerOf(c)>>
              ELSE IF c \in DOMAIN NonAsciiLowercaseFn THEN NonAsciiLowercaseFn[c] ELSE <<c>>
RECURSIVE Lower(_)
Lower(t) == IF t = <<>> THEN <<>> ELSE LowerOf(t[1]) \o Lower(Tail(t))
IsStopword(w) == LET l == Lower(w) IN IsPlainAscii(l) /\ Str(l) \in Stopwords

\* the last alphabetic piece of the (trimmed) window
LastPiece(w) ==
  LET t == Trim(w)
      RECURSIVE Back(_)
      Back(i) == IF i = 0 \/ ~IsAlpha(t[i]) THEN i ELSE Back(i - 1)
  IN SubSeq(t, Back(Len(t)) + 1, Len(t))
IsAbbreviation(p) ==
  \/ IsPlainAscii(p) /\ p # <<>> /\ Str(p) \in AbbreviationWords
  \/ Len(p) = 3 /\ \/ p[1] \in {105, 73} /\ p[3] = 101      \* i?e
                   \/ p[1] \in {101, 69} /\ p[3] = 103      \* e?g
AbbreviationBefore(w) == LET p == LastPiece(w) IN IF Len(p) = 1 THEN p # T("I") ELSE IsAbbreviation(p) = TRUE

VARIABLES inp,    \* [text]
          pos,    \* characters read
          start,  \* beginning of the sentence under way
          lw,     \* left window
          raw,    \* ranges pushed so far, untrimmed: <<start, end, reason>>
          pc      \* "scan" | "done"
svars == <<inp, pos, start, lw, raw, pc>>
SInit(inputs) == inp \in inputs /\ pos = 0 /\ start = 0 /\ lw = <<>> /\ raw = <<>> /\ pc = "scan"

Txt == inp.text
N == Len(Txt)
C == Txt[pos + 1]                       \* the character being read
Prev == IF lw = <<>> THEN 0 ELSE lw[Len(lw)]
\* first position (characters read) after p at which the text is neither blank nor a quote
RECURSIVE SkipBlankQuote(_)
SkipBlankQuote(p) == IF p < N /\ (IsWs(Txt[p + 1]) \/ Txt[p + 1] = 39) THEN SkipBlankQuote(p + 1) ELSE p
RECURSIVE SkipBlank(_)
SkipBlank(p) == IF p < N /\ IsWs(Txt[p + 1]) THEN SkipBlank(p + 1) ELSE p
\* the alphabetic word that starts after p, at most MaxNextWord characters
RECURSIVE WordEnd(_, _)
WordEnd(p, room) == IF room > 0 /\ p < N /\ IsAlpha(Txt[p + 1]) THEN WordEnd(p + 1, room - 1) ELSE p
NextWord(p) == SubSeq(Txt, p + 1, WordEnd(p, MaxNextWord))
\* an alphabetic run starts after p that contains an upper case letter
RECURSIVE UpperAhead(_)
UpperAhead(p) == p < N /\ IsAlpha(Txt[p + 1]) /\ (IsUpper(Txt[p + 1]) \/ UpperAhead(p + 1))

Reading == pc = "scan" /\ pos < N
Break(e, why) == raw' = Append(raw, <<start, e, why>>) /\ start' = e
NoBreak == UNCHANGED <<raw, start>>
Scan == pc' = "scan" /\ UNCHANGED inp

----------------------------------------------------------------------------
(* '.' and ':' *)
AtStop == Reading /\ C \in {46, 58}
P1 == SkipBlankQuote(pos + 1)
W1 == NextWord(P1)
StopAtEnd == /\ AtStop /\ P1 = N
             /\ pos' = N /\ pc' = "end" /\ NoBreak /\ UNCHANGED <<inp, lw>>
\* a capitalized stopword always starts a sentence
StopStopword == /\ AtStop /\ P1 < N /\ UpperAhead(P1) /\ IsStopword(W1)
                /\ Break(P1, "stopword") /\ lw' = <<>> /\ pos' = P1 + Len(W1) /\ Scan
StopAbbreviation == /\ AtStop /\ P1 < N /\ UpperAhead(P1) /\ ~IsStopword(W1) /\ AbbreviationBefore(lw)
                    /\ NoBreak /\ lw' = PushAll(Push1(lw, 46), W1) /\ pos' = P1 + Len(W1) /\ Scan
StopCapital == /\ AtStop /\ P1 < N /\ UpperAhead(P1) /\ ~IsStopword(W1) /\ ~AbbreviationBefore(lw)
               /\ Break(P1, "capital") /\ lw' = PushAll(<<>>, W1) /\ pos' = P1 + Len(W1) /\ Scan
AtOther == AtStop /\ P1 < N /\ ~UpperAhead(P1)
StopSpecial == /\ AtOther /\ Txt[P1 + 1] \in {42, 34, 40}
               /\ Break(P1, "special") /\ lw' = <<>> /\ pos' = P1 /\ Scan
AtWord == AtOther /\ Txt[P1 + 1] \notin {42, 34, 40} /\ C = 46 /\ IsAlpha(Txt[P1 + 1])
StopFormula == /\ AtWord /\ StartsWith(Lower(W1), Formula) /\ ~AbbreviationBefore(lw)
               /\ Break(P1, "formula") /\ lw' = PushAll(<<>>, W1) /\ pos' = P1 + Len(W1) /\ Scan
StopWord == /\ AtWord /\ ~(StartsWith(Lower(W1), Formula) /\ ~AbbreviationBefore(lw))
            /\ NoBreak /\ lw' = PushAll(Push1(lw, 46), W1) /\ pos' = P1 + Len(W1) /\ Scan
StopOther == /\ AtOther /\ Txt[P1 + 1] \notin {42, 34, 40} /\ ~(C = 46 /\ IsAlpha(Txt[P1 + 1]))
             /\ NoBreak /\ lw' = Push1(lw, 46) /\ pos' = P1 /\ Scan

(* '?' and '!' *)
Follow == IF pos + 1 < N THEN Txt[pos + 2] ELSE 0
Bounded == <<Prev, Follow>> \in {<<91, 93>>, <<40, 41>>, <<123, 125>>, <<39, 39>>, <<34, 34>>}
AtQuestion == Reading /\ C \in {63, 33}
QuestionBounded == AtQuestion /\ Bounded /\ NoBreak /\ UNCHANGED lw /\ pos' = pos + 1 /\ Scan
QuestionBreak == AtQuestion /\ ~Bounded /\ Break(pos + 1, "question") /\ lw' = <<>> /\ pos' = pos + 1 /\ Scan

(* line ends *)
AtLineEnd == Reading /\ C = 10
LineEnd == AtLineEnd /\ Follow # 10 /\ NoBreak /\ UNCHANGED lw /\ pos' = pos + 1 /\ Scan
P2 == SkipBlank(pos + 1)
W2 == NextWord(P2)
BlankLineAtEnd == /\ AtLineEnd /\ Follow = 10 /\ P2 = N
                  /\ pos' = N /\ pc' = "end" /\ NoBreak /\ UNCHANGED <<inp, lw>>
\* (TLC evaluates the disjuncts of a guard as separate actions)
Continues == IF W2 = <<>> THEN TRUE ELSE StartsWith(W2, Formula) \/ IsLower(W2[1])
BlankLineContinues == /\ AtLineEnd /\ Follow = 10 /\ P2 < N /\ Continues
                      /\ NoBreak /\ lw' = PushAll(lw, W2) /\ pos' = P2 + Len(W2) /\ Scan
BlankLineBreak == /\ AtLineEnd /\ Follow = 10 /\ P2 < N /\ ~Continues
                  /\ Break(P2, "blankline") /\ lw' = <<>> /\ pos' = P2 + Len(W2) /\ Scan

(* everything else *)
AtPlain == Reading /\ C \notin {46, 58, 63, 33, 10}
FormulaCapital == /\ AtPlain /\ IsUpper(C) /\ lw = Formula
                  /\ Break(pos, "after formula") /\ lw' = <<C>> /\ pos' = pos + 1 /\ Scan
Plain == /\ AtPlain /\ ~(IsUpper(C) /\ lw = Formula)
         /\ NoBreak /\ lw' = Push1(lw, C) /\ pos' = pos + 1 /\ Scan

EndOfText == pc = "scan" /\ pos = N /\ pc' = "end" /\ UNCHANGED <<inp, pos, start, lw, raw>>
\* what remains is a sentence if it contains a letter
Rest == SubSeq(Txt, start + 1, N)
Remainder == /\ pc = "end" /\ pc' = "done"
             /\ IF \E i \in 1..Len(Rest) : IsAlpha(Rest[i])
                THEN raw' = Append(raw, <<start, N, "last">>) ELSE UNCHANGED raw
             /\ UNCHANGED <<inp, pos, start, lw>>

SNext == StopAtEnd \/ StopStopword \/ StopAbbreviation \/ StopCapital \/ StopSpecial \/ StopFormula \/ StopWord \/ StopOther
         \/ QuestionBounded \/ QuestionBreak \/ LineEnd \/ BlankLineAtEnd \/ BlankLineContinues \/ BlankLineBreak
         \/ FormulaCapital \/ Plain \/ EndOfText \/ Remainder
SDone == pc = "done"

\* the sentences: the pushed ranges, trimmed, without empty ones
TrimRange(s, e) ==
  LET RECURSIVE L(_)
      L(i) == IF i < e /\ IsWs(Txt[i + 1]) THEN L(i + 1) ELSE i
      RECURSIVE R(_)
      R(i) == IF i > s /\ IsWs(Txt[i]) THEN R(i - 1) ELSE i
  IN IF L(s) >= R(e) THEN <<e, e>> ELSE <<L(s), R(e)>>
SentencesOf(rs) ==
  SelectSeq([i \in 1..Len(rs) |-> TrimRange(rs[i][1], rs[i][2])], LAMBDA r : r[1] < r[2])
----------------------------------------------------------------------------
(* C13 *)
Sent == SentencesOf(raw)
OrderedAndTrimmed ==
  SDone => \A i \in 1..Len(Sent) :
    /\ Sent[i][1] < Sent[i][2] /\ Sent[i][2] <= N /\ (i > 1 => Sent[i - 1][2] <= Sent[i][1])
    /\ ~IsWs(Txt[Sent[i][1] + 1]) /\ ~IsWs(Txt[Sent[i][2]])
LettersCovered ==
  SDone => \A i \in 1..N : IsAlpha(Txt[i]) =>
    Cardinality({j \in 1..Len(Sent) : Sent[j][1] < i /\ i <= Sent[j][2]}) = 1
\* every break has its reason in the text around it, independently of the window
RECURSIVE BackBlank(_)
BackBlank(p) == IF p > 0 /\ (IsWs(Txt[p]) \/ Txt[p] = 39) THEN BackBlank(p - 1) ELSE p
BreaksJustified ==
  \A j \in 1..Len(raw) :
    LET e == raw[j][2]  why == raw[j][3]  b == BackBlank(e)
        capitalAhead == UpperAhead(e)
    IN CASE why \in {"stopword", "capital"} -> b > 0 /\ Txt[b] \in {46, 58} /\ capitalAhead
         [] why = "special" -> b > 0 /\ Txt[b] \in {46, 58} /\ Txt[e + 1] \in {42, 34, 40}
         [] why = "formula" -> b > 0 /\ Txt[b] = 46 /\ StartsWith(Lower(NextWord(e)), Formula)
         [] why = "question" -> Txt[e] \in {63, 33}
         [] why = "blankline" -> /\ \E i \in 1..(e - 1) : Txt[i] = 10 /\ Txt[i + 1] = 10 /\ \A m \in i..e : IsWs(Txt[m])
                                 /\ IsAlpha(Txt[e + 1]) /\ ~IsLower(Txt[e + 1])
         [] why = "after formula" -> IsUpper(Txt[e + 1])
         [] OTHER -> e = N
\* a stop before a capitalized stopword never stays unbroken
WindowBounded == Len(lw) <= Window
Progress == [][pos' > pos \/ pc' # pc]_svars
=============================================================================
