------------------------------- MODULE Words -------------------------------
(* src/tokenizer.rs: Tokenizer::words and Tokenizer::words_and_punct.        *)
(*                                                                           *)
(* The declarative definitions (WordRanges, TokenRanges) are the property;   *)
(* the machine scans character by character like the code.  Offsets count    *)
(* characters from 0; ranges are <<start, end>> with end exclusive.          *)
EXTENDS Chars, FiniteSets, TLC

IsApostrophe(c) == c = 39 \/ c = 8217
Contractions == {T("t"), T("s"), T("un"), T("th"), T("ll"), T("d"), T("ve"), T("il"), T("re"), T("m")}

(**************** declarative definitions ****************)
\* an apostrophe directly before an 's' counts as alphanumeric
Wordlike(t, i) == IsAlnum(t[i]) \/ (IsApostrophe(t[i]) /\ i < Len(t) /\ t[i + 1] = 115)
WordRanges(t) ==
  LET W == [i \in 1..Len(t) |-> Wordlike(t, i)]
      RECURSIVE Go(_, _)
      Go(i, s) ==   \* s = 0: not inside a word, otherwise its first position
        IF i > Len(t) THEN (IF s = 0 THEN <<>> ELSE << <<s - 1, Len(t)>> >>)
        ELSE IF W[i] THEN Go(i + 1, IF s = 0 THEN i ELSE s)
        ELSE (IF s = 0 THEN <<>> ELSE << <<s - 1, i - 1>> >>) \o Go(i + 1, 0)
  IN Go(1, 0)

\* end of the run of alphanumeric characters that starts at i (i - 1 if there is none)
RunEnd(t, i) ==
  LET RECURSIVE Go(_)
      Go(j) == IF j > Len(t) \/ ~IsAlnum(t[j]) THEN j - 1 ELSE Go(j + 1)
  IN Go(i)
TokenRanges(t) ==
  LET RECURSIVE Go(_)
      Go(i) ==
        IF i > Len(t) THEN <<>>
        ELSE IF IsAlnum(t[i]) THEN LET j == RunEnd(t, i) IN << <<i - 1, j>> >> \o Go(j + 1)
        ELSE IF IsWs(t[i]) THEN Go(i + 1)
        ELSE IF IsApostrophe(t[i])
             THEN LET j == RunEnd(t, i + 1)
                      run == SubSeq(t, i + 1, j)
                  IN IF run \in Contractions THEN << <<i - 1, j>> >> \o Go(j + 1)
                     ELSE << <<i - 1, i>> >> \o Go(i + 1)
        ELSE << <<i - 1, i>> >> \o Go(i + 1)
  IN Go(1)

(**************** the machine ****************)
VARIABLES inp,     \* [call |-> "words" | "punct", text |-> ...]
          st, en,  \* start of the token under way, characters consumed
          flag,    \* the token under way starts with an apostrophe
          res, done
wvars == <<inp, st, en, flag, res, done>>
WInit(inputs) == inp \in inputs /\ st = 0 /\ en = 0 /\ flag = FALSE /\ res = <<>> /\ done = FALSE
Txt == inp.text
C == Txt[en + 1]
More == ~done /\ en < Len(Txt)

\* words
Words == inp.call = "words"
WordChar == /\ More /\ Words /\ IsAlnum(C)
            /\ en' = en + 1 /\ UNCHANGED <<inp, st, flag, res, done>>
Possessive == /\ More /\ Words /\ ~IsAlnum(C) /\ IsApostrophe(C) /\ en + 1 < Len(Txt) /\ Txt[en + 2] = 115
              /\ en' = en + 1 /\ UNCHANGED <<inp, st, flag, res, done>>
Separator == /\ More /\ Words /\ ~IsAlnum(C) /\ ~(IsApostrophe(C) /\ en + 1 < Len(Txt) /\ Txt[en + 2] = 115)
             /\ res' = IF st < en THEN Append(res, <<st, en>>) ELSE res
             /\ en' = en + 1 /\ st' = en + 1 /\ UNCHANGED <<inp, flag, done>>
EndWords == /\ ~done /\ Words /\ en = Len(Txt)
            /\ res' = IF st < en THEN Append(res, <<st, en>>) ELSE res
            /\ done' = TRUE /\ UNCHANGED <<inp, st, en, flag>>

\* words and punctuation
Punct == inp.call = "punct"
Token(s, e) == IF s < e THEN << <<s, e>> >> ELSE <<>>
\* the token under way is complete: detach an apostrophe unless a contraction follows
Completed ==
  IF st >= en THEN <<>>
  ELSE IF flag /\ SubSeq(Txt, st + 2, en) \notin Contractions
       THEN Token(st, st + 1) \o Token(st + 1, en)
       ELSE Token(st, en)
PLetter == /\ More /\ Punct /\ IsAlnum(C)
           /\ en' = en + 1 /\ UNCHANGED <<inp, st, flag, res, done>>
PBlank == /\ More /\ Punct /\ IsWs(C)
          /\ res' = res \o Completed /\ flag' = FALSE /\ st' = en + 1 /\ en' = en + 1 /\ UNCHANGED <<inp, done>>
PApostrophe == /\ More /\ Punct /\ IsApostrophe(C)
               /\ res' = res \o Completed /\ flag' = TRUE /\ st' = en /\ en' = en + 1 /\ UNCHANGED <<inp, done>>
PSymbol == /\ More /\ Punct /\ ~IsAlnum(C) /\ ~IsWs(C) /\ ~IsApostrophe(C)
           /\ res' = res \o Completed \o << <<en, en + 1>> >> /\ flag' = FALSE /\ st' = en + 1 /\ en' = en + 1
           /\ UNCHANGED <<inp, done>>
EndPunct == /\ ~done /\ Punct /\ en = Len(Txt)
            /\ res' = res \o Completed /\ done' = TRUE /\ UNCHANGED <<inp, st, en, flag>>
WNext == WordChar \/ Possessive \/ Separator \/ EndWords \/ PLetter \/ PBlank \/ PApostrophe \/ PSymbol \/ EndPunct
----------------------------------------------------------------------------
(* C14 *)
Result == done => res = (IF Words THEN WordRanges(Txt) ELSE TokenRanges(Txt))
Ordered == \A i \in 1..Len(res) : /\ res[i][1] < res[i][2] /\ res[i][2] <= Len(Txt)
                                  /\ i > 1 => res[i - 1][2] <= res[i][1]
Covered(i) == Cardinality({j \in 1..Len(res) : res[j][1] < i /\ i <= res[j][2]})
Coverage ==
  done => \A i \in 1..Len(Txt) :
    IF Words THEN Covered(i) = (IF Wordlike(Txt, i) THEN 1 ELSE 0)
    ELSE Covered(i) = (IF IsWs(Txt[i]) THEN 0 ELSE 1)
=============================================================================
