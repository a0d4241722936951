------------------------------ MODULE WordNorm ------------------------------
(* src/util/data_helpers.rs ams_normalize_word_range, heading_from_node_aux: *)
(* words normalized for the AMS model.                                       *)
EXTENDS DocText
Wd == INSTANCE Words WITH inp <- <<>>, st <- 0, en <- 0, flag <- FALSE, res <- <<>>, done <- FALSE
MaxWord == 25
LowerWord(w) == Flatten([m \in 1..Len(w) |-> IF w[m] < 128 THEN <<AsciiLowerOf(w[m])>>
                                             ELSE IF w[m] \in DOMAIN NonAsciiLowercaseFn THEN NonAsciiLowercaseFn[w[m]] ELSE <<w[m]>>])
FormulaWord == T("mathformula")
CitationWord == T("citationelement")
NumberWord == T("NUM")
AllDigits(t) == t # <<>> /\ \A i \in 1..Len(t) : IsDecimal(t[i])
\* -?digits, then nothing, one letter a-k, or .digits with an optional exponent
IsExponent(t) == \/ AllDigits(t)
                 \/ t # <<>> /\ t[1] \in {43, 45} /\ AllDigits(Tail(t))
IsFraction(t) == \/ AllDigits(t)
                 \/ \E i \in 2..Len(t) : t[i] \in {101, 69} /\ AllDigits(SubSeq(t, 1, i - 1)) /\ IsExponent(SubSeq(t, i + 1, Len(t)))
IsUnsigned(t) == \/ AllDigits(t)
                 \/ t # <<>> /\ t[Len(t)] \in 97..107 /\ AllDigits(SubSeq(t, 1, Len(t) - 1))
                 \/ \E i \in 2..Len(t) : t[i] = 46 /\ AllDigits(SubSeq(t, 1, i - 1)) /\ IsFraction(SubSeq(t, i + 1, Len(t)))
IsNumber(t) == IsUnsigned(t) \/ (t # <<>> /\ t[1] = 45 /\ IsUnsigned(Tail(t)))
\* s: the shown characters of a word, with their nodes
Rejected == [ok |-> FALSE, word |-> <<>>]
Normalized(w) == [ok |-> TRUE, word |-> w]
NormalWord(tree, s, keepPunct, dropMath) ==
  LET low == LowerWord(CharsOf(s))
      w == IF keepPunct THEN low ELSE SelectSeq(low, IsAlnum)
  IN IF Utf8LenSeq(w) > MaxWord THEN Rejected
     ELSE IF Contains(w, FormulaWord) THEN Normalized(IF dropMath THEN <<>> ELSE LexemesAt(tree, s[1][2]))
     ELSE IF Contains(w, CitationWord) THEN Normalized(CitationWord)
     ELSE IF IsNumber(w) THEN Normalized(NumberWord)
     ELSE Normalized(w)
\* the words of a shown text, with their nodes
WordsIn(s) == LET rs == Wd!WordRanges(CharsOf(s)) IN [x \in 1..Len(rs) |-> SubSeq(s, rs[x][1] + 1, rs[x][2])]
TokensIn(s) == LET rs == Wd!TokenRanges(CharsOf(s)) IN [x \in 1..Len(rs) |-> SubSeq(s, rs[x][1] + 1, rs[x][2])]
\* the text of a heading
HeadingText(tree, i) ==
  LET s == Shown(tree, i)
      ws == WordsIn(s)
      ns == TLCEval([x \in 1..Len(ws) |-> NormalWord(tree, ws[x], FALSE, FALSE)])
  IN IF \E x \in 1..Len(ns) : ~ns[x].ok THEN Rejected
     ELSE Normalized(Flatten([x \in 1..Len(ns) |-> IF ns[x].word \in {<<>>, NumberWord} THEN <<>> ELSE Append(ns[x].word, 32)]))
=============================================================================
