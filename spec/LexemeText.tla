----------------------------- MODULE LexemeText -----------------------------
(* The lexeme string of a formula as a function (Lexemes.tla is the machine; *)
(* LexemesMC checks that both agree).                                        *)
EXTENDS Chars, TLC
LexMarkers == {T(m \o ":end") : m \in {"OPFUNCTION", "OPERATOR", "OPEN", "CLOSE", "UNKNOWN", "RELOP", "ADDOP", "MULOP",
                                       "ARROW", "BIGOP", "BINOP", "ID", "OVERACCENT", "UNDERACCENT"}}
LexSuffixes == <<T(":end"), T(":start")>>
LexPush(c) == IF c = <<>> THEN <<>> ELSE <<c>>
RECURSIVE LexScan(_, _, _)
LexScan(t, p, cur) ==
  IF p > Len(t) THEN LexPush(cur)
  ELSE LET ms == {m \in LexMarkers : ContainsAt(t, m, p)}
           ss == {s \in 1..2 : ContainsAt(t, LexSuffixes[s], p)}
       IN IF ms # {} THEN LET m == CHOOSE m \in ms : TRUE IN LexPush(cur) \o <<m>> \o LexScan(t, p + Len(m), <<>>)
          ELSE IF ss # {} THEN LET s == LexSuffixes[CHOOSE s \in ss : TRUE] IN <<cur \o s>> \o LexScan(t, p + Len(s), <<>>)
          ELSE IF IsWs(t[p]) THEN LexPush(cur) \o LexScan(t, p + 1, <<>>)
          ELSE LexScan(t, p + 1, Append(cur, t[p]))
LexClasses == <<T("NUM"), T("ARRAY"), T("ATOM"), T("SUPERSCRIPTOP")>>
LexNormal(tok) ==
  LET cs == {i \in 1..4 : StartsWith(tok, LexClasses[i])}
  IN IF cs # {} THEN LexClasses[CHOOSE i \in cs : TRUE] ELSE [i \in 1..Len(tok) |-> IF tok[i] \in {58, 45} THEN 95 ELSE tok[i]]
LexLine(t) == LET ts == LexScan(t, 1, <<>>) IN JoinWith([i \in 1..Len(ts) |-> LexNormal(ts[i])], <<32>>)
\* of a formula with these annotation texts, in order
FormulaLexemes(texts) ==
  LET j == JoinWith([i \in 1..Len(texts) |-> LexLine(texts[i])], <<32>>)
  IN IF Trim(j) = <<>> THEN T("mathformula") ELSE j
=============================================================================
