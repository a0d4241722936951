------------------------------ MODULE Heading ------------------------------
(* src/util/data_helpers.rs normalize_heading_title: the category of a       *)
(* heading.  Numbering, generic leading phrases, trailing link words and     *)
(* plurals are removed, step after step and round after round, until a round *)
(* changes nothing; the remainder is looked up in the table of known         *)
(* headings, beginnings and endings.                                         *)
EXTENDS Chars, TLC

(***************************** the removals ********************************)
\* Every removal replaces the leftmost matches, from left to right, that do not overlap.
\* MatchEnd(t, p): 0 if nothing matches at p, else the position after the match
RECURSIVE ReplaceFrom(_, _, _, _)
ReplaceFrom(t, p, MatchEnd(_, _), by) ==
  IF p > Len(t) THEN <<>>
  ELSE LET e == MatchEnd(t, p) IN
       IF e > p THEN by \o ReplaceFrom(t, e, MatchEnd, by) ELSE <<t[p]>> \o ReplaceFrom(t, p + 1, MatchEnd, by)
RECURSIVE RunOf(_, _, _)
RunOf(t, p, cs) == IF p <= Len(t) /\ t[p] \in cs THEN RunOf(t, p + 1, cs) ELSE p
RECURSIVE WsRun(_, _)
WsRun(t, p) == IF p <= Len(t) /\ IsWs(t[p]) THEN WsRun(t, p + 1) ELSE p
\* the position after the blank (or the end of the text) at p
EndsWord(t, p) == IF p > Len(t) THEN p ELSE IF IsWs(t[p]) THEN p + 1 ELSE 0

XIV == {120, 105, 118}
RomanAt(t, p) ==
  LET here == IF p = 1 THEN EndsWord(t, RunOf(t, 1, XIV)) ELSE 0
  IN IF here > 0 THEN here ELSE IF IsWs(t[p]) THEN EndsWord(t, RunOf(t, p + 1, XIV)) ELSE 0
NumAt(t, p) == LET q == WsRun(t, p) IN IF ContainsAt(t, <<78, 85, 77>>, q) THEN WsRun(t, q + 3) ELSE 0
LetterAP(c) == c \in 97..112
LeadLetterAt(t, p) ==
  LET here == IF p = 1 /\ LetterAP(t[1]) THEN EndsWord(t, 2) ELSE 0
  IN IF here > 0 THEN here ELSE IF IsWs(t[p]) /\ p < Len(t) /\ LetterAP(t[p + 1]) THEN EndsWord(t, p + 2) ELSE 0

TakeRoman(t) == ReplaceFrom(t, 1, RomanAt, <<32>>)
TakeNum(t) == ReplaceFrom(t, 1, NumAt, <<32>>)
TakeLeadLetter(t) == ReplaceFrom(t, 1, LeadLetterAt, <<32>>)
TakeTrailLetter(t) == LET n == Len(t) IN IF n >= 2 /\ LetterAP(t[n]) /\ IsWs(t[n - 1]) THEN SubSeq(t, 1, n - 2) ELSE t

LeadPhrases == { T(s) : s \in {"comparison with", "list of", "summary of", "outline of", "sketch of", "overview of", "start of", "end of", "general", "other",
  "additional", "completion", "finishing", "first", "second", "third", "new", "alternative", "chapter", "section", "some", "basic", "closely", "an", "our", "the"} }
TakeLeadPhrase(t) ==
  LET ps == {p \in LeadPhrases : StartsWith(t, p) /\ Len(p) < Len(t) /\ IsWs(t[Len(p) + 1])}
  IN IF ps = {} THEN t ELSE LET p == CHOOSE q \in ps : TRUE IN SubSeq(t, Len(p) + 2, Len(t))
TrailWords == { T(s) : s \in {"see", "of", "for", "of the paper"} }
TakeTrailWord(t) ==
  LET at == {i \in 1..Len(t) : IsWs(t[i]) /\ SubSeq(t, i + 1, Len(t)) \in TrailWords}
  IN IF at = {} THEN t ELSE SubSeq(t, 1, (CHOOSE i \in at : \A j \in at : i <= j) - 1)

Singulars == { T(s) : s \in {"axiom", "algorithm", "assumption", "application", "conjecture", "condition", "conclusion", "contribution", "dataset", "definition",
  "discussion", "experiment", "example", "exercise", "lemma", "model", "method", "motivation", "notation", "observation", "proof", "proposition", "problem",
  "question", "result", "remark", "subject", "step", "simulation", "theorem", "work"} }
DataWord == T("data")
SetWord == T("set")
\* the text before position s ends with a singular, or with "data set" (one blank of any kind)
AfterSingular(t, s) ==
  \/ \E w \in Singulars : Len(w) < s /\ SubSeq(t, s - Len(w), s - 1) = w
  \/ s > 8 /\ SubSeq(t, s - 8, s - 5) = DataWord /\ IsWs(t[s - 4]) /\ SubSeq(t, s - 3, s - 1) = SetWord
PluralS(t, s) == t[s] = 115 /\ (s = Len(t) \/ IsWs(t[s + 1])) /\ AfterSingular(t, s)
TakePlurals(t) ==
  LET gone == {s \in 1..Len(t) : PluralS(t, s)}
      RECURSIVE Left(_)
      Left(p) == IF p > Len(t) THEN <<>> ELSE IF p \in gone THEN Left(p + 1) ELSE <<t[p]>> \o Left(p + 1)
  IN IF gone = {} THEN t ELSE Left(1)

Removals == <<"roman", "num", "lead letter", "trail letter", "lead phrase", "trail word", "plurals">>
Take(step, u) ==
  LET t == Trim(u) IN
  CASE step = "roman" -> TakeRoman(t) [] step = "num" -> TakeNum(t) [] step = "lead letter" -> TakeLeadLetter(t)
    [] step = "trail letter" -> TakeTrailLetter(t) [] step = "lead phrase" -> TakeLeadPhrase(t)
    [] step = "trail word" -> TakeTrailWord(t) [] step = "plurals" -> TakePlurals(t)

(****************************** the table **********************************)
Rows(cat, words) == [i \in 1..Len(words) |-> <<T(words[i]), T(cat)>>]
ExactTable == Rows("", <<"lemme", "remarque", "corollaire", "dokazatelstvo">>) \o Rows("conjecture", <<"hypothesis", "hypotheses">>)
  \o Rows("implementation", <<"implementation details">>) \o Rows("subject", <<"mathematics subject classification", "subject headings">>)
  \o Rows("references", <<"bibliography">>)
  \o Rows("related work", <<"previous work", "prior work", "related literature", "related research", "related studies", "literature review">>)
  \o Rows("preliminaries", <<"preliminary">>) \o Rows("analysis", <<"analyses">>) \o Rows("background", <<"theoretical background">>)
  \o Rows("example", <<"exemple">>) \o Rows("problem", <<"exercise">>)
\* beginnings, the first that fits counts
StartTable == Rows("demonstration", <<"demonstration ">>) \o Rows("result", <<"simulation result">>) \o Rows("simulation", <<"simulation ">>)
  \o Rows("acknowledgement", <<"acknowledg", "aknowledg">>) \o Rows("proof", <<"proof">>) \o Rows("remark", <<"remark ">>)
  \o Rows("experiment", <<"experiment">>) \o Rows("keywords", <<"key word", "keyword">>) \o Rows("introduction", <<"introduction">>)
  \o Rows("related work", <<"related work">>) \o Rows("background", <<"background ">>) \o Rows("appendix", <<"appendi">>)
  \o Rows("notation", <<"notation">>) \o Rows("theorem", <<"theorem">>) \o Rows("lemma", <<"lemma">>) \o Rows("corollary", <<"corollary">>)
  \o Rows("proposition", <<"proposition">>) \o Rows("definition", <<"definition">>) \o Rows("axiom", <<"axiom">>)
  \o Rows("conjecture", <<"conjecture", "hypothesis">>) \o Rows("fact", <<"fact ">>) \o Rows("problem", <<"problem ", "exercise ">>)
  \o Rows("question", <<"question ">>) \o Rows("result", <<"result">>) \o Rows("subject", <<"msc">>)
  \o Rows("conclusion", <<"conclusion", "concluding remarks">>) \o Rows("summary", <<"summary ">>) \o Rows("observation", <<"observation">>)
  \o Rows("model", <<"model">>) \o Rows("methods", <<"method">>) \o Rows("future work", <<"future">>) \o Rows("description", <<"description">>)
  \o Rows("discussion", <<"discussion">>) \o Rows("example", <<"example">>) \o Rows("property", <<"properties", "property ">>)
  \o Rows("preliminaries", <<"preliminaries ">>) \o Rows("condition", <<"condition ">>) \o Rows("contribution", <<"contribution ">>)
  \o Rows("analysis", <<"analaysis", "analysis ">>) \o Rows("motivation", <<"motivation ">>)
\* endings
EndTable == Rows("demonstration", <<" demonstration">>) \o Rows("simulation", <<" simulation">>) \o Rows("proof", <<" proof">>)
  \o Rows("remark", <<" remark">>) \o Rows("notation", <<" notation">>) \o Rows("experiment", <<" experiment">>) \o Rows("theorem", <<" theorem">>)
  \o Rows("lemma", <<" lemma">>) \o Rows("corollary", <<" corollary">>) \o Rows("proposition", <<" proposition">>)
  \o Rows("definition", <<" definition">>) \o Rows("axiom", <<" axiom">>) \o Rows("conjecture", <<" conjecture", " hypothesis">>)
  \o Rows("conclusion", <<" conclusion">>) \o Rows("summary", <<" summary">>) \o Rows("problem", <<" problem", "exercise">>)
  \o Rows("question", <<" question">>) \o Rows("result", <<" result">>) \o Rows("methods", <<" method">>) \o Rows("model", <<" model">>)
  \o Rows("description", <<" description">>) \o Rows("discussion", <<" discussion">>) \o Rows("example", <<" example">>)
  \o Rows("property", <<" property", " properties">>) \o Rows("preliminaries", <<" preliminaries">>) \o Rows("condition", <<" condition">>)
  \o Rows("contribution", <<" contribution">>) \o Rows("analysis", <<" analysis">>) \o Rows("motivation", <<" motivation">>)
\* index of the first row that fits, 0 if none does
FirstRow(table, Fits(_)) ==
  LET is == {i \in 1..Len(table) : Fits(table[i][1])} IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i <= j
Category(t) ==
  LET x == FirstRow(ExactTable, LAMBDA w : t = w)
      s == FirstRow(StartTable, LAMBDA w : StartsWith(t, w))
      e == FirstRow(EndTable, LAMBDA w : EndsWith(t, w))
  IN IF x > 0 THEN ExactTable[x][2] ELSE IF s > 0 THEN StartTable[s][2] ELSE IF e > 0 THEN EndTable[e][2] ELSE t

(************************** the whole, as a function ***********************)
RECURSIVE TakeAll(_, _)
TakeAll(t, i) == IF i > Len(Removals) THEN t ELSE TakeAll(TLCEval(Take(Removals[i], t)), i + 1)
RECURSIVE NormHeading(_)
NormHeading(t) == LET r == TLCEval(TakeAll(t, 1)) IN IF r = <<>> THEN <<>> ELSE IF r # t THEN NormHeading(r) ELSE Category(r)
=============================================================================
