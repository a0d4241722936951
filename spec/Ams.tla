-------------------------------- MODULE Ams --------------------------------
(* src/ams.rs: theorem-like classes, environment names, structural headings  *)
(* and AMS markup in documents.                                              *)
EXTENDS Heading, AmsTable, Tree
\* ---- environment names
EnvNamed(name) ==
  LET rows == IF IsPlainAscii(name) THEN {i \in 1..Len(EnvKeys) : Str(name) \in EnvKeys[i].keys} ELSE {}
  IN IF rows = {} THEN "Other" ELSE EnvKeys[CHOOSE i \in rows : TRUE].env
EnvNames == {EnvKeys[i].env : i \in 1..Len(EnvKeys)} \cup {"Other"}
\* no name has two categories
ASSUME \A i, j \in 1..Len(EnvKeys) : i # j => EnvKeys[i].env # EnvKeys[j].env /\ EnvKeys[i].keys \cap EnvKeys[j].keys = {}
Lower(t) == [i \in 1..Len(t) |-> AsciiLowerOf(t[i])]
\* ---- classes: "" stands for no environment
TheoremMark == T("ltx_theorem")
NamedMark == T("ltx_theorem_")
IsWord(c) == IsAlnum(c) \/ c = 95
RECURSIVE WordEnd(_, _)
WordEnd(t, p) == IF p <= Len(t) /\ IsWord(t[p]) THEN WordEnd(t, p + 1) ELSE p
NamesAt(class) == {p \in 1..Len(class) : ContainsAt(class, NamedMark, p) /\ WordEnd(class, p + 12) > p + 12}
ClassEnv(class) ==
  IF Contains(class, TheoremMark)
  THEN IF NamesAt(class) = {} THEN "Theorem"
       ELSE LET p == CHOOSE q \in NamesAt(class) : \A r \in NamesAt(class) : q <= r
            IN EnvNamed(SubSeq(class, p + 12, WordEnd(class, p + 12) - 1))
  ELSE IF class = T("ltx_proof") THEN "Proof" ELSE ""
\* ---- structural headings: a name and the label it is shown as
Structural == << <<"Abstract", "abstract">>, <<"Acknowledgement", "acknowledgement">>, <<"Analysis", "analysis">>, <<"Application", "application">>,
  <<"Assumption", "assumption">>, <<"Background", "background">>, <<"Case", "case">>, <<"Caption", "caption">>, <<"Claim", "claim">>,
  <<"Conclusion", "conclusion">>, <<"Condition", "condition">>, <<"Conjecture", "conjecture">>, <<"Contribution", "contribution">>,
  <<"Corollary", "corollary">>, <<"Data", "data">>, <<"Dataset", "dataset">>, <<"Definition", "definition">>, <<"Demonstration", "demonstration">>,
  <<"Description", "description">>, <<"Discussion", "discussion">>, <<"Example", "example">>, <<"Experiment", "experiment">>, <<"Fact", "fact">>,
  <<"FutureWork", "future work">>, <<"Implementation", "implementation">>, <<"Introduction", "introduction">>, <<"Lemma", "lemma">>,
  <<"Methods", "methods">>, <<"Model", "model">>, <<"Motivation", "motivation">>, <<"Notation", "notation">>, <<"Observation", "observation">>,
  <<"Preliminaries", "preliminaries">>, <<"Problem", "problem">>, <<"Proof", "proof">>, <<"Property", "property">>, <<"Proposition", "proposition">>,
  <<"Question", "question">>, <<"RelatedWork", "related work">>, <<"Remark", "remark">>, <<"Result", "result">>, <<"Simulation", "simulation">>,
  <<"Step", "step">>, <<"Summary", "summary">>, <<"Theorem", "theorem">>, <<"Theory", "theory">> >>
\* lower case of a text, for code points whose lower case is one code point
LowerText(t) == [i \in 1..Len(t) |-> IF t[i] \in DOMAIN NonAsciiLowercaseFn THEN NonAsciiLowercaseFn[t[i]][1] ELSE AsciiLowerOf(t[i])]
HeadingEnv(text) ==
  LET t == NormHeading(LowerText(text))
      rows == {i \in 1..Len(Structural) : T(Structural[i][2]) = t}
  IN IF rows = {} THEN <<"Other", "other">> ELSE Structural[CHOOSE i \in rows : TRUE]
\* ---- markup
HasMarkup(tree) == \E i \in 1..Len(tree) : tree[i].k = "e" /\ tree[i].n = "div" /\ Contains(tree[i].c, TheoremMark)
\* ---- the answer to a question
AmsAnswer(q) ==
  CASE q.kind = "class" -> LET e == ClassEnv(q.text) IN [env |-> e, label |-> Lower(T(e))]
    [] q.kind = "env" -> LET e == EnvNamed(q.text) IN [env |-> e, label |-> Lower(T(e))]
    [] q.kind = "structural" -> LET e == HeadingEnv(q.text) IN [env |-> e[1], label |-> T(e[2])]
    [] q.kind = "markup" -> [seq |-> HasMarkup(q.tree), xml |-> HasMarkup(q.tree)]
=============================================================================
