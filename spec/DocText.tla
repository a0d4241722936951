------------------------------ MODULE DocText ------------------------------
(* The text of a node of a document under the documented default             *)
(* normalization, as a function: the characters and the node each came from. *)
(* (Plaintext.tla with Normalization.tla is the machine; NormalizationMC     *)
(* checks that both agree.)  Formulas know the lexemes annotated below them. *)
EXTENDS Tree, LexemeText
ShownAs == [ltx_equation |-> T("\nmathformula\n"), ltx_equationgroup |-> T("\nmathformula\n"), ltx_ref |-> T("REF"),
            math |-> T("mathformula"), cite |-> T("CitationElement")]
TokenClasses == {"ltx_equation", "ltx_equationgroup", "ltx_ref"}
HiddenByClass == {"ltx_authors", "ltx_TOC", "ltx_note_mark", "ltx_note_outer", "ltx_bibliography", "ltx_tag_figure", "ltx_tag_table"}
HiddenByName == {"img", "table", "head", "footer"}
ClassNames(tree, i) == LET cs == Classes(tree, i) IN [x \in 1..Len(cs) |-> IF IsPlainAscii(cs[x]) THEN Str(cs[x]) ELSE "?"]
\* "" enter, "skip", or a key of ShownAs: the first class with a rule decides, then the name
RECURSIVE RuleFrom(_, _, _)
RuleFrom(tree, i, cs) == IF cs # <<>> THEN (IF cs[1] \in TokenClasses THEN cs[1] ELSE IF cs[1] \in HiddenByClass THEN "skip" ELSE RuleFrom(tree, i, Tail(cs)))
                         ELSE IF tree[i].n \in {"math", "cite"} THEN tree[i].n ELSE IF tree[i].n \in HiddenByName THEN "skip" ELSE ""
ShowRule(tree, i) == IF tree[i].k # "e" THEN "" ELSE RuleFrom(tree, i, ClassNames(tree, i))
TranslitChar(c) == IF c < 128 THEN <<c>> ELSE IF c \in DOMAIN TranslitFn THEN TranslitFn[c] ELSE <<>>
From(i, cs) == [m \in 1..Len(cs) |-> <<cs[m], i>>]
RECURSIVE ShowFrom(_, _, _)
ShowFrom(tree, j, e) ==
  IF j > e THEN <<>>
  ELSE IF tree[j].k = "t" THEN From(j, Flatten([m \in 1..Len(tree[j].t) |-> TranslitChar(tree[j].t[m])])) \o ShowFrom(tree, j + 1, e)
  ELSE LET r == ShowRule(tree, j) IN
       IF r = "" THEN ShowFrom(tree, j + 1, e)
       ELSE IF r = "skip" THEN ShowFrom(tree, SubEnd(tree, j) + 1, e)
       ELSE From(j, <<32>> \o ShownAs[r] \o <<32>>) \o ShowFrom(tree, SubEnd(tree, j) + 1, e)
\* the same without transliteration
RECURSIVE ShowRawFrom(_, _, _)
ShowRawFrom(tree, j, e) ==
  IF j > e THEN <<>>
  ELSE IF tree[j].k = "t" THEN From(j, tree[j].t) \o ShowRawFrom(tree, j + 1, e)
  ELSE LET r == ShowRule(tree, j) IN
       IF r = "" THEN ShowRawFrom(tree, j + 1, e)
       ELSE IF r = "skip" THEN ShowRawFrom(tree, SubEnd(tree, j) + 1, e)
       ELSE From(j, <<32>> \o ShownAs[r] \o <<32>>) \o ShowRawFrom(tree, SubEnd(tree, j) + 1, e)
\* <<character, node>> of the text of root
ShownRaw(tree, root) == TLCEval(ShowRawFrom(tree, root, SubEnd(tree, root)))
Shown(tree, root) == TLCEval(ShowFrom(tree, root, SubEnd(tree, root)))
CharsOf(s) == [m \in 1..Len(s) |-> s[m][1]]

\* the annotations below a node
Encoding(n) == IF "a" \in DOMAIN n THEN LET ks == {x \in 1..Len(n.a) : n.a[x].k = "encoding"} IN IF ks = {} THEN <<>> ELSE n.a[CHOOSE x \in ks : TRUE].v ELSE <<>>
LlamapunAnnotation == T("application/x-llamapun")
Annotations(tree, i) == SelectSeq([m \in 1..(SubEnd(tree, i) - i) |-> i + m],
                                  LAMBDA j : tree[j].k = "e" /\ tree[j].n = "annotation" /\ Encoding(tree[j]) = LlamapunAnnotation)
LexemesAt(tree, i) == LET as == Annotations(tree, i) IN FormulaLexemes([x \in 1..Len(as) |-> TextContent(tree, as[x])])
=============================================================================
