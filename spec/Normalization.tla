---------------------------- MODULE Normalization ----------------------------
(* The documented default normalization (DNMParameters::llamapun_normalization)*)
EXTENDS Plaintext
NR(key, rule, token) == [key |-> key, rule |-> rule, token |-> token]
DefaultNames == << NR("math", "token", T("mathformula")), NR("cite", "token", T("CitationElement")),
                   NR("img", "skip", <<>>), NR("table", "skip", <<>>), NR("head", "skip", <<>>), NR("footer", "skip", <<>>) >>
Display == T("\nmathformula\n")
HiddenClasses == {"ltx_authors", "ltx_TOC", "ltx_note_mark", "ltx_note_outer", "ltx_bibliography", "ltx_tag_figure", "ltx_tag_table"}
RECURSIVE SkipRules(_)
SkipRules(S) == IF S = {} THEN <<>> ELSE LET c == CHOOSE c \in S : TRUE IN <<NR(T(c), "skip", <<>>)>> \o SkipRules(S \ {c})
DefaultClasses == << NR(T("ltx_equation"), "token", Display), NR(T("ltx_equationgroup"), "token", Display), NR(T("ltx_ref"), "token", T("REF")) >>
                  \o SkipRules(HiddenClasses)
DefaultPar == [ws |-> FALSE, wrap |-> TRUE, uni |-> TRUE, stem |-> FALSE, full |-> FALSE, lower |-> FALSE, back |-> TRUE]
WithDefaults(tree) == [tree |-> tree, root |-> 1, names |-> DefaultNames, classes |-> DefaultClasses, par |-> DefaultPar]

\* what is documented to leave no text, or a fixed text, as conditions on one element
Formula(i) == Tr[i].n = "math"
HasClass(i, c) == \E x \in 1..Len(Classes(Tr, i)) : Classes(Tr, i)[x] = T(c)
NoClassRule(i) == \A r \in 1..Len(DefaultClasses) : ~\E x \in 1..Len(Classes(Tr, i)) : Classes(Tr, i)[x] = DefaultClasses[r].key
ShownText(i) == [m \in 1..(map[i][2] - map[i][1]) |-> out[map[i][1] + m][1]]
Wrapped(t) == <<32>> \o t \o <<32>>
\* a formula, citation, reference or display is its token between blanks, whatever is inside
TokensShown ==
  PDone => \A i \in DOMAIN map : Tr[i].k = "e" =>
    /\ (NoClassRule(i) /\ Tr[i].n = "math") => ShownText(i) = Wrapped(T("mathformula"))
    /\ (NoClassRule(i) /\ Tr[i].n = "cite") => ShownText(i) = Wrapped(T("CitationElement"))
    /\ (NoClassRule(i) /\ Tr[i].n \in {"img", "table", "head", "footer"}) => ShownText(i) = <<>>
    /\ (Len(Classes(Tr, i)) = 1 /\ HasClass(i, "ltx_ref")) => ShownText(i) = Wrapped(T("REF"))
    /\ (Len(Classes(Tr, i)) = 1 /\ (HasClass(i, "ltx_equation") \/ HasClass(i, "ltx_equationgroup"))) => ShownText(i) = Wrapped(Display)
    /\ (Len(Classes(Tr, i)) = 1 /\ \E c \in HiddenClasses : HasClass(i, c)) => ShownText(i) = <<>>
\* every other text appears, transliterated
OtherTextShown ==
  PDone => \A j \in 1..Len(Tr) :
    (Tr[j].k = "t" /\ \A i \in 1..(j - 1) : ~(Below(Tr, i, j) /\ (Tr[i].n \in {DefaultNames[r].key : r \in 1..Len(DefaultNames)} \/ ~NoClassRule(i)))) =>
      j \in DOMAIN map /\ ShownText(j) = Flatten([m \in 1..Len(Tr[j].t) |-> TranslitOf(Tr[j].t[m])])
=============================================================================
