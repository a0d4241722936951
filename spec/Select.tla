------------------------------- MODULE Select -------------------------------
(* The document selectors (src/data.rs, src/parallel_data/document.rs), as   *)
(* conditions on the nodes of a document.  All lists are in document order.  *)
EXTENDS Tree, FiniteSets
Names(tree, i, ns) == tree[i].k = "e" /\ tree[i].n \in ns
HasInClass(tree, i, s) == tree[i].k = "e" /\ Contains(tree[i].c, T(s))
IsError(tree, i) == HasInClass(tree, i, "ltx_ERROR")
ErrorBelow(tree, i) == \E j \in (i + 1)..SubEnd(tree, i) : IsError(tree, j)
Siblings(tree, i, j) == i # j /\ tree[i].d = tree[j].d /\ Parent(tree, i) = Parent(tree, j)
ErrorBefore(tree, i) == \E j \in 1..(i - 1) : IsError(tree, j) /\ Siblings(tree, i, j)
All(tree) == [i \in 1..Len(tree) |-> i]
\* (the parameter P must not be called like a variable)
Paragraphs(tree) == SelectSeq(All(tree), LAMBDA i : /\ Names(tree, i, {"div"}) /\ HasInClass(tree, i, "ltx_para")
                                                    /\ ~ErrorBelow(tree, i) /\ ~ErrorBefore(tree, i))
Headings(tree) == SelectSeq(All(tree), LAMBDA i : /\ Names(tree, i, {"h1", "h2", "h3", "h4", "h5", "h6"}) /\ HasInClass(tree, i, "ltx_title")
                                                  /\ ~HasInClass(tree, i, "ltx_title_document") /\ ~ErrorBelow(tree, i))
MathNodes(tree) == SelectSeq(All(tree), LAMBDA i : Names(tree, i, {"math"}))
RefNodes(tree) == SelectSeq(All(tree), LAMBDA i : /\ Names(tree, i, {"span", "a"})
                                                  /\ (tree[i].c = T("ltx_ref") \/ Contains(tree[i].c, T("ltx_ref "))))
FirstOf(s) == IF s = <<>> THEN <<>> ELSE <<s[1]>>
Clean(tree, i, n, cl) == Names(tree, i, {n}) /\ HasInClass(tree, i, cl) /\ ~ErrorBelow(tree, i)
AbstractP(tree) == FirstOf(SelectSeq(All(tree), LAMBDA i : /\ Names(tree, i, {"p"}) /\ HasInClass(tree, i, "ltx_p")
                                                           /\ \E j \in 1..(i - 1) : Below(tree, j, i) /\ Clean(tree, j, "div", "ltx_abstract")))
Keywords(tree) == FirstOf(SelectSeq(All(tree), LAMBDA i : Clean(tree, i, "div", "ltx_keywords")))
Acknowledgement(tree) == FirstOf(SelectSeq(All(tree), LAMBDA i : Clean(tree, i, "div", "ltx_acknowledgement")))
Captions(tree) == SelectSeq(All(tree), LAMBDA i : Clean(tree, i, "figcaption", "ltx_caption"))
Extended(tree) == AbstractP(tree) \o Keywords(tree) \o Paragraphs(tree) \o Acknowledgement(tree) \o Captions(tree)
\* custom filters and XPaths that the harness uses, by name
Filtered(tree, f) == SelectSeq(All(tree), LAMBDA i :
  CASE f = "all" -> TRUE [] f = "texts" -> tree[i].k = "t" [] f = "p" -> tree[i].k = "e" /\ tree[i].n = "p"
    [] f = "comments" -> tree[i].k = "c" [] f = "none" -> FALSE)
ByXPath(tree, x) == SelectSeq(All(tree), LAMBDA i :
  CASE x = "//*[local-name()='p']" -> Names(tree, i, {"p"})
    [] x = "//text()" -> tree[i].k = "t"
    [] x = "//comment()" -> tree[i].k = "c"
    [] x = "//*" -> tree[i].k = "e"
    [] x = "/*" -> i = 1
    [] x = "//*[@id]" -> tree[i].k = "e" /\ tree[i].id # <<>>
    [] x = "//*[contains(@class,'ltx_title')]/*" -> tree[i].k = "e" /\ i > 1 /\ HasInClass(tree, Parent(tree, i), "ltx_title")
    [] OTHER -> FALSE)   \* malformed, or not a set of nodes
=============================================================================
