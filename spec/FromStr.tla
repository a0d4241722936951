------------------------------- MODULE FromStr -------------------------------
(* src/dnm/mod.rs from_str, from_ams_paragraph_str and c14n.rs               *)
(* rebuild_normalized_text: a text becomes a document with one paragraph.    *)
(* src: [call ("str" | "ams"), text, names, classes, par].  For "ams" the    *)
(* text is read line by line before the document is built and traversed.     *)
EXTENDS Plaintext
VARIABLES src, rest, acc
fvars == <<pvars, src, rest, acc>>

Lexeme(w) == w = T("NUM") \/ \E j \in 2..(Len(w) - 1) : w[j] = 95
Formula == T("mathformula ")
\* position after the token that starts after p
RECURSIVE TokenEnd(_, _)
TokenEnd(l, p) == IF p < Len(l) /\ ~IsWs(l[p + 1]) THEN TokenEnd(l, p + 1) ELSE p
LexemeAt(l, p) == TokenEnd(l, p) > p /\ Lexeme(SubSeq(l, p + 1, TokenEnd(l, p)))
\* end of a maximal run of lexemes, each with the one blank after it
RECURSIVE RunEnd(_, _)
RunEnd(l, p) == IF ~LexemeAt(l, p) THEN p
                ELSE LET e == TokenEnd(l, p) IN IF e < Len(l) THEN RunEnd(l, e + 1) ELSE e
RECURSIVE Collapse(_, _)
Collapse(l, p) ==
  IF p >= Len(l) THEN <<>>
  ELSE IF IsWs(l[p + 1]) THEN <<l[p + 1]>> \o Collapse(l, p + 1)
  ELSE IF LexemeAt(l, p) THEN Formula \o Collapse(l, RunEnd(l, p))
  ELSE LET e == TokenEnd(l, p) IN SubSeq(l, p + 1, e) \o Collapse(l, e)
Title(l) == IF l = <<>> THEN l ELSE <<IF l[1] < 128 THEN AsciiUpperOf(l[1]) ELSE l[1]>> \o Tail(l)

NodeOf(k, n, d, c, t) == [k |-> k, n |-> n, ns |-> "", d |-> d, c |-> c, id |-> <<>>, t |-> t]
Paragraph(t) == << NodeOf("e", "html", 0, <<>>, <<>>), NodeOf("e", "body", 1, <<>>, <<>>), NodeOf("e", "div", 2, T("ltx_para"), <<>>) >>
                \o (IF t = <<>> THEN <<>> ELSE <<NodeOf("t", "text", 3, <<>>, t)>>)
DocInput(t) == [tree |-> Paragraph(t), root |-> 1, names |-> src.names, classes |-> src.classes, par |-> src.par]

FStart(s) == /\ src = s /\ rest = s.text /\ acc = <<>> /\ at = 1 /\ open = <<>> /\ out = <<>> /\ ws = TRUE /\ map = [i \in {} |-> <<>>]
             /\ inp = [tree |-> <<>>, root |-> 1, names |-> s.names, classes |-> s.classes, par |-> s.par]
             /\ pc = IF s.call = "ams" THEN "lines" ELSE "build"
\* first line of what is left
LineLen == LET ends == {j \in 1..Len(rest) : rest[j] = 10} IN IF ends = {} THEN Len(rest) ELSE (CHOOSE j \in ends : \A m \in ends : j <= m) - 1
Line == SubSeq(rest, 1, LineLen)
Reading == pc = "lines" /\ rest # <<>>
DropLine == rest' = SubSeq(rest, LineLen + 2, Len(rest))
EmptyLine == Reading /\ Line = <<>> /\ DropLine /\ UNCHANGED <<pvars, src, acc>>
TakeLine == Reading /\ Line # <<>> /\ DropLine /\ acc' = Append(acc, Title(Collapse(Line, 0))) /\ UNCHANGED <<pvars, src>>
NoMoreLines == pc = "lines" /\ rest = <<>> /\ pc' = "build" /\ UNCHANGED <<inp, at, open, out, ws, map, src, rest, acc>>
BuiltText == IF src.call = "ams" THEN JoinWith(acc, T(" . ")) ELSE src.text
Build == /\ pc = "build" /\ inp' = DocInput(BuiltText) /\ pc' = "walk"
         /\ UNCHANGED <<at, open, out, ws, map, src, rest, acc>>
Walk == pc = "walk" /\ PNext /\ UNCHANGED <<src, rest, acc>>
FNext == EmptyLine \/ TakeLine \/ NoMoreLines \/ Build \/ Walk
----------------------------------------------------------------------------
(* C24 *)
\* without rules that hide the paragraph the text is the normalized string
PlainEntered == \A r \in {src.names[j].rule : j \in 1..Len(src.names)} \cup {src.classes[j].rule : j \in 1..Len(src.classes)} : r = "enter"
RoundTrip == (PDone /\ PlainEntered) =>
   LET s == Shaped(BuiltText)
   IN Text = IF Par.ws THEN Normalized([m \in 1..Len(s) |-> <<s[m][1], FALSE>>]) ELSE [m \in 1..Len(s) |-> s[m][1]]
\* the rebuilt text has no line ends, no lexemes except inside words, and keeps every other token in order
Tokens(t) == SplitWs(t)
RECURSIVE Reduced(_, _)   \* tokens with lexeme runs reduced, declaratively: a lexeme is dropped if the previous token of its line is one
Reduced(ts, prev) ==
  IF ts = <<>> THEN <<>>
  ELSE IF Lexeme(ts[1]) THEN (IF prev THEN <<>> ELSE <<T("mathformula")>>) \o Reduced(Tail(ts), TRUE)
  ELSE <<ts[1]>> \o Reduced(Tail(ts), FALSE)
NotLineEnd(c) == c = 10
Lines == LET ls == SplitBy(src.text, NotLineEnd) IN ls
SingleBlanks == \A j \in 1..(Len(src.text) - 1) : ~(IsWs(src.text[j]) /\ IsWs(src.text[j + 1]) /\ src.text[j] # 10 /\ src.text[j + 1] # 10)
TitleTok(ts, l) == IF ts = <<>> \/ IsWs(l[1]) THEN ts ELSE <<Title(ts[1])>> \o Tail(ts)
RebuiltTokens ==
  (pc = "walk" /\ at = 1 /\ src.call = "ams" /\ SingleBlanks) =>
    Tokens(BuiltText) =
      LET per == [j \in 1..Len(Lines) |-> TitleTok(Reduced(Tokens(Lines[j]), FALSE), Lines[j])]
      IN Flatten([j \in 1..Len(per) |-> (IF j = 1 THEN <<>> ELSE <<T(".")>>) \o per[j]])
=============================================================================
