------------------------------ MODULE Lexemes ------------------------------
(* src/dnm/node.rs lexematize_math: the lexeme string of a math node.        *)
(*                                                                           *)
(* inp.tree is the math element: [n |-> local name, e |-> encoding attribute,*)
(* t |-> text before the children, ch |-> children].  The machine visits the *)
(* llamapun annotations below it in document order and scans each text with  *)
(* a cursor; the scanner has one action per case.                            *)
EXTENDS Chars, FiniteSets, TLC
VARIABLES inp, ai,  \* annotation under way
          pos,      \* cursor in its text
          cur,      \* token being collected
          toks,     \* finished raw tokens of this annotation
          raw,      \* raw tokens of the finished annotations
          parts,    \* normalized text of the finished annotations
          res       \* final result (<<>> while running)
lvars == <<inp, ai, pos, cur, toks, raw, parts, res>>

LlamapunEncoding == "application/x-llamapun"
RECURSIVE ContentOf(_), ContentsOf(_), Below(_), BelowAll(_)
ContentOf(n) == n.t \o ContentsOf(n.ch)
ContentsOf(ch) == IF ch = <<>> THEN <<>> ELSE ContentOf(ch[1]) \o ContentsOf(Tail(ch))
\* the annotations strictly below a node, in document order
IsAnno(n) == n.n = "annotation" /\ n.e = LlamapunEncoding
Below(n) == BelowAll(n.ch)
BelowAll(ch) == IF ch = <<>> THEN <<>>
                ELSE (IF IsAnno(ch[1]) THEN <<ch[1]>> ELSE <<>>) \o Below(ch[1]) \o BelowAll(Tail(ch))

MarkerNames == {"OPFUNCTION", "OPERATOR", "OPEN", "CLOSE", "UNKNOWN", "RELOP", "ADDOP", "MULOP",
                "ARROW", "BIGOP", "BINOP", "ID", "OVERACCENT", "UNDERACCENT"}
Markers == {T(m \o ":end") : m \in MarkerNames}
End == T(":end")
Start == T(":start")

LInit(inputs) == /\ inp \in inputs /\ ai = 1 /\ pos = 1 /\ cur = <<>> /\ toks = <<>>
                 /\ raw = <<>> /\ parts = <<>> /\ res = <<>>

Annos == Below(inp.tree)
Text == ContentOf(Annos[ai])
Scanning == res = <<>> /\ ai <= Len(Annos) /\ pos <= Len(Text)
Push(ts, c) == IF c = <<>> THEN ts ELSE Append(ts, c)
MarkersHere == {m \in Markers : ContainsAt(Text, m, pos)}
AtMarker == MarkersHere # {}
AtEnd == ContainsAt(Text, End, pos)
AtStart == ContainsAt(Text, Start, pos)

Keep == UNCHANGED <<inp, ai, raw, parts, res>>
\* an end marker is a token of its own, even when serialized without spaces
Marker ==
  /\ Scanning /\ AtMarker
  /\ LET m == CHOOSE x \in MarkersHere : TRUE
     IN pos' = pos + Len(m) /\ toks' = Append(Push(toks, cur), m)
  /\ cur' = <<>> /\ Keep
\* :end and :start close the token they belong to
Suffix(s) == /\ toks' = Append(toks, cur \o s) /\ cur' = <<>> /\ pos' = pos + Len(s) /\ Keep
EndSuffix == Scanning /\ ~AtMarker /\ AtEnd /\ Suffix(End)
StartSuffix == Scanning /\ ~AtMarker /\ ~AtEnd /\ AtStart /\ Suffix(Start)
Blank == /\ Scanning /\ ~AtMarker /\ ~AtEnd /\ ~AtStart /\ IsWs(Text[pos])
         /\ toks' = Push(toks, cur) /\ cur' = <<>> /\ pos' = pos + 1 /\ Keep
Letter == /\ Scanning /\ ~AtMarker /\ ~AtEnd /\ ~AtStart /\ ~IsWs(Text[pos])
          /\ cur' = Append(cur, Text[pos]) /\ pos' = pos + 1 /\ UNCHANGED toks /\ Keep

Collapsing == <<T("NUM"), T("ARRAY"), T("ATOM"), T("SUPERSCRIPTOP")>>
Normal(tok) ==
  IF \E i \in 1..4 : StartsWith(tok, Collapsing[i])
  THEN Collapsing[CHOOSE i \in 1..4 : StartsWith(tok, Collapsing[i])]
  ELSE [i \in 1..Len(tok) |-> IF tok[i] \in {58, 45} THEN 95 ELSE tok[i]]
EndAnnotation ==
  /\ res = <<>> /\ ai <= Len(Annos) /\ pos > Len(Text)
  /\ LET ts == Push(toks, cur)
     IN /\ raw' = Append(raw, ts)
        /\ parts' = Append(parts, JoinWith([i \in 1..Len(ts) |-> Normal(ts[i])], <<32>>))
  /\ ai' = ai + 1 /\ pos' = 1 /\ cur' = <<>> /\ toks' = <<>>
  /\ UNCHANGED <<inp, res>>
Deliver ==
  /\ res = <<>> /\ ai > Len(Annos)
  /\ LET j == JoinWith(parts, <<32>>)
     IN res' = IF Trim(j) = <<>> THEN T("mathformula") ELSE j
  /\ UNCHANGED <<inp, ai, pos, cur, toks, raw, parts>>
LNext == Marker \/ EndSuffix \/ StartSuffix \/ Blank \/ Letter \/ EndAnnotation \/ Deliver
LDone == res # <<>>
----------------------------------------------------------------------------
(* C03, independently of the scanner *)
NoWs(t) == SelectSeq(t, LAMBDA c : ~IsWs(c))
\* nothing but whitespace is lost, and order is kept
NothingLost == \A a \in 1..Len(raw) : Flatten(raw[a]) = NoWs(ContentOf(Annos[a]))
\* tokens are not empty, contain no whitespace, and :end / :start only at their end;
\* a known end marker stands alone
Occurs(t, s) == {i \in 1..Len(t) : ContainsAt(t, s, i)}
TokensWellFormed ==
  \A a \in 1..Len(raw) : \A j \in 1..Len(raw[a]) :
    LET t == raw[a][j]
    IN /\ t # <<>> /\ \A i \in 1..Len(t) : ~IsWs(t[i])
       /\ Occurs(t, End) \subseteq {Len(t) - 3} /\ Occurs(t, Start) \subseteq {Len(t) - 5}
       /\ \A m \in Markers : EndsWith(t, m) => t = m
\* two tokens are only separated where whitespace, a marker or a suffix requires it: the text of
\* neighbouring tokens without a blank between them would be one token otherwise
CutsJustified ==
  \A a \in 1..Len(raw) : \A j \in 1..(Len(raw[a]) - 1) :
    LET l == raw[a][j]  r == raw[a][j + 1]
    IN \/ EndsWith(l, End) \/ EndsWith(l, Start) \/ r \in Markers
       \/ \E i \in 1..Len(ContentOf(Annos[a])) :      \* a blank right after l, somewhere
            LET c == ContentOf(Annos[a]) IN IsWs(c[i]) /\ i > Len(l) /\ SubSeq(c, i - Len(l), i - 1) = l
NeverEmpty == LDone => Trim(res) # <<>>
ResultHasNoMarks == LDone => \A i \in 1..Len(res) : res[i] \notin {58, 45}
FallbackIff == LDone => ((\A a \in 1..Len(raw) : raw[a] = <<>>) => res = T("mathformula"))
=============================================================================
