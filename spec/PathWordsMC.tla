---------------------------- MODULE PathWordsMC ----------------------------
(* Documents of up to MaxParagraphs paragraphs; a paragraph is a sequence of *)
(* pieces, MaxPieces in all.                                                 *)
EXTENDS PathWords, TraceIO
CONSTANTS MaxParagraphs, Pieces, MaxPieces
VARIABLES made, count
mvars == <<pwvars, made, count>>
Node(k, n, d, c, t) == [k |-> k, n |-> n, ns |-> "", d |-> d, c |-> T(c), id |-> <<>>, t |-> t]
PieceNodes(p) ==
  CASE p = "formula" -> <<Node("e", "math", 2, "", <<>>),
         [k |-> "e", n |-> "annotation", ns |-> "", d |-> 3, c |-> <<>>, id |-> <<>>, t |-> <<>>, a |-> <<[k |-> "encoding", v |-> T("application/x-llamapun")]>>],
         Node("t", "text", 4, "", T("UNKNOWN:x NUM:1"))>>
    [] p = "cite" -> <<Node("e", "cite", 2, "", <<>>)>>
    [] p = "error" -> <<Node("e", "span", 2, "ltx_ERROR", <<>>)>>
    [] p = "long" -> <<Node("e", "b", 2, "", <<>>), Node("t", "text", 3, "", T("abcdefghijklmnopqrstuvwxyz"))>>
    [] OTHER -> <<Node("e", "b", 2, "", <<>>), Node("t", "text", 3, "", T(p))>>
TreeOf(ps) == <<Node("e", "html", 0, "", <<>>)>>
  \o Flatten([i \in 1..Len(ps) |-> <<Node("e", "div", 1, "ltx_para", <<>>)>> \o Flatten([j \in 1..Len(ps[i]) |-> PieceNodes(ps[i][j])])])
MInit == made = <<>> /\ count = 0 /\ inp = [kind |-> "doc", tree |-> TreeOf(<<>>)] /\ para = 0 /\ at = 1 /\ buffer = <<>> /\ out = <<>> /\ pc = "grow" /\ ReadIdle
AddParagraph == pc = "grow" /\ Len(made) < MaxParagraphs /\ made' = Append(made, <<>>) /\ UNCHANGED <<pwvars, count>>
AddPiece == pc = "grow" /\ made # <<>> /\ count < MaxPieces /\ \E p \in Pieces : made' = [made EXCEPT ![Len(made)] = Append(@, p)] /\ count' = count + 1 /\ UNCHANGED pwvars
Go == /\ pc = "grow" /\ inp' = [kind |-> "doc", tree |-> TreeOf(made)] /\ EmitInput(inp')
      /\ pc' = "next" /\ UNCHANGED <<rvars, para, at, buffer, out, made, count>>
MNext == AddParagraph \/ AddPiece \/ Go \/ (PWNext /\ UNCHANGED <<made, count>>)
MSpec == MInit /\ [][MNext]_mvars
\* broken and overlong paragraphs have no influence on the others: every line comes from a good paragraph and every good
\* paragraph with words has a line
Bad(p) == \E j \in 1..Len(p) : p[j] \in {"long", "error"}
Spelt == {"word", "A12", "formula", "cite"}
HasWords(p) == \E j \in 1..Len(p) : p[j] \in Spelt
GoodLines == pc = "done" => Len(SelectSeq(out, LAMBDA c : c = 10)) >= Cardinality({i \in 1..Len(made) : ~Bad(made[i]) /\ HasWords(made[i])})
NoneElse == pc = "done" => ((\A i \in 1..Len(made) : Bad(made[i]) \/ ~HasWords(made[i])) => out = <<>>)
=============================================================================
