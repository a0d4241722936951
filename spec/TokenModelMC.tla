---------------------------- MODULE TokenModelMC ----------------------------
(* All corpora of one document with up to MaxContainers places for text      *)
(* (paragraphs, an abstract, ...) and up to MaxPieces pieces of text.        *)
EXTENDS TokenModel, TraceIO
CONSTANTS Containers, MaxContainers, Pieces, MaxPieces
VARIABLES made, count
mvars == <<tmvars, made, count>>
Node(k, n, d, c, t) == [k |-> k, n |-> n, ns |-> "", d |-> d, c |-> T(c), id |-> <<>>, t |-> t]
Anno(d) == [k |-> "e", n |-> "annotation", ns |-> "", d |-> d, c |-> <<>>, id |-> <<>>, t |-> <<>>, a |-> <<[k |-> "encoding", v |-> T("application/x-llamapun")]>>]
Open(kind) == CASE kind = "para" -> <<Node("e", "div", 1, "ltx_para", <<>>)>>
                [] kind = "abstract" -> <<Node("e", "div", 1, "ltx_abstract", <<>>), Node("e", "p", 2, "ltx_p", <<>>)>>
                [] kind = "keywords" -> <<Node("e", "div", 1, "ltx_keywords", <<>>)>>
                [] kind = "thanks" -> <<Node("e", "div", 1, "ltx_acknowledgement", <<>>)>>
                [] kind = "caption" -> <<Node("e", "figcaption", 1, "ltx_caption", <<>>)>>
                [] kind = "broken" -> <<Node("e", "div", 1, "ltx_para", <<>>), Node("e", "span", 2, "ltx_ERROR", <<>>)>>
Depth(kind) == IF kind = "abstract" THEN 3 ELSE 2
PieceNodes(p, d) ==
  CASE p = "formula" -> <<Node("e", "math", d, "", <<>>), Anno(d + 1), Node("t", "text", d + 2, "", T("UNKNOWN:x NUM:1"))>>
    [] p = "plain" -> <<Node("e", "math", d, "", <<>>)>>
    [] p = "cite" -> <<Node("e", "cite", d, "", <<>>)>>
    [] p = "long" -> <<Node("e", "b", d, "", <<>>), Node("t", "text", d + 1, "", T("abcdefghijklmnopqrstuvwxyz"))>>
    [] OTHER -> <<Node("e", "b", d, "", <<>>), Node("t", "text", d + 1, "", T(p))>>
TreeOf(cs) == <<Node("e", "html", 0, "", <<>>)>> \o
  Flatten([i \in 1..Len(cs) |-> Open(cs[i].kind) \o Flatten([j \in 1..Len(cs[i].ps) |-> PieceNodes(cs[i].ps[j], Depth(cs[i].kind))])])
Corpus1(cs, drop) == [docs |-> <<[kind |-> "doc", as |-> "a.xhtml", tree |-> TreeOf(cs), rep |-> 1]>>, drop |-> drop, threads |-> 2, sink |-> "file"]
MInit == made = <<>> /\ count = 0 /\ inp = Corpus1(<<>>, FALSE) /\ doc = 1 /\ para = 0 /\ todo = <<>> /\ line = <<>> /\ lines = <<>>
         /\ counts = NoCounts /\ blocks = <<>> /\ pc = "grow"
Growing == pc = "grow" /\ UNCHANGED tmvars
AddContainer == Growing /\ Len(made) < MaxContainers /\ \E c \in Containers : made' = Append(made, [kind |-> c, ps |-> <<>>]) /\ UNCHANGED count
AddPiece == Growing /\ made # <<>> /\ count < MaxPieces /\ \E p \in Pieces : made' = [made EXCEPT ![Len(made)].ps = Append(@, p)] /\ count' = count + 1
Go == /\ pc = "grow" /\ \E drop \in BOOLEAN : inp' = Corpus1(made, drop) /\ EmitInput(inp')
      /\ pc' = "doc" /\ UNCHANGED <<doc, para, todo, line, lines, counts, blocks, made, count>>
MNext == AddContainer \/ AddPiece \/ Go \/ (TMNext /\ UNCHANGED <<made, count>>)
MSpec == MInit /\ [][MNext]_mvars
=============================================================================
