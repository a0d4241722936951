------------------------------ MODULE ReaderMC ------------------------------
(* Documents of up to MaxPieces pieces, in paragraphs, headings and filtered *)
(* elements.                                                                 *)
EXTENDS Reader, TraceIO
CONSTANTS Boxes, Pieces, MaxPieces, MaxBoxes, Wholes
VARIABLES made, count
mvars == <<rdvars, made, count>>
Node(kk, n, d, c, t) == [k |-> kk, n |-> n, ns |-> "", d |-> d, c |-> T(c), id |-> <<>>, t |-> t]
PieceNodes(p) ==
  CASE p = "formula" -> <<Node("e", "math", 2, "", <<>>), Node("e", "mi", 3, "", <<>>), Node("t", "text", 4, "", T("x"))>>
    [] p = "cite" -> <<Node("e", "cite", 2, "", <<>>), Node("t", "text", 3, "", T("[1]"))>>
    [] p = "accent" -> <<Node("e", "i", 2, "", <<>>), Node("t", "text", 3, "", <<233, 233>>)>>
    [] p = "wide" -> <<Node("e", "i", 2, "", <<>>), Node("t", "text", 3, "", <<8195, 198, 8217, 115>>)>>
    [] OTHER -> <<Node("e", "b", 2, "", <<>>), Node("t", "text", 3, "", T(p))>>
BoxNode(b) == CASE b = "para" -> Node("e", "div", 1, "ltx_para", <<>>) [] b = "title" -> Node("e", "h2", 1, "ltx_title", <<>>)
                [] OTHER -> Node("e", "p", 1, "", <<>>)
TreeOf(bs) == <<Node("e", "html", 0, "", <<>>)>>
  \o Flatten([i \in 1..Len(bs) |-> <<BoxNode(bs[i].box)>> \o Flatten([j \in 1..Len(bs[i].ps) |-> PieceNodes(bs[i].ps[j])])])
Made(bs, w) == [kind |-> "doc", tree |-> TreeOf(bs), whole |-> w, tags |-> <<"DT", "VBZ", "CD">>, opts |-> [pos |-> w = "raw", psg |-> FALSE]]
MInit == made = <<>> /\ count = 0 /\ inp = Made(<<>>, "raw") /\ unit = 0 /\ at = 1 /\ words = <<>> /\ out = <<>> /\ pc = "grow" /\ ReadIdle
AddBox == pc = "grow" /\ Len(made) < MaxBoxes /\ \E b \in Boxes : made' = Append(made, [box |-> b, ps |-> <<>>]) /\ UNCHANGED <<rdvars, count>>
AddPiece == pc = "grow" /\ made # <<>> /\ count < MaxPieces /\ \E p \in Pieces : made' = [made EXCEPT ![Len(made)].ps = Append(@, p)] /\ count' = count + 1 /\ UNCHANGED rdvars
Go == /\ pc = "grow" /\ \E w \in Wholes : inp' = Made(made, w) /\ EmitInput(Made(made, w))
      /\ pc' = "next" /\ UNCHANGED <<rvars, unit, at, words, out, made, count>>
MNext == AddBox \/ AddPiece \/ Go \/ (RDNext /\ UNCHANGED <<made, count>>)
MSpec == MInit /\ [][MNext]_mvars
=============================================================================
