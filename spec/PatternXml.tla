----------------------------- MODULE PatternXml -----------------------------
(* src/patterns/utils.rs: the helpers through which pattern files are read.  *)
(*                                                                           *)
(* A node is its children [k |-> kind, t |-> text] with kind el / text /     *)
(* comment / pi, and its properties <<name, value>>.  A script is a node and *)
(* a call; the listing helpers are a cursor over the children.               *)
EXTENDS Chars, FiniteSets, TLC
VARIABLES inp, pos, acc, res
pvars == <<inp, pos, acc, res>>
None == [kind |-> "none"]
Err == [kind |-> "err"]
Ok(v) == [kind |-> "ok", v |-> v]

PInit(inputs) == inp \in inputs /\ pos = 1 /\ acc = <<>> /\ res = None
Call == inp.call
Ch == inp.ch
Blank(t) == \A i \in 1..Len(t) : IsWs(t[i])
Return(r) == res' = r /\ UNCHANGED <<inp, pos, acc>>
Pending == res = None

(* get_simple_node_content(trim) *)
SimpleEmpty == Pending /\ Call \in {"content", "content_trim"} /\ Len(Ch) = 0 /\ Return(Ok(<<>>))
SimpleBad == /\ Pending /\ Call \in {"content", "content_trim"} /\ Len(Ch) > 0
             /\ (Ch[1].k # "text" \/ Len(Ch) > 1) /\ Return(Err)
SimpleText == /\ Pending /\ Call \in {"content", "content_trim"} /\ Len(Ch) = 1 /\ Ch[1].k = "text"
              /\ Return(Ok(IF Call = "content" THEN Ch[1].t ELSE Trim(Ch[1].t)))

(* the cursor of get_non_text_children ("strict" and the helpers built on it) and           *)
(* fast_get_non_text_children ("fast")                                                      *)
Listing == Pending /\ Call \in {"strict", "fast", "only", "nochild"}
AtChild == Listing /\ pos <= Len(Ch)
Next1 == pos' = pos + 1 /\ UNCHANGED <<inp, res>>
SkipComment == AtChild /\ Ch[pos].k = "comment" /\ UNCHANGED acc /\ Next1
SkipText == /\ AtChild /\ Ch[pos].k = "text" /\ (Call = "fast" \/ Blank(Ch[pos].t))
            /\ UNCHANGED acc /\ Next1
RejectText == AtChild /\ Ch[pos].k = "text" /\ Call # "fast" /\ ~Blank(Ch[pos].t) /\ Return(Err)
TakeChild == AtChild /\ Ch[pos].k \in {"el", "pi"} /\ acc' = Append(acc, pos) /\ Next1
EndListing ==
  /\ Listing /\ pos > Len(Ch)
  /\ Return(CASE Call \in {"strict", "fast"} -> Ok(acc)
              [] Call = "only" -> IF Len(acc) = 1 THEN Ok(acc) ELSE Err
              [] Call = "nochild" -> IF acc = <<>> THEN Ok(acc) ELSE Err)

(* require_node_property, check_found_property_already, is_comment_node *)
PropIdx == {i \in 1..Len(inp.props) : inp.props[i][1] = inp.prop}
Require == /\ Pending /\ Call = "require"
           /\ Return(IF PropIdx = {} THEN Err ELSE Ok(inp.props[CHOOSE i \in PropIdx : TRUE][2]))
Duplicate == /\ Pending /\ Call = "already"
             /\ Return(IF PropIdx = {} THEN Ok(<<>>) ELSE Err)
IsComment == /\ Pending /\ Call = "comments"
             /\ Return(Ok([i \in 1..Len(Ch) |-> IF Ch[i].k = "comment" THEN 1 ELSE 0]))

PNext == SimpleEmpty \/ SimpleBad \/ SimpleText \/ SkipComment \/ SkipText \/ RejectText \/ TakeChild
         \/ EndListing \/ Require \/ Duplicate \/ IsComment
PDone == res # None
----------------------------------------------------------------------------
(* C04, declaratively *)
Elements == {i \in 1..Len(Ch) : Ch[i].k \in {"el", "pi"}}
HasText == \E i \in 1..Len(Ch) : Ch[i].k = "text" /\ ~Blank(Ch[i].t)
Increasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
ListingRight ==
  (PDone /\ Call \in {"strict", "fast", "only", "nochild"}) =>
    /\ (res.kind = "err") =
         (\/ Call # "fast" /\ HasText
          \/ Call = "only" /\ Cardinality(Elements) # 1
          \/ Call = "nochild" /\ Elements # {})
    /\ res.kind = "ok" => {res.v[i] : i \in 1..Len(res.v)} = Elements /\ Increasing(res.v)
ContentRight ==
  (PDone /\ Call \in {"content", "content_trim"}) =>
    /\ (res.kind = "ok") = (\A i \in 1..Len(Ch) : Ch[i].k = "text" /\ Len(Ch) = 1)
    /\ (res.kind = "ok" /\ Call = "content_trim" /\ res.v # <<>>) =>
          ~IsWs(res.v[1]) /\ ~IsWs(res.v[Len(res.v)])
=============================================================================
