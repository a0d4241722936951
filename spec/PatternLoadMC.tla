---------------------------- MODULE PatternLoadMC ----------------------------
(* Two families: files that are sequences of whole rules (orders of          *)
(* definitions and references), and one rule whose pattern is grown node by  *)
(* node from all elements of the format.                                     *)
EXTENDS PatternLoad, TraceIO
CONSTANTS MaxRules, MaxGrow
KV(k, v) == [k |-> k, v |-> T(v)]
Elem(n, d, a) == [k |-> "e", n |-> n, ns |-> "", d |-> d, c |-> <<>>, id |-> <<>>, t |-> <<>>, a |-> a]
Text(d, t) == [k |-> "t", n |-> "text", ns |-> "", d |-> d, c |-> <<>>, id |-> <<>>, t |-> T(t), a |-> <<>>]
Root(n) == <<Elem(n, 0, <<>>)>>
Rule(kind, name, body) == <<Elem(kind, 1, <<KV("name", name)>>)>> \o body
Pool == { Rule("seq_rule", "a", <<Elem("seq_word", 2, <<>>), Elem("word_ref", 3, <<KV("ref", "a")>>)>>),
          Rule("seq_rule", "b", <<Elem("seq_ref", 2, <<KV("ref", "a")>>)>>),
          Rule("word_rule", "a", <<Elem("word_any", 2, <<>>)>>),
          Rule("word_rule", "b", <<Elem("word_pos", 2, <<>>), Elem("pos", 3, <<>>), Elem("pos_ref", 4, <<KV("ref", "a")>>), Elem("word", 3, <<>>), Text(4, " w ")>>),
          Rule("pos_rule", "a", <<Elem("pos_or", 2, <<>>), Elem("pos", 3, <<KV("tag", "NN")>>), Elem("pos_not", 3, <<>>), Elem("pos_ref", 4, <<KV("ref", "a")>>)>>),
          Rule("math_rule", "a", <<Elem("math_node", 2, <<KV("name", "mi")>>), Elem("mtext_ref", 3, <<KV("ref", "a")>>)>>),
          Rule("mtext_rule", "a", <<Elem("mtext_lit", 2, <<KV("str", "x")>>)>>),
          <<Elem("meta", 1, <<>>), Elem("description", 2, <<>>), Text(3, " d ")>>,
          <<Elem("zzz", 1, <<>>)>> }
\* leaves and inner nodes of every kind, with and without their attributes
Names == {"math_any", "math_marker", "math_ref", "math_or", "math_node", "math_children", "math_descendant", "mtext_any", "mtext_or", "mtext_lit", "mtext_not",
          "mtext_ref", "pos", "pos_not", "pos_ref", "pos_or", "word_ref", "word_or", "word", "word_math", "word_any", "word_not", "word_marker",
          "word_pos", "seq_ref", "seq_word", "seq_seq", "phrase", "match_type", "starts_with_seq", "ends_with_seq", "seq_marker", "seq_or", "meta", "description"}
AttrsOf(n) == CASE n \in {"math_marker", "word_marker", "seq_marker"} -> {<<>>, <<KV("name", "m"), KV("tags", "a, b")>>}
                [] n \in {"math_ref", "mtext_ref", "pos_ref", "word_ref", "seq_ref"} -> {<<>>, <<KV("ref", "r")>>}
                [] n = "math_children" -> {<<>>, <<KV("match_type", "exact")>>, <<KV("match_type", "first")>>}
                [] n = "math_descendant" -> {<<>>, <<KV("match_type", "at_least_one")>>, <<KV("match_type", "exact")>>}
                [] n = "mtext_lit" -> {<<>>, <<KV("str", "")>>}
                [] n = "pos" -> {<<>>, <<KV("tag", "NN")>>, <<KV("tag", "NP")>>}
                [] n = "phrase" -> {<<>>, <<KV("tag", "NP")>>, <<KV("tag", "NN")>>}
                [] n = "starts_with_seq" -> {<<>>, <<KV("containment", "lessorequal")>>, <<KV("containment", "less")>>}
                [] n = "seq_or" -> {<<>>, <<KV("match_type", "longest")>>, <<KV("match_type", "exact")>>}
                [] OTHER -> {<<>>}
\* elements that can be a pattern of the kind; what may be added last
FirstOf(kind) == CASE kind = "math_rule" -> {"math_any", "math_marker", "math_ref", "math_or", "math_node", "math_descendant"}
                   [] kind = "mtext_rule" -> {"mtext_any", "mtext_or", "mtext_lit", "mtext_not", "mtext_ref"}
                   [] kind = "pos_rule" -> {"pos", "pos_not", "pos_ref", "pos_or"}
                   [] kind = "word_rule" -> {"word_ref", "word_or", "word", "word_math", "word_any", "word_not", "word_marker", "word_pos"}
                   [] OTHER -> {"seq_ref", "seq_word", "seq_seq", "phrase", "seq_marker", "seq_or"}
Last == {"math_any", "mtext_any", "pos", "pos_or", "word", "word_any", "seq_seq", "mtext_ref", "math_children", "match_type", "starts_with_seq", "ends_with_seq", "description"}
Choices == IF Len(Tr) = 3 /\ Tr[3].n \notin FirstOf(Tr[2].n) THEN {} ELSE IF Len(Tr) = 4 THEN Last ELSE Names
Kinds == {"math_rule", "mtext_rule", "pos_rule", "word_rule", "seq_rule"}
MCInit == /\ inp = [tree |-> Root("pattern_file")] /\ todo = <<>> /\ defs = <<>> /\ used = {} /\ meta = <<>> /\ pc = "files"
AddRule == /\ pc = "files" /\ Cardinality({i \in 1..Len(Tr) : Tr[i].d = 1}) < MaxRules
           /\ \E r \in Pool : inp' = [tree |-> Tr \o r]
           /\ UNCHANGED <<todo, defs, used, meta, pc>>
\* one rule of kind `kind` named r, so that references to r are defined
Template == /\ pc = "files" /\ Len(Tr) = 1 /\ pc' = "grow"
            /\ \E kind \in Kinds : inp' = [tree |-> Root("pattern_file") \o <<Elem(kind, 1, <<KV("name", "r")>>)>>]
            /\ UNCHANGED <<todo, defs, used, meta>>
Grow == /\ pc = "grow" /\ Len(Tr) < 2 + MaxGrow
        /\ \E d \in 2..(Tr[Len(Tr)].d + (IF Tr[Len(Tr)].k = "e" THEN 1 ELSE 0)) :
             \/ \E n \in Choices : \E a \in AttrsOf(n) : inp' = [tree |-> Append(Tr, Elem(n, d, a))]
             \/ (Tr[Len(Tr)].k = "e" /\ \E t \in {"longest", " "} : inp' = [tree |-> Append(Tr, Text(d, t))])
        /\ UNCHANGED <<todo, defs, used, meta, pc>>
Begin == /\ pc \in {"files", "grow"} /\ pc' = "start" /\ UNCHANGED <<inp, todo, defs, used, meta>>
BeginOther == /\ pc = "files" /\ Len(Tr) = 1 /\ pc' = "start" /\ inp' = [tree |-> Root("patterns")] /\ UNCHANGED <<todo, defs, used, meta>>
MCSpec == MCInit /\ [][AddRule \/ Template \/ Grow \/ Begin \/ BeginOther \/ LNext \/ (LDone /\ UNCHANGED lvars)]_lvars
Emit == pc = "start" => EmitInput(inp)
=============================================================================
