------------------------------ MODULE SeqMatchMC ------------------------------
(* Patterns composed from a few atoms, on all short sentences over two words *)
EXTENDS PatternMatch, TraceIO
CONSTANTS Depth, MaxWords
N(op, args, ch) == [op |-> op, args |-> args, ch |-> ch]
W(t) == N("seq_word", <<>>, <<N("word", <<T(t)>>, <<>>)>>)
Atoms == <<N("seq_word", <<>>, <<N("word_marker", <<T("m"), T("t")>>, <<N("word", <<T("a")>>, <<>>)>>)>>),
           N("seq_word", <<>>, <<N("word_any", <<>>, <<>>)>>),
           N("seq_word", <<>>, <<N("word_not", <<>>, <<N("word_pos", <<>>, <<N("pos", <<T("VB")>>, <<>>), N("word_any", <<>>, <<>>)>>)>>)>>),
           N("seq_ref", <<T("r")>>, <<>>),
           N("phrase", <<T("NP"), T("shortest")>>, <<>>)>>
AtomSet == {Atoms[i] : i \in 1..Len(Atoms)}
Mark(p) == N("seq_marker", <<T("s")>>, <<p>>)
Policies == {T("first"), T("atleastone"), T("any"), T("longest")}
Types == {T("shortest"), T("longest")}
Over(A, B) ==
  {Mark(p) : p \in A} \cup {N("seq_seq", <<>>, <<>>)} \cup {N("seq_seq", <<>>, <<p, q>>) : p \in A, q \in B}
  \cup {N("seq_or", <<m>>, <<p, q>>) : m \in Policies, p \in A, q \in B} \cup {N("seq_or", <<m>>, <<q, p>>) : m \in {T("first"), T("longest")}, p \in A, q \in B}
  \cup {N("phrase", <<T("NP"), t>>, s \o e) : t \in Types,
          s \in {<<>>} \cup {<<N("starts_with_seq", <<c>>, <<p>>)>> : c \in {T("any"), T("lessorequal")}, p \in A},
          e \in {<<>>} \cup {<<N("ends_with_seq", <<>>, <<q>>)>> : q \in B}}
L1 == Over(AtomSet, AtomSet)
Rules(p) == <<[kind |-> "seq", name |-> T("main"), p |-> p],
              [kind |-> "seq", name |-> T("r"), p |-> N("seq_or", <<T("longest")>>, <<W("a"), N("seq_seq", <<>>, <<N("seq_word", <<>>, <<N("word_ref", <<T("w")>>, <<>>)>>), N("seq_ref", <<T("r")>>, <<>>)>>)>>)],
              [kind |-> "word", name |-> T("w"), p |-> N("word_or", <<>>, <<N("word", <<T("a")>>, <<>>), N("word_marker", <<T("b")>>, <<N("word", <<T("b")>>, <<>>)>>)>>)]>>
Leaf(w) == [l |-> "", w |-> w, k |-> <<>>]
Node(l, k) == [l |-> l, w |-> 0, k |-> k]
\* trees over n words
Trees(n) == {Node("S", [i \in 1..n |-> Leaf(i)]), Node("NP", [i \in 1..n |-> Leaf(i)])}
            \cup (IF n < 2 THEN {} ELSE {Node("S", <<Node("NP", [i \in 1..(n - 1) |-> Leaf(i)]), Leaf(n)>>),
                                         Node("NP", <<Node("NP", <<Leaf(1)>>)>> \o [i \in 1..(n - 1) |-> Leaf(i + 1)]),
                                         Node("S", <<Leaf(1), Node("VP", <<Node("NP", [i \in 1..(n - 1) |-> Leaf(i + 1)])>>)>>)})
Wd(t, g) == [gap |-> T(g), t |-> T(t), pos |-> IF t = "a" THEN T("NN") ELSE T("VB"), node |-> 0]
Doc == <<[k |-> "e", n |-> "p", ns |-> "", d |-> 0, c |-> <<>>, id |-> <<>>, t |-> <<>>]>>
In(p, ws, t) == [rules |-> Rules(p), rule |-> T("main"), pre |-> T("pre "), words |-> ws, psg |-> t, tree |-> Doc]
Empty == In(Atoms[1], <<>>, Node("S", <<>>))
MCInit == inp = Empty /\ pos = 1 /\ out = <<>> /\ pc = "words"
AddWord == /\ pc = "words" /\ Len(Words) < MaxWords
           /\ \E t \in {"a", "b"} : inp' = [inp EXCEPT !.words = Append(Words, Wd(t, IF Words = <<>> THEN "" ELSE " "))]
           /\ UNCHANGED <<pos, out, pc>>
Parse == /\ pc = "words" /\ NWords > 0 /\ pc' = "pattern" /\ \E t \in Trees(NWords) : inp' = [inp EXCEPT !.psg = t] /\ UNCHANGED <<pos, out>>
Pick1 == /\ pc = "pattern" /\ pc' = "picked" /\ \E p \in L1 : inp' = [inp EXCEPT !.rules = Rules(p)] /\ UNCHANGED <<pos, out>>
\* wrap the picked pattern once more; only where all words occur, to bound the number of cases
Pick2 == /\ pc = "picked" /\ Depth > 1 /\ NWords = MaxWords /\ pc' = "picked2"
         /\ (Words[1].t = T("a") /\ Words[2].t = T("b")) = TRUE
         /\ inp.psg.l = "S" /\ Len(inp.psg.k) = 2
         /\ LET p == inp.rules[1].p
                a == Atoms[1]
            IN \E q \in {Mark(p), N("seq_seq", <<>>, <<p, a>>), N("seq_seq", <<>>, <<a, p>>), N("seq_or", <<T("longest")>>, <<a, p>>), N("seq_or", <<T("any")>>, <<a, p>>),
                         N("phrase", <<T("NP"), T("longest")>>, <<N("starts_with_seq", <<T("lessorequal")>>, <<p>>)>>), N("phrase", <<T("NP"), T("shortest")>>, <<N("ends_with_seq", <<>>, <<p>>)>>)} :
                 inp' = [inp EXCEPT !.rules = Rules(q)]
         /\ UNCHANGED <<pos, out>>
Go == pc \in {"picked", "picked2"} /\ pc' = "start" /\ UNCHANGED <<inp, pos, out>>
MCSpec == MCInit /\ [][AddWord \/ Parse \/ Pick1 \/ Pick2 \/ Go \/ MNext \/ (MDone /\ UNCHANGED mvars)]_mvars
Emit == pc = "start" => EmitInput(inp)
=============================================================================
