------------------------------- MODULE Corpus -------------------------------
(* src/data.rs DocumentIterator and src/parallel_data/corpus.rs: walking the *)
(* files of a corpus, sequentially or in parallel, and adding up what is     *)
(* reported for each document.                                               *)
(*                                                                           *)
(* Input: mode "seq" (iter), "one" (catalog_with_parallel_walk), "pair"      *)
(* (catalogs_with_parallel_walk); ext: the configured extension or none;     *)
(* threads; files: the entries below the root <<[p, n, k, c, r, cat, cat2]>> *)
(*   p  parent entry (0 the root), before the entry itself;  n  name         *)
(*   k  "d" folder, "f" file, "l" link to a file, "ld" link to a folder,     *)
(*      "x" link to nowhere                                                  *)
(*   c  kind of content;  r  number of copies of the file                    *)
(*   cat, cat2  the catalogues reported for it: <<[k, v]>>                   *)
(* Threads take files, read them, report, and partial sums are merged, each  *)
(* in any order.  Between two documents of a sequential walk, files and      *)
(* folders may vanish: they need not be found any more, all others must.     *)
EXTENDS Chars, FiniteSets, TLC

VARIABLES inp,
          todo,     \* selected files not taken yet
          active,   \* documents being processed
          parts,    \* partial sums: <<documents, catalogue, second catalogue>>
          lost,     \* selected files that vanished before they were taken
          hist,     \* order of the events: <<"begin" | "end" | "fail" | "vanish", file>>
          pc        \* "walk" | "done"
cvars == <<inp, todo, active, parts, lost, hist, pc>>

Files == inp.files
Par == inp.mode # "seq"
\* a byte that is not UTF-8
BadByte == 63743
RECURSIVE PathOk(_)
PathOk(i) == i = 0 \/ (BadByte \notin {Files[i].n[j] : j \in 1..Len(Files[i].n)} /\ PathOk(Files[i].p))
RECURSIVE Hidden(_)
Hidden(i) == i # 0 /\ (Files[i].n[1] = 46 \/ Hidden(Files[i].p))
NameFits(n) == IF inp.ext # <<>> THEN EndsWith(n, inp.ext[1])
               ELSE EndsWith(n, T(".html")) \/ EndsWith(n, T(".xhtml"))
\* the parallel walk leaves out hidden files and folders; paths are texts
Selected(i) == /\ Files[i].k \in {"f", "l"} /\ NameFits(Files[i].n) /\ PathOk(i)
               /\ (IF Par THEN ~Hidden(i) ELSE TRUE)
\* how the two parsers take the kinds of content: "fail", or a document without a root element, or read as XML / HTML
AsXml == [good |-> "xml", unclosed |-> "xml", empty |-> "fail", nul |-> "fail", badenc |-> "fail", blank |-> "none",
          bin |-> "none", text |-> "none"]
AsHtml == [good |-> "html", unclosed |-> "html", empty |-> "none", nul |-> "none", badenc |-> "html", blank |-> "none",
           bin |-> "html", text |-> "html"]
ReadOf(i) == IF EndsWith(Files[i].n, T(".xhtml")) THEN AsXml[Files[i].c] ELSE AsHtml[Files[i].c]
Loads(i) == ReadOf(i) # "fail"

----------------------------------------------------------------------------
(* catalogues: functions from keys *)
Keys(cat) == {cat[j].k : j \in 1..Len(cat)}
ValueIn(cat, key) == LET j == CHOOSE j \in 1..Len(cat) : cat[j].k = key IN cat[j].v
CatOf(cat, times) == [key \in Keys(cat) |-> times * ValueIn(cat, key)]
Nothing == [key \in {} |-> 0]
Get(f, key) == IF key \in DOMAIN f THEN f[key] ELSE 0
Plus(f, g) == [key \in DOMAIN f \cup DOMAIN g |-> Get(f, key) + Get(g, key)]
Pair == inp.mode = "pair"
Report(i) == <<{i}, CatOf(Files[i].cat, Files[i].r), IF Pair THEN CatOf(Files[i].cat2, Files[i].r) ELSE Nothing>>

CStart(in) == /\ inp = in /\ active = {} /\ parts = {} /\ lost = {} /\ hist = <<>> /\ pc = "walk"
              /\ todo = {i \in 1..Len(in.files) : Selected(i)}
Note(e, i) == hist' = Append(hist, <<e, i>>)
Walking == pc = "walk"
Limit == IF Par THEN inp.threads ELSE 1
\* the file cannot be read: it adds nothing
Fail(i) == /\ Walking /\ i \in todo /\ ~Loads(i) /\ Cardinality(active) < Limit
           /\ todo' = todo \ {i} /\ parts' = parts \cup {<<{i}, Nothing, Nothing>>}
           /\ Note("fail", i) /\ UNCHANGED <<inp, active, lost, pc>>
Begin(i) == /\ Walking /\ i \in todo \cup lost /\ Loads(i) /\ Files[i].r = 1 /\ Cardinality(active) < Limit
            /\ todo' = todo \ {i} /\ lost' = lost \ {i} /\ active' = active \cup {i}
            /\ Note("begin", i) /\ UNCHANGED <<inp, parts, pc>>
EndOf(i) == /\ Walking /\ i \in active
            /\ active' = active \ {i} /\ parts' = parts \cup {Report(i)}
            /\ Note("end", i) /\ UNCHANGED <<inp, todo, lost, pc>>
\* a file or folder is removed between two documents
RECURSIVE Inside(_, _)
Inside(i, f) == i # 0 /\ (i = f \/ Inside(Files[i].p, f))
Vanish(f) == /\ Walking /\ ~Par /\ active = {}
             /\ LET gone == {i \in todo : Inside(i, f)} IN todo' = todo \ gone /\ lost' = lost \cup gone
             /\ Note("vanish", f) /\ UNCHANGED <<inp, active, parts, pc>>
\* many copies of a file, whose order is not looked at
Bulk(i) == /\ Walking /\ i \in todo /\ Loads(i) /\ Files[i].r > 1
           /\ todo' = todo \ {i} /\ parts' = parts \cup {Report(i)} /\ UNCHANGED <<inp, active, lost, hist, pc>>
Merge(p, q) == /\ Walking /\ p \in parts /\ q \in parts /\ p # q
               /\ parts' = (parts \ {p, q}) \cup {<<p[1] \cup q[1], Plus(p[2], q[2]), Plus(p[3], q[3])>>}
               /\ UNCHANGED <<inp, todo, active, lost, hist, pc>>
Stop == /\ Walking /\ todo = {} /\ active = {} /\ Cardinality(parts) <= 1
        /\ pc' = "done" /\ UNCHANGED <<inp, todo, active, parts, lost, hist>>
CNext == \/ \E i \in 1..Len(Files) : Fail(i) \/ Begin(i) \/ EndOf(i) \/ Bulk(i) \/ Vanish(i)
         \/ (\E p, q \in parts : Merge(p, q)) \/ Stop
CDone == pc = "done"
Result == IF parts = {} THEN <<{}, Nothing, Nothing>> ELSE CHOOSE p \in parts : TRUE

----------------------------------------------------------------------------
(* C15, without the walk: the sum over the selected documents *)
RECURSIVE SumOf(_, _)
SumOf(s, second) ==
  IF s = {} THEN Nothing
  ELSE LET i == CHOOSE i \in s : TRUE
       IN Plus(SumOf(s \ {i}, second), CatOf(IF second THEN Files[i].cat2 ELSE Files[i].cat, Files[i].r))
Documents == {i \in 1..Len(Files) : Selected(i) /\ Loads(i)}
Kept == Documents \ lost
SequentialSum == CDone => /\ Result[2] = SumOf(Kept, FALSE)
                          /\ Result[3] = (IF Pair THEN SumOf(Kept, TRUE) ELSE Nothing)
\* at any time every document is in exactly one place
Covered == {x \in 1..Len(Files) : \E p \in parts : x \in p[1]}
Partition == /\ todo \cap active = {} /\ (todo \cup active) \cap Covered = {} /\ lost \cap (todo \cup active \cup Covered) = {}
             /\ todo \cup active \cup Covered \cup lost = {i \in 1..Len(Files) : Selected(i)}
             /\ \A p, q \in parts : p # q => p[1] \cap q[1] = {}
OncePerDocument == CDone => \A i \in Kept : Files[i].r = 1 =>
                      Cardinality({j \in 1..Len(hist) : hist[j] = <<"end", i>>}) = 1
(* C16 *)
\* only what vanished may be missing
OnlyLost == \A i \in lost : \E j \in 1..Len(hist) : hist[j][1] = "vanish" /\ Inside(i, hist[j][2])
OnlyDocuments == \A j \in 1..Len(hist) : hist[j][1] \in {"begin", "end"} => hist[j][2] \in Documents
=============================================================================
