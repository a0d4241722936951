------------------------------ MODULE CorpusMC ------------------------------
EXTENDS Corpus, TraceIO
CONSTANTS MaxThreads, Big
C(k1, v1, k2, v2) == <<[k |-> k1, v |-> v1], [k |-> k2, v |-> v2]>>
F(p, n, k, c, cat, cat2) == [p |-> p, n |-> T(n), k |-> k, c |-> c, r |-> 1, cat |-> cat, cat2 |-> cat2]
\* schedules (C15)
Small == << F(0, "a.html", "f", "good", C("x", 1, "y", 2), C("z", 7, "x", 9)),
            F(0, "b.xhtml", "f", "good", C("x", 10, "z", 20), <<>>),
            F(0, "c.html", "f", "blank", C("y", 100, "z", 200), C("x", 300, "w", 400)) >>
Mixed == << F(0, "s", "d", "good", <<>>, <<>>),
            F(1, "a.html", "f", "good", C("x", 1, "y", 2), C("z", 7, "x", 9)),
            F(1, "a.xhtml", "f", "empty", C("x", 5, "y", 5), C("x", 5, "y", 5)),
            F(0, "n.txt", "f", "good", C("x", 50, "y", 50), <<>>),
            F(0, "d.html", "l", "text", <<>>, C("u", 3, "x", 4)) >>
Four == Small \o << F(0, "d.xhtml", "f", "unclosed", C("x", 1000, "q", 2000), C("z", 3000, "x", 4000)) >>
Schedules == {[mode |-> m, ext |-> <<>>, threads |-> t, files |-> f] : m \in {"one", "pair"}, t \in 1..MaxThreads,
                 f \in IF Big THEN {Small, Mixed, Four} ELSE {Small, Mixed}}
\* selection (C16): one entry of every kind and name, plain or in a folder
Names == {"a.html", "a.xhtml", "a.htm", "html", ".html", ".h.html", "a.HTML", "a.html.gz", "a.html5", "xhtml"}
Contents == {"good", "unclosed", "empty", "nul", "badenc", "blank", "bin", "text"}
Folders == {<<>>, <<F(0, "d", "d", "good", <<>>, <<>>)>>, <<F(0, ".d", "d", "good", <<>>, <<>>)>>,
            <<F(0, "d.html", "d", "good", <<>>, <<>>)>>, <<F(0, "d.xhtml", "d", "good", <<>>, <<>>)>>}
Kinds == {"f", "l", "ld", "x", "d"}
One(folder, n, k, c) == folder \o << F(Len(folder), n, k, c, C("x", 1, "y", 2), C("x", 3, "y", 4)),
                                    F(0, "o.html", "f", "good", C("x", 1, "w", 1), <<>>) >>
Exts == {<<>>, <<T(".html5")>>, <<T("ml")>>, <<T(".xhtml")>>, <<T("")>>}
\* content kinds matter for files only
Picks == {<<n, k, c>> \in Names \X Kinds \X Contents : (k \notin {"f", "l"} => c = "good") /\ (k = "l" => c \in {"good", "empty"})}
Selections == {[mode |-> m, ext |-> e, threads |-> 2, files |-> One(f, p[1], p[2], p[3])] :
                 m \in {"seq", "one"}, e \in Exts, f \in Folders,
                 p \in IF Big THEN Picks ELSE {p \in Picks : p[1] \in {"a.html", "a.xhtml", ".h.html", "a.html5"} \/ p[3] = "good"}}
MCInit == /\ \E in \in (IF IOEnv.PROP = "C15" THEN Schedules ELSE Selections) : CStart(in)
\* something vanishes once, after the first document
Is(e) == \E j \in 1..Len(hist) : hist[j][1] = e
Vanishes == Len(hist') > Len(hist) /\ hist'[Len(hist')][1] = "vanish"
MCNext == (CNext /\ (Vanishes => IOEnv.PROP = "C16" /\ inp.ext = <<>> /\ Is("end") /\ ~Is("vanish") /\ lost' # lost)) \/ (CDone /\ UNCHANGED cvars)
MCSpec == MCInit /\ [][MCNext]_cvars
\* a finished schedule whose sums have not been merged yet stands for itself
Complete == /\ pc = "walk" /\ todo = {} /\ active = {} /\ \A p \in parts : Cardinality(p[1]) = 1
Vanished == SelectSeq(hist, LAMBDA e : e[1] = "vanish")
Input == [mode |-> inp.mode, ext |-> inp.ext, threads |-> inp.threads, files |-> inp.files,
           sched |-> SelectSeq(hist, LAMBDA e : e[1] # "vanish"),
           gone |-> [j \in 1..Len(Vanished) |-> Vanished[j][2]]]
\* for the selection one order is enough
Ordered == \A j \in 1..Len(hist) : \A m \in 1..Len(hist) : j < m /\ hist[j][1] \in {"begin", "fail"} /\ hist[m][1] \in {"begin", "fail"} => hist[j][2] < hist[m][2]
Sequential == \A j \in 1..(Len(hist) - 1) : hist[j][1] = "begin" => hist[j + 1] = <<"end", hist[j][2]>>
Emit == Complete => IF IOEnv.PROP = "C15" \/ (Ordered /\ Sequential) THEN EmitInput(Input) ELSE TRUE
=============================================================================
