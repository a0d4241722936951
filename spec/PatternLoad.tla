----------------------------- MODULE PatternLoad -----------------------------
(* src/patterns/rules.rs: PatternFile::load.                                 *)
(*                                                                           *)
(* A pattern file is a document (Tree; nodes carry their attributes in a as  *)
(* [k |-> name, v |-> text]).  The loader goes over the children of the root *)
(* in order and keeps what is defined and what is referenced; at the end     *)
(* everything referenced has to be defined.                                  *)
(*                                                                           *)
(* A pattern is [op, args, ch]: an operator, its texts, its sub-patterns,    *)
(* with all defaults made explicit.                                          *)
EXTENDS Tree, FiniteSets, TLC

PosTags == {"CC", "CD", "DT", "EX", "FW", "IN", "JJ", "JJR", "JJS", "LS", "MD", "NN", "NNS", "NNP", "NNPS", "PDT", "POS", "PRP", "PRP$",
            "RB", "RBR", "RBS", "RP", "SYM", "TO", "UH", "VB", "VBD", "VBG", "VBN", "VBP", "VBZ", "WDT", "WP", "WP$", "WRB", ",", "."}
PhraseTags == {"S", "SBAR", "SBARQ", "SINV", "SQ", "ADJP", "ADVP", "CONJP", "FRAG", "INTJ", "LST", "NAC", "NP", "NX", "PP", "PRN", "PRT",
               "QP", "RRC", "UCP", "VP", "WHADJP", "WHADVP", "WHNP", "WHPP", "X"}
RuleKind == [pos_rule |-> "pos", math_rule |-> "math", mtext_rule |-> "mtext", word_rule |-> "word", seq_rule |-> "seq"]

P(op, args, ch) == [op |-> op, args |-> args, ch |-> ch]
Bad == [ok |-> FALSE, p |-> P("", <<>>, <<>>), u |-> {}]
Good(p, u) == [ok |-> TRUE, p |-> p, u |-> u]
IsOneOf(t, names) == IF IsPlainAscii(t) THEN Str(t) \in names ELSE FALSE

VARIABLES inp,    \* [tree]
          todo,   \* children of the root still to be read
          defs,   \* rules in order of definition: [kind, name, summary, p]
          used,   \* {<<kind, name>>}
          meta,   \* <<>> or <<summary>>
          pc      \* "read" | "ok" | "err"
lvars == <<inp, todo, defs, used, meta, pc>>
Tr == inp.tree

----------------------------------------------------------------------------
(* nodes of the file *)
Blank(t) == \A i \in 1..Len(t) : IsWs(t[i])
HasText(i) == LET cs == TLCEval(Children(Tr, i)) IN \E j \in 1..Len(cs) : Tr[cs[j]].k = "t" /\ ~Blank(Tr[cs[j]].t)
Kids(i) == SelectSeq(Children(Tr, i), LAMBDA j : Tr[j].k \in {"e", "p"})
NoChild(i) == ~HasText(i) /\ Kids(i) = <<>>
OnlyChild(i) == ~HasText(i) /\ Len(Kids(i)) = 1
Simple(i) == Children(Tr, i) = <<>> \/ (Len(Children(Tr, i)) = 1 /\ Tr[Children(Tr, i)[1]].k = "t")
Content(i) == IF Children(Tr, i) = <<>> THEN <<>> ELSE Trim(Tr[Children(Tr, i)[1]].t)
Name(i) == Tr[i].n
Attrs(i, name) == SelectSeq(Tr[i].a, LAMBDA kv : kv.k = name)
Has(i, name) == Attrs(i, name) # <<>>
Attr(i, name) == Attrs(i, name)[1].v
Named(i, name) == SelectSeq(Kids(i), LAMBDA j : Tr[j].n = name)
Others(i, names) == SelectSeq(Kids(i), LAMBDA j : Tr[j].n \notin names)

\* the pieces between commas, trimmed; there is always at least one
RECURSIVE Pieces(_, _)
Pieces(t, acc) == IF t = <<>> THEN <<Trim(acc)>>
                  ELSE IF t[1] = 44 THEN <<Trim(acc)>> \o Pieces(Tail(t), <<>>)
                  ELSE Pieces(Tail(t), Append(acc, t[1]))
Tags(i) == IF Has(i, "tags") THEN Pieces(Attr(i, "tags"), <<>>) ELSE <<>>

----------------------------------------------------------------------------
(* the pattern that a node describes *)
RECURSIVE Load(_, _)
LoadAll(kind, is) ==
  LET rs == TLCEval([m \in 1..Len(is) |-> Load(kind, is[m])])
  IN [ok |-> \A m \in 1..Len(rs) : rs[m].ok, ps |-> TLCEval([m \in 1..Len(rs) |-> rs[m].p]), u |-> UNION {rs[m].u : m \in 1..Len(rs)}]
\* shapes shared by the kinds
AnyPat(i) == IF NoChild(i) THEN Good(P(Name(i), <<>>, <<>>), {}) ELSE Bad
RefPat(kind, i) == IF NoChild(i) /\ Has(i, "ref") THEN Good(P(Name(i), <<Attr(i, "ref")>>, <<>>), {<<kind, Attr(i, "ref")>>}) ELSE Bad
ListPat(kind, i, args) ==
  IF HasText(i) THEN Bad
  ELSE LET l == TLCEval(LoadAll(kind, Kids(i))) IN IF l.ok THEN Good(P(Name(i), args, l.ps), l.u) ELSE Bad
OnePat(kind, i, args) == IF OnlyChild(i) THEN ListPat(kind, i, args) ELSE Bad
MarkerPat(kind, i) == IF Has(i, "name") THEN OnePat(kind, i, <<Attr(i, "name")>> \o Tags(i)) ELSE Bad

LoadMathNode(i) ==
  LET texts == Named(i, "mtext_ref")   lists == Named(i, "math_children")
      t == IF texts = <<>> THEN <<>> ELSE <<RefPat("mtext", texts[1])>>
      l == IF lists = <<>> THEN <<>>
           ELSE IF Kids(lists[1]) # <<>> /\ Has(lists[1], "match_type")
                   /\ IsOneOf(Attr(lists[1], "match_type"), {"starts_with", "exact", "ends_with", "arbitrary"})
                THEN <<ListPat("math", lists[1], <<Attr(lists[1], "match_type")>>)>> ELSE <<Bad>>
      parts == TLCEval(t \o l)
  IN IF /\ ~HasText(i) /\ Len(texts) <= 1 /\ Len(lists) <= 1 /\ Others(i, {"mtext_ref", "math_children"}) = <<>>
        /\ \A m \in 1..Len(parts) : parts[m].ok
     THEN Good(P("math_node", IF Has(i, "name") THEN <<Attr(i, "name")>> ELSE <<>>, [m \in 1..Len(parts) |-> parts[m].p]),
               UNION {parts[m].u : m \in 1..Len(parts)})
     ELSE Bad
LoadMath(i) ==
  CASE Name(i) = "math_any" -> AnyPat(i)
    [] Name(i) = "math_marker" -> MarkerPat("math", i)
    [] Name(i) = "math_ref" -> RefPat("math", i)
    [] Name(i) = "math_or" -> ListPat("math", i, <<>>)
    [] Name(i) = "math_node" -> LoadMathNode(i)
    [] Name(i) = "math_descendant" ->
         IF Has(i, "match_type") /\ IsOneOf(Attr(i, "match_type"), {"first", "at_least_one", "arbitrary"})
         THEN OnePat("math", i, <<Attr(i, "match_type")>>) ELSE Bad
    [] OTHER -> Bad
LoadMText(i) ==
  CASE Name(i) = "mtext_any" -> AnyPat(i)
    [] Name(i) = "mtext_or" -> ListPat("mtext", i, <<>>)
    [] Name(i) = "mtext_lit" -> IF NoChild(i) /\ Has(i, "str") THEN Good(P("mtext_lit", <<Attr(i, "str")>>, <<>>), {}) ELSE Bad
    [] Name(i) = "mtext_not" -> OnePat("mtext", i, <<>>)
    [] Name(i) = "mtext_ref" -> RefPat("mtext", i)
    [] OTHER -> Bad
LoadPos(i) ==
  CASE Name(i) = "pos" -> IF NoChild(i) /\ Has(i, "tag") /\ IsOneOf(Attr(i, "tag"), PosTags) THEN Good(P("pos", <<Attr(i, "tag")>>, <<>>), {}) ELSE Bad
    [] Name(i) = "pos_not" -> OnePat("pos", i, <<>>)
    [] Name(i) = "pos_ref" -> RefPat("pos", i)
    [] Name(i) = "pos_or" -> ListPat("pos", i, <<>>)
    [] OTHER -> Bad
LoadWordPos(i) ==
  LET tags == Named(i, "pos")   words == Others(i, {"pos"})
  IN IF HasText(i) \/ Len(tags) # 1 \/ Len(words) # 1 THEN Bad
     ELSE IF ~OnlyChild(tags[1]) THEN Bad
     ELSE LET t == TLCEval(Load("pos", Kids(tags[1])[1]))   w == TLCEval(Load("word", words[1]))
          IN IF t.ok /\ w.ok THEN Good(P("word_pos", <<>>, <<t.p, w.p>>), t.u \cup w.u) ELSE Bad
LoadWord(i) ==
  CASE Name(i) = "word_ref" -> RefPat("word", i)
    [] Name(i) = "word_or" -> ListPat("word", i, <<>>)
    [] Name(i) = "word" -> IF Simple(i) THEN Good(P("word", <<Content(i)>>, <<>>), {}) ELSE Bad
    [] Name(i) = "word_math" -> OnePat("math", i, <<>>)
    [] Name(i) = "word_any" -> AnyPat(i)
    [] Name(i) = "word_not" -> OnePat("word", i, <<>>)
    [] Name(i) = "word_marker" -> MarkerPat("word", i)
    [] Name(i) = "word_pos" -> LoadWordPos(i)
    [] OTHER -> Bad
LoadPhrase(i) ==
  LET types == Named(i, "match_type")   starts == Named(i, "starts_with_seq")   ends == Named(i, "ends_with_seq")
      type == IF types = <<>> THEN T("longest") ELSE Content(types[1])
      contained == IF starts # <<>> /\ Has(starts[1], "containment") THEN Attr(starts[1], "containment") ELSE T("any")
      parts == TLCEval((IF starts = <<>> THEN <<>> ELSE <<OnePat("seq", starts[1], <<contained>>)>>)
                       \o (IF ends = <<>> THEN <<>> ELSE <<OnePat("seq", ends[1], <<>>)>>))
  IN IF /\ ~HasText(i) /\ Has(i, "tag") /\ IsOneOf(Attr(i, "tag"), PhraseTags)
        /\ Len(types) <= 1 /\ Len(starts) <= 1 /\ Len(ends) <= 1 /\ Others(i, {"match_type", "starts_with_seq", "ends_with_seq"}) = <<>>
        /\ (types # <<>> => Simple(types[1])) /\ IsOneOf(type, {"shortest", "longest"}) /\ IsOneOf(contained, {"any", "lessorequal"})
        /\ \A m \in 1..Len(parts) : parts[m].ok
     THEN Good(P("phrase", <<Attr(i, "tag"), type>>, [m \in 1..Len(parts) |-> parts[m].p]), UNION {parts[m].u : m \in 1..Len(parts)})
     ELSE Bad
LoadSeq(i) ==
  CASE Name(i) = "seq_ref" -> RefPat("seq", i)
    [] Name(i) = "seq_word" -> OnePat("word", i, <<>>)
    [] Name(i) = "seq_seq" -> ListPat("seq", i, <<>>)
    [] Name(i) = "phrase" -> LoadPhrase(i)
    [] Name(i) = "seq_marker" -> MarkerPat("seq", i)
    [] Name(i) = "seq_or" ->
         LET type == IF Has(i, "match_type") THEN Attr(i, "match_type") ELSE T("first")
         IN IF IsOneOf(type, {"first", "atleastone", "any", "longest"}) THEN ListPat("seq", i, <<type>>) ELSE Bad
    [] OTHER -> Bad
Load(kind, i) == CASE kind = "math" -> LoadMath(i) [] kind = "mtext" -> LoadMText(i) [] kind = "pos" -> LoadPos(i)
                   [] kind = "word" -> LoadWord(i) [] OTHER -> LoadSeq(i)

\* a meta node: at most one description
MetaOk(i) == /\ ~HasText(i) /\ Others(i, {"description"}) = <<>> /\ Len(Named(i, "description")) <= 1
             /\ \A m \in 1..Len(Named(i, "description")) : Simple(Named(i, "description")[m])
Summary(i) == IF Named(i, "description") = <<>> THEN <<>> ELSE Content(Named(i, "description")[1])
\* a rule: a name, one pattern, perhaps a meta node
RuleOk(kind, i) == /\ Has(i, "name") /\ ~HasText(i) /\ Len(Named(i, "meta")) <= 1 /\ Len(Others(i, {"meta"})) = 1
                   /\ \A m \in 1..Len(Named(i, "meta")) : MetaOk(Named(i, "meta")[m])
                   /\ Load(kind, Others(i, {"meta"})[1]).ok

----------------------------------------------------------------------------
LStart(in) == /\ inp = in /\ todo = <<>> /\ defs = <<>> /\ used = {} /\ meta = <<>> /\ pc = "start"
LInit(inputs) == \E in \in inputs : LStart(in)
Open == /\ pc = "start"
        /\ IF Name(1) # "pattern_file" \/ HasText(1) THEN pc' = "err" /\ UNCHANGED todo ELSE pc' = "read" /\ todo' = Kids(1)
        /\ UNCHANGED <<inp, defs, used, meta>>
Reading == pc = "read" /\ todo # <<>>
Cur == todo[1]
Fail == pc' = "err" /\ UNCHANGED <<inp, todo, defs, used, meta>>
IsMeta == Name(Cur) = "meta"
IsRule == Name(Cur) \in DOMAIN RuleKind
CurKind == RuleKind[Name(Cur)]
Defined(kind, name) == \E m \in 1..Len(defs) : defs[m].kind = kind /\ defs[m].name = name
CurOk == IF IsMeta THEN meta = <<>> /\ MetaOk(Cur)
         ELSE IF IsRule THEN RuleOk(CurKind, Cur) /\ ~Defined(CurKind, Attr(Cur, "name"))
         ELSE FALSE
ReadMeta == /\ Reading /\ IsMeta /\ CurOk
            /\ meta' = <<Summary(Cur)>> /\ todo' = Tail(todo) /\ UNCHANGED <<inp, defs, used, pc>>
ReadRule == /\ Reading /\ IsRule /\ CurOk
            /\ LET l == TLCEval(Load(CurKind, Others(Cur, {"meta"})[1]))
                   ms == Named(Cur, "meta")
               IN /\ defs' = Append(defs, [kind |-> CurKind, name |-> Attr(Cur, "name"),
                                           summary |-> IF ms = <<>> THEN <<>> ELSE Summary(ms[1]), p |-> l.p])
                  /\ used' = used \cup l.u
            /\ todo' = Tail(todo) /\ UNCHANGED <<inp, meta, pc>>
RejectNode == Reading /\ CurOk = FALSE /\ Fail
AtEnd == pc = "read" /\ todo = <<>>
AllDefined == \A x \in used : Defined(x[1], x[2])
Accept == AtEnd /\ AllDefined = TRUE /\ pc' = "ok" /\ UNCHANGED <<inp, todo, defs, used, meta>>
RejectUndefined == AtEnd /\ AllDefined = FALSE /\ Fail
LNext == Open \/ ReadMeta \/ ReadRule \/ RejectNode \/ Accept \/ RejectUndefined
LDone == pc \in {"ok", "err"}
FileSummary == IF meta = <<>> THEN <<>> ELSE meta[1]
----------------------------------------------------------------------------
(* C05, declaratively: what an accepted file looks like, without the order of reading *)
Unique == \A a, b \in 1..Len(defs) : a # b => defs[a].kind # defs[b].kind \/ defs[a].name # defs[b].name
RECURSIVE Refs(_)
Refs(p) == (CASE p.op = "math_ref" -> {<<"math", p.args[1]>>} [] p.op = "mtext_ref" -> {<<"mtext", p.args[1]>>} [] p.op = "pos_ref" -> {<<"pos", p.args[1]>>}
              [] p.op = "word_ref" -> {<<"word", p.args[1]>>} [] p.op = "seq_ref" -> {<<"seq", p.args[1]>>} [] OTHER -> {})
           \cup UNION {Refs(p.ch[m]) : m \in 1..Len(p.ch)}
Closed == pc = "ok" => /\ \A m \in 1..Len(defs) : Refs(defs[m].p) \subseteq {<<defs[a].kind, defs[a].name>> : a \in 1..Len(defs)}
                       /\ Unique
                       /\ Len(defs) = Len(Others(1, {"meta"}))
OrderFree == \* whether a file is accepted does not depend on the order of its rules
  LDone => LET RootKids == TLCEval(Kids(1)) IN (pc = "ok") =
    /\ Name(1) = "pattern_file" /\ ~HasText(1)
    /\ \A m \in 1..Len(RootKids) : LET i == RootKids[m] IN
         IF Name(i) = "meta" THEN MetaOk(i) /\ \A n \in 1..Len(RootKids) : n # m => Name(RootKids[n]) # "meta"
         ELSE IF Name(i) \in DOMAIN RuleKind
         THEN /\ RuleOk(RuleKind[Name(i)], i)
              /\ \A n \in 1..Len(RootKids) : (n # m /\ Name(RootKids[n]) = Name(i) /\ Has(RootKids[n], "name")) => Attr(RootKids[n], "name") # Attr(i, "name")
              /\ \A x \in Load(RuleKind[Name(i)], Others(i, {"meta"})[1]).u :
                   \E n \in 1..Len(RootKids) : LET j == RootKids[n] IN
                     Name(j) \in DOMAIN RuleKind /\ RuleKind[Name(j)] = x[1] /\ Has(j, "name") /\ Attr(j, "name") = x[2]
         ELSE FALSE
=============================================================================
