----------------------------- MODULE TokenModel -----------------------------
(* src/util/token_model.rs extract: the token model of a corpus.             *)
(* Every document is read on its own: a machine with one step per token      *)
(* fills its block of lines and its counts.  The blocks go to one file, in   *)
(* the order in which the documents' workers take the lock (TokenWriters.tla *)
(* is the model of that part); the counts are added up.                      *)
(* inp: [docs, drop], a document is [kind, tree, rep]: kind "doc", "rootless"*)
(* or "none" (no document); its body occurs rep times.                       *)
EXTENDS WordNorm, Select
VARIABLES inp,
          doc,     \* document under way
          para,    \* index of the paragraph in the document's list
          todo,    \* tokens of the paragraph that are still to be read
          line,    \* what the paragraph has given so far
          lines,   \* lines of the document
          counts,  \* totals, of this and the earlier documents
          blocks,  \* finished documents: [lines, rep], the lines occur rep times
          pc       \* "doc" | "para" | "token" | "done"
tmvars == <<inp, doc, para, todo, line, lines, counts, blocks, pc>>

NoCounts == [document_count |-> 0, paragraph_count |-> 0, word_count |-> 0, overflow_count |-> 0, formula_count |-> 0, citation_count |-> 0, num_count |-> 0]
Plus(c, key, n) == [c EXCEPT ![key] = @ + n]
TMStart(x) == inp = x /\ doc = 1 /\ para = 0 /\ todo = <<>> /\ line = <<>> /\ lines = <<>> /\ counts = NoCounts /\ blocks = <<>> /\ pc = "doc"
D == inp.docs[doc]
\* (a body that occurs several times holds nothing but ordinary paragraphs)
RepeatedBodyIsPlain == \A i \in 1..Len(inp.docs) : inp.docs[i].rep > 1 => Extended(inp.docs[i].tree) = Paragraphs(inp.docs[i].tree)
Listed == IF D.kind = "doc" THEN Extended(D.tree) ELSE <<>>
OpenDocument == /\ pc = "doc" /\ doc <= Len(inp.docs)
                /\ IF D.kind = "none" THEN doc' = doc + 1 /\ blocks' = Append(blocks, [lines |-> <<>>, rep |-> 1]) /\ UNCHANGED <<counts, pc, para>>
                   ELSE counts' = Plus(counts, "document_count", 1) /\ pc' = "para" /\ para' = 1 /\ UNCHANGED <<doc, blocks>>
                /\ lines' = <<>> /\ UNCHANGED <<inp, todo, line>>
OpenParagraph == /\ pc = "para" /\ para <= Len(Listed)
                 /\ todo' = TLCEval(TokensIn(Shown(D.tree, Listed[para])))
                 /\ counts' = Plus(counts, "paragraph_count", D.rep) /\ line' = <<>> /\ pc' = "token"
                 /\ UNCHANGED <<inp, doc, para, lines, blocks>>
KindOf(s) == LET w == LowerWord(CharsOf(s)) IN
             IF Utf8LenSeq(w) > MaxWord THEN "overflow_count" ELSE IF Contains(w, FormulaWord) THEN "formula_count"
             ELSE IF Contains(w, CitationWord) THEN "citation_count" ELSE IF IsNumber(w) THEN "num_count" ELSE "word_count"
\* a token that is too long ends its paragraph, which gives no line
TooLong == /\ pc = "token" /\ todo # <<>> /\ KindOf(todo[1]) = "overflow_count"
           /\ counts' = Plus(counts, "overflow_count", D.rep) /\ para' = para + 1 /\ pc' = "para"
           /\ UNCHANGED <<inp, doc, todo, line, lines, blocks>>
ReadToken == /\ pc = "token" /\ todo # <<>> /\ KindOf(todo[1]) # "overflow_count"
             /\ counts' = Plus(counts, KindOf(todo[1]), D.rep)
             /\ line' = line \o NormalWord(D.tree, todo[1], TRUE, inp.drop).word \o <<32>>
             /\ todo' = Tail(todo) /\ UNCHANGED <<inp, doc, para, lines, blocks, pc>>
EndParagraph == /\ pc = "token" /\ todo = <<>>
                /\ lines' = Append(lines, line) /\ para' = para + 1 /\ pc' = "para"
                /\ UNCHANGED <<inp, doc, todo, line, counts, blocks>>
Times(s, n) == [i \in 1..(n * Len(s)) |-> s[((i - 1) % Len(s)) + 1]]
EndDocument == /\ pc = "para" /\ para > Len(Listed)
               /\ blocks' = Append(blocks, [lines |-> lines, rep |-> D.rep]) /\ doc' = doc + 1 /\ pc' = "doc"
               /\ UNCHANGED <<inp, para, todo, line, lines, counts>>
EndCorpus == pc = "doc" /\ doc > Len(inp.docs) /\ pc' = "done" /\ UNCHANGED <<inp, doc, para, todo, line, lines, counts, blocks>>
TMNext == OpenDocument \/ OpenParagraph \/ TooLong \/ ReadToken \/ EndParagraph \/ EndDocument \/ EndCorpus

\* the file, as its lines: all blocks, each in one piece, in any order
Remove(bs, i) == SubSeq(bs, 1, i - 1) \o SubSeq(bs, i + 1, Len(bs))
RECURSIVE Arranged(_, _)
Arranged(file, bs) ==
  IF bs = <<>> THEN file = <<>>
  ELSE \E i \in 1..Len(bs) : /\ \A j \in 1..(i - 1) : bs[j] # bs[i]       \* equal blocks are interchangeable
                             /\ StartsWith(file, bs[i])
                             /\ Arranged(SubSeq(file, Len(bs[i]) + 1, Len(file)), Remove(bs, i))
Written == LET some == SelectSeq(blocks, LAMBDA b : b.lines # <<>>) IN [i \in 1..Len(some) |-> TLCEval(Times(some[i].lines, some[i].rep))]
----------------------------------------------------------------------------
(* C17 *)
LinesIn == LET RECURSIVE Sum(_)
               Sum(i) == IF i = 0 THEN 0 ELSE Len(blocks[i].lines) * blocks[i].rep + Sum(i - 1)
           IN Sum(Len(blocks))
\* every paragraph is either a line or an overflow
ParagraphsAccounted == pc = "done" => LinesIn + counts.overflow_count = counts.paragraph_count
\* a line consists of tokens without blanks inside (the lexemes of a formula are several), each followed by one blank
LinesWellFormed == \A i \in 1..Len(lines) : lines[i] = <<>> \/ (lines[i][Len(lines[i])] = 32 /\ \A m \in 1..Len(lines[i]) : lines[i][m] \notin {9, 10, 13})
\* without formulas every counted token is one blank-terminated piece of a line or of a paragraph left out
Blanks(t) == Len(SelectSeq(t, LAMBDA c : c = 32))
TokensAccounted == (pc = "done" /\ counts.formula_count = 0 /\ counts.overflow_count = 0) =>
  LET RECURSIVE Sum(_, _)
      Sum(i, j) == IF i > Len(blocks) THEN 0 ELSE IF j > Len(blocks[i].lines) THEN Sum(i + 1, 1) ELSE blocks[i].rep * Blanks(blocks[i].lines[j]) + Sum(i, j + 1)
  IN Sum(1, 1) = counts.word_count + counts.citation_count + counts.num_count
=============================================================================
