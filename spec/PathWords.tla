----------------------------- MODULE PathWords -----------------------------
(* src/util/path_helpers.rs path_to_words (and src/extern_use.rs): a line of *)
(* normalized words per sentence.                                            *)
(* inp: [kind, tree]: "doc", "rootless", or a path that is no document.      *)
EXTENDS Reading
VARIABLES inp, para, at, buffer, out, pc
pwvars == <<rvars, inp, para, at, buffer, out, pc>>
PWStart(x) == inp = x /\ para = 0 /\ at = 1 /\ buffer = <<>> /\ out = <<>> /\ pc = "next" /\ ReadIdle
Paras == IF inp.kind = "doc" THEN Paragraphs(inp.tree) ELSE <<>>
ShownPara == Shown(inp.tree, Paras[para])
NextParagraph == /\ pc = "next" /\ para < Len(Paras) /\ para' = para + 1
                 /\ ReadText(CharsOf(Shown(inp.tree, Paras[para + 1])))
                 /\ buffer' = <<>> /\ at' = 1 /\ pc' = "split" /\ UNCHANGED <<inp, out>>
Split == pc = "split" /\ ~ReadOver /\ ReadOn /\ UNCHANGED <<inp, para, at, buffer, out, pc>>
SplitOver == pc = "split" /\ ReadOver /\ pc' = "lines" /\ UNCHANGED <<rvars, inp, para, at, buffer, out>>
\* the words of the sentence under way
SentenceWords == LET s == ShownPara
                     r == SentencesRead[at]
                     ws == WordsAt(CharsOf(s), r)
                 IN TLCEval([x \in 1..Len(ws) |-> NormalWord(inp.tree, SubSeq(s, ws[x][1] + 1, ws[x][2]), FALSE, FALSE)])
LineOf(ws) == IF ws = <<>> THEN <<>> ELSE Append(Flatten([x \in 1..Len(ws) |-> Append(ws[x].word, 32)]), 10)
Overlong(ws) == \E x \in 1..Len(ws) : ~ws[x].ok
Sentence == /\ pc = "lines" /\ at <= Len(SentencesRead) /\ ~Overlong(SentenceWords)
            /\ buffer' = buffer \o LineOf(SentenceWords) /\ at' = at + 1 /\ UNCHANGED <<rvars, inp, para, out, pc>>
\* a paragraph with a word that is too long contributes nothing
DropParagraph == /\ pc = "lines" /\ at <= Len(SentencesRead) /\ Overlong(SentenceWords)
                 /\ pc' = "next" /\ UNCHANGED <<rvars, inp, para, at, buffer, out>>
KeepParagraph == /\ pc = "lines" /\ at > Len(SentencesRead)
                 /\ out' = out \o buffer /\ pc' = "next" /\ UNCHANGED <<rvars, inp, para, at, buffer>>
Over == pc = "next" /\ para = Len(Paras) /\ pc' = "done" /\ UNCHANGED <<rvars, inp, para, at, buffer, out>>
PWNext == NextParagraph \/ Split \/ SplitOver \/ Sentence \/ DropParagraph \/ KeepParagraph \/ Over
----------------------------------------------------------------------------
(* C22 *)
\* the output is lines; each is words with one blank behind each
OutputIsLines == /\ (out # <<>> => out[Len(out)] = 10)
                 /\ \A i \in 1..Len(out) : out[i] = 10 => i > 1 /\ out[i - 1] = 32
=============================================================================
