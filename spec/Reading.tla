------------------------------ MODULE Reading ------------------------------
(* Reading one node of a document: its text is split into sentences by the   *)
(* machine of Sentences.tla, every sentence into words, tokens and the words *)
(* of the tagger.  Offsets count characters of the node's text from 0.       *)
EXTENDS WordNorm, Select
VARIABLES stext, spos, sstart, swin, sraw, spc      \* the sentence machine
rvars == <<stext, spos, sstart, swin, sraw, spc>>
Se == INSTANCE Sentences WITH inp <- stext, pos <- spos, start <- sstart, lw <- swin, raw <- sraw, pc <- spc
ReadIdle == stext = [text |-> <<>>] /\ spos = 0 /\ sstart = 0 /\ swin = <<>> /\ sraw = <<>> /\ spc = "idle"
ReadText(t) == stext' = [text |-> t] /\ spos' = 0 /\ sstart' = 0 /\ swin' = <<>> /\ sraw' = <<>> /\ spc' = "scan"
ReadOn == Se!SNext
ReadOver == spc = "done"
ReadReset == stext' = [text |-> <<>>] /\ spos' = 0 /\ sstart' = 0 /\ swin' = <<>> /\ sraw' = <<>> /\ spc' = "idle"
SentencesRead == Se!SentencesOf(sraw)
\* ranges inside a range
Within(r, sub) == [x \in 1..Len(sub) |-> <<r[1] + sub[x][1], r[1] + sub[x][2]>>]
Piece(t, r) == SubSeq(t, r[1] + 1, r[2])
WordsAt(t, r) == Within(r, Wd!WordRanges(Piece(t, r)))
TokensAt(t, r) == Within(r, Wd!TokenRanges(Piece(t, r)))
\* the words of the tagger (stand-in): separated by whitespace, punctuation marks on their own
IsMark(c) == c \in {46, 44, 59, 58, 33, 63}
RECURSIVE TaggedFrom(_, _, _)
TaggedFrom(t, i, s) ==   \* s: first character of the word under way, 0 if there is none
  LET sofar == IF s = 0 THEN <<>> ELSE << <<s - 1, i - 1>> >> IN
  IF i > Len(t) THEN sofar
  ELSE IF IsWs(t[i]) THEN sofar \o TaggedFrom(t, i + 1, 0)
  ELSE IF IsMark(t[i]) THEN sofar \o << <<i - 1, i>> >> \o TaggedFrom(t, i + 1, 0)
  ELSE TaggedFrom(t, i + 1, IF s = 0 THEN i ELSE s)
TaggedAt(t, r) == Within(r, TaggedFrom(Piece(t, r), 1, 0))
TagOf(tags, x) == IF x <= Len(tags) THEN tags[x] ELSE "NN"
=============================================================================
