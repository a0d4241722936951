-------------------------------- MODULE Plot --------------------------------
(* src/util/plot.rs plot_simple: a list of keys with counts becomes the      *)
(* script of a plotting program that draws one picture.                      *)
(* inp: [entries : <<[k, c]>>, xl, yl, title, path : texts]                  *)
(* The texts pass through string literals of the plotting language: they are *)
(* quoted character by character and read back the same way.                 *)
EXTENDS Chars, Integers, TLC
VARIABLES inp,
          n,      \* next entry
          drawn,  \* the points so far: <<key, count whose binary logarithm is the height>>
          part,   \* the text under way: index into Parts
          at,     \* next character of it
          quoted, \* its literal so far
          sent,   \* the literals of the script
          read,   \* the texts the plotting program reads
          pc
plvars == <<inp, n, drawn, part, at, quoted, sent, read, pc>>
Parts == <<inp.path, inp.xl, inp.yl, inp.title>>
PLStart(x) == inp = x /\ n = 1 /\ drawn = <<>> /\ part = 1 /\ at = 1 /\ quoted = <<>> /\ sent = <<>> /\ read = <<>> /\ pc = "points"
DrawPoint == /\ pc = "points" /\ n <= Len(inp.entries)
             /\ drawn' = Append(drawn, <<inp.entries[n].k, inp.entries[n].c>>) /\ n' = n + 1
             /\ UNCHANGED <<inp, part, at, quoted, sent, read, pc>>
PointsDone == pc = "points" /\ n > Len(inp.entries) /\ pc' = "quote" /\ UNCHANGED <<inp, n, drawn, part, at, quoted, sent, read>>
\* writing a literal
Backslash == 92
Quoted(c) == CASE c = Backslash -> <<92, 92>> [] c = 34 -> <<92, 34>> [] c = 10 -> <<92, 110>> [] c = 9 -> <<92, 116>> [] OTHER -> <<c>>
QuoteCharacter == /\ pc = "quote" /\ part <= 4 /\ at <= Len(Parts[part])
                  /\ quoted' = quoted \o Quoted(Parts[part][at]) /\ at' = at + 1
                  /\ UNCHANGED <<inp, n, drawn, part, sent, read, pc>>
QuoteEnd == /\ pc = "quote" /\ part <= 4 /\ at > Len(Parts[part])
            /\ sent' = Append(sent, quoted) /\ quoted' = <<>> /\ at' = 1 /\ part' = part + 1
            /\ UNCHANGED <<inp, n, drawn, read, pc>>
SendScript == pc = "quote" /\ part > 4 /\ part' = 1 /\ pc' = "read" /\ UNCHANGED <<inp, n, drawn, at, quoted, sent, read>>
\* reading a literal: the plotting program
Unquoted(c) == CASE c = 110 -> 10 [] c = 116 -> 9 [] OTHER -> c
RECURSIVE ReadLiteral(_, _)
ReadLiteral(l, p) == IF p > Len(l) THEN <<>>
                     ELSE IF l[p] = Backslash /\ p < Len(l) THEN <<Unquoted(l[p + 1])>> \o ReadLiteral(l, p + 2)
                     ELSE <<l[p]>> \o ReadLiteral(l, p + 1)
ReadText == /\ pc = "read" /\ part <= 4 /\ read' = Append(read, ReadLiteral(sent[part], 1)) /\ part' = part + 1
            /\ UNCHANGED <<inp, n, drawn, at, quoted, sent, pc>>
Shown == pc = "read" /\ part > 4 /\ pc' = "done" /\ UNCHANGED <<inp, n, drawn, part, at, quoted, sent, read>>
PLNext == DrawPoint \/ PointsDone \/ QuoteCharacter \/ QuoteEnd \/ SendScript \/ ReadText \/ Shown
----------------------------------------------------------------------------
(* C28 *)
OnePointPerEntry == /\ Len(drawn) = n - 1
                    /\ \A i \in 1..Len(drawn) : drawn[i] = <<inp.entries[i].k, inp.entries[i].c>>
AllDrawn == pc = "done" => Len(drawn) = Len(inp.entries)
TextsArrive == \A i \in 1..Len(read) : read[i] = Parts[i]
\* no literal ends early or runs over the line
LiteralsClosed == \A i \in 1..Len(sent) : \A p \in 1..Len(sent[i]) :
                    /\ sent[i][p] # 10
                    /\ sent[i][p] = 34 => p > 1 /\ sent[i][p - 1] = Backslash
Drawn == (pc = "points") ~> (pc = "done")
=============================================================================
