------------------------------- MODULE Chars -------------------------------
(* Characters are Unicode code points, texts are sequences of them.  The     *)
(* classes below are the specification's own statement of the classes the    *)
(* library relies on; the alphabets of the bounded models and of the harness *)
(* stay inside the code points for which they are listed (see KnownChar).    *)
EXTENDS Naturals, Sequences, CharTables

\* Unicode White_Space
IsWs(c) == \/ c \in 9..13 \/ c = 32 \/ c = 133 \/ c = 160 \/ c = 5760
           \/ c \in 8192..8202 \/ c \in {8232, 8233, 8239, 8287, 12288}
\* what str::split_ascii_whitespace splits on (no vertical tab)
IsAsciiWs(c) == c \in {9, 10, 12, 13, 32}

IsDigit(c) == c \in 48..57
\* decimal digits of any script
IsDecimal(c) == IsDigit(c) \/ c \in 1632..1641 \/ c \in 2406..2415 \/ c \in 65296..65305
IsAsciiLower(c) == c \in 97..122
IsAsciiUpper(c) == c \in 65..90
IsAsciiAlpha(c) == IsAsciiLower(c) \/ IsAsciiUpper(c)

IsAlpha(c) == IF c < 128 THEN IsAsciiAlpha(c) ELSE c \in NonAsciiAlpha
IsAlnum(c) == IF c < 128 THEN IsAsciiAlpha(c) \/ IsDigit(c)
              ELSE c \in NonAsciiAlpha \/ c \in NonAsciiNumeric
IsUpper(c) == IF c < 128 THEN IsAsciiUpper(c) ELSE c \in NonAsciiUpper
IsLower(c) == IF c < 128 THEN IsAsciiLower(c) ELSE c \in NonAsciiLower
KnownChar(c) == c < 128 \/ c \in KnownNonAscii

Utf8Len(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4

AsciiLowerOf(c) == IF IsAsciiUpper(c) THEN c + 32 ELSE c
AsciiUpperOf(c) == IF IsAsciiLower(c) THEN c - 32 ELSE c

(*************************** generic text operators ***********************)
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))

\* join with a separator text
RECURSIVE JoinWith(_, _)
JoinWith(ss, sep) ==
  IF ss = <<>> THEN <<>>
  ELSE IF Len(ss) = 1 THEN ss[1]
  ELSE ss[1] \o sep \o JoinWith(Tail(ss), sep)

\* the maximal runs of characters NOT satisfying S, as (start, end) pairs, start inclusive
\* 1-based, end inclusive
RunsOf(t, In(_)) ==
  LET starts == {i \in 1..Len(t) : In(t[i]) /\ (i = 1 \/ ~In(t[i-1]))}
      EndOf(s) == CHOOSE e \in s..Len(t) :
                     /\ \A k \in s..e : In(t[k])
                     /\ (e = Len(t) \/ ~In(t[e+1]))
      RECURSIVE Collect(_)
      Collect(i) == IF i > Len(t) THEN <<>>
                    ELSE IF i \in starts
                         THEN << <<i, EndOf(i)>> >> \o Collect(EndOf(i) + 1)
                         ELSE Collect(i + 1)
  IN Collect(1)

SplitBy(t, IsSep(_)) ==
  LET NotSep(c) == ~IsSep(c)
      rs == RunsOf(t, NotSep)
  IN [k \in 1..Len(rs) |-> SubSeq(t, rs[k][1], rs[k][2])]

SplitAsciiWs(t) == SplitBy(t, IsAsciiWs)
SplitWs(t) == SplitBy(t, IsWs)

RECURSIVE TrimStart(_)
TrimStart(t) == IF t # <<>> /\ IsWs(t[1]) THEN TrimStart(Tail(t)) ELSE t
RECURSIVE TrimEnd(_)
TrimEnd(t) == IF t # <<>> /\ IsWs(t[Len(t)]) THEN TrimEnd(SubSeq(t, 1, Len(t)-1)) ELSE t
Trim(t) == TrimEnd(TrimStart(t))

StartsWith(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
EndsWith(t, p) == Len(t) >= Len(p) /\ SubSeq(t, Len(t)-Len(p)+1, Len(t)) = p
ContainsAt(t, p, i) == i + Len(p) - 1 <= Len(t) /\ SubSeq(t, i, i+Len(p)-1) = p
Contains(t, p) == \E i \in 1..(Len(t)+1) : ContainsAt(t, p, i)

RECURSIVE Utf8LenSeq(_)
Utf8LenSeq(t) == IF t = <<>> THEN 0 ELSE Utf8Len(t[1]) + Utf8LenSeq(Tail(t))

\* texts of ASCII literals: code points of a TLC string, through the table of one-character strings
Ascii == <<"!","\"","#","$","%","&","'","(",")","*","+",",","-",".","/",
  "0","1","2","3","4","5","6","7","8","9",":",";","<","=",">","?","@",
  "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z",
  "[","\\","]","^","_","`",
  "a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
  "{","|","}","~">>
CodeOf == [s \in {Ascii[i] : i \in 1..Len(Ascii)} \cup {" ", "\n", "\t"} |->
             IF s = " " THEN 32 ELSE IF s = "\n" THEN 10 ELSE IF s = "\t" THEN 9
             ELSE (CHOOSE i \in 1..Len(Ascii) : Ascii[i] = s) + 32]
T(str) == [i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]]
\* and back, for ASCII texts
ChrOf(c) == IF c = 32 THEN " " ELSE IF c = 10 THEN "\n" ELSE IF c = 9 THEN "\t" ELSE Ascii[c - 32]
RECURSIVE Str(_)
Str(t) == IF t = <<>> THEN "" ELSE ChrOf(t[1]) \o Str(Tail(t))
IsPlainAscii(t) == \A i \in 1..Len(t) : t[i] \in 32..126 \/ t[i] \in {9, 10}
=============================================================================
