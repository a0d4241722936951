---------------------------- MODULE ResourcesMC ----------------------------
EXTENDS Resources, TraceIO
CONSTANTS Names, MaxFiles
VARIABLES fs
mvars == <<rsvars, fs>>
MInit == fs = <<>> /\ inp = [root |-> FALSE, files |-> <<>>] /\ stack = {} /\ listed = <<>> /\ pc = "grow"
Kinds(nm) == IF DotOf(T(nm)) # 0 /\ Extension(T(nm)) \in {T("html"), T("xhtml")} THEN {"f", "d", "l"} ELSE {"f", "d", "ld"}
AddFile == /\ pc = "grow" /\ Len(fs) < MaxFiles
           /\ \E nm \in Names : \E kind \in Kinds(nm), p \in {0} \cup {i \in 1..Len(fs) : fs[i].k = "d"} :
                /\ ~\E i \in 1..Len(fs) : fs[i].p = p /\ fs[i].n = T(nm)
                /\ fs' = Append(fs, [p |-> p, n |-> T(nm), k |-> kind])
           /\ UNCHANGED rsvars
Go == /\ pc = "grow" /\ \E r \in (IF fs = <<>> THEN BOOLEAN ELSE {TRUE}) : inp' = [root |-> r, files |-> fs] /\ EmitInput(inp')
      /\ stack' = (IF inp'.root THEN {j \in 1..Len(fs) : fs[j].p = 0} ELSE {}) /\ pc' = "walk" /\ UNCHANGED <<listed, fs>>
MNext == AddFile \/ Go \/ (RSNext /\ UNCHANGED fs)
MSpec == MInit /\ [][MNext]_mvars /\ WF_mvars(RSNext /\ UNCHANGED fs)
=============================================================================
