----------------------------- MODULE LanguageMC -----------------------------
(* All verdicts on texts of up to MaxPieces pieces; all parameters.          *)
EXTENDS Language, TraceIO
CONSTANTS Pieces, MaxPieces, Confidences
VARIABLES made
mvars == <<lgvars, made>>
Flags == [ws : BOOLEAN, wrap : BOOLEAN, uni : BOOLEAN, stem : BOOLEAN, full : BOOLEAN, lower : BOOLEAN, back : BOOLEAN]
Verdicts == {[known |-> FALSE, lang |-> "Eng", script |-> "Latin", conf |-> 0]}
            \cup {[known |-> TRUE, lang |-> l, script |-> s, conf |-> c] : l \in {"Eng", "Deu", "Fra"}, s \in {"Latin", "Cyrillic"}, c \in Confidences}
MInit == /\ made = <<>> /\ inp = [kind |-> "none"] /\ pos = 1 /\ left = <<>> /\ verdict = "none" /\ warnings = 0 /\ pc = "grow"
Piece(p) == IF p = "accent" THEN <<233>> ELSE T(p)
AddPiece == pc = "grow" /\ Len(made) < MaxPieces /\ \E p \in Pieces : made' = Append(made, p) /\ UNCHANGED lgvars
GoText == /\ pc = "grow" /\ \E v \in Verdicts : inp' = [kind |-> "text", text |-> Flatten([i \in 1..Len(made) |-> Piece(made[i])]), verdict |-> v] /\ EmitInput(inp')
          /\ pc' = "strip" /\ UNCHANGED <<pos, left, verdict, warnings, made>>
GoCheck == /\ pc = "grow" /\ made = <<>> /\ \E f \in Flags, r \in BOOLEAN : inp' = [kind |-> "check", par |-> f, rules |-> r] /\ EmitInput(inp')
           /\ pc' = "check" /\ UNCHANGED <<pos, left, verdict, warnings, made>>
MNext == AddPiece \/ GoText \/ GoCheck \/ (LGNext /\ UNCHANGED made)
MSpec == MInit /\ [][MNext]_mvars /\ WF_mvars(LGNext /\ UNCHANGED made)
=============================================================================
