------------------------------ MODULE FromStrMC ------------------------------
EXTENDS FromStr, TraceIO
CONSTANT MaxChunks
Chunks == {T("ab "), T("NUM "), T("x_y "), T("_"), T("\n"), T("NUM"), T(" "), <<233>>, T(". ")}
P(w, r, u, s, f, l, b) == [ws |-> w, wrap |-> r, uni |-> u, stem |-> s, full |-> f, lower |-> l, back |-> b]
Pars == {P(TRUE, FALSE, FALSE, FALSE, FALSE, FALSE, TRUE), P(FALSE, TRUE, TRUE, FALSE, FALSE, TRUE, TRUE)}
\* the text grows before it is used
MCInit == \E p \in Pars : \E c \in {"str", "ams"} :
            /\ src = [call |-> c, text |-> <<>>, names |-> <<>>, classes |-> <<>>, par |-> p] /\ pc = "grow0"
            /\ rest = <<>> /\ acc = <<>> /\ at = 0 /\ open = <<>> /\ out = <<>> /\ ws = TRUE /\ map = [i \in {} |-> <<>>]
            /\ inp = [tree |-> <<>>, root |-> 1, names |-> <<>>, classes |-> <<>>, par |-> p]
Grown == {"grow0", "grow1", "grow2", "grow3", "grow4", "grow5"}
Up == [s \in Grown |-> CASE s = "grow0" -> "grow1" [] s = "grow1" -> "grow2" [] s = "grow2" -> "grow3" [] s = "grow3" -> "grow4" [] OTHER -> "grow5"]
Level == CASE pc = "grow0" -> 0 [] pc = "grow1" -> 1 [] pc = "grow2" -> 2 [] pc = "grow3" -> 3 [] pc = "grow4" -> 4 [] OTHER -> 5
Grow == /\ pc \in Grown /\ Level < MaxChunks /\ \E c \in Chunks : src' = [src EXCEPT !.text = @ \o c]
        /\ pc' = Up[pc] /\ UNCHANGED <<inp, at, open, out, ws, map, rest, acc>>
Begin == /\ pc \in Grown /\ pc' = (IF src.call = "ams" THEN "lines" ELSE "build") /\ rest' = src.text /\ at' = 1
         /\ UNCHANGED <<inp, open, out, ws, map, src, acc>>
MCSpec == MCInit /\ [][Grow \/ Begin \/ FNext \/ (PDone /\ UNCHANGED fvars)]_fvars
EndsNum(w) == Len(w) > 3 /\ EndsWith(w, T("NUM")) /\ ~Lexeme(w)
\* words that merely end in NUM are outside the format
Sane == \A j \in 1..Len(Tokens(src.text)) : ~EndsNum(Tokens(src.text)[j])
Emit == (pc \in {"lines", "build"} /\ at = 1 /\ rest = src.text /\ acc = <<>> /\ Sane /\ (src.call = "ams" \/ pc = "build")
         /\ ~(src.call = "ams" /\ pc = "build")) => EmitInput(src)
=============================================================================
