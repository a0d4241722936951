------------------------------- MODULE AmsMC -------------------------------
(* A theorem-like class grows token by token.  Checked at every class: a     *)
(* class names an environment exactly when it should, and adding further     *)
(* tokens behind a named environment does not change it.  A heading with a   *)
(* fixed title is shown by exactly its label.                                *)
EXTENDS Ams, TraceIO
CONSTANTS MaxTokens, Tokens
VARIABLES class, env, names
mvars == <<class, env, names>>
MInit == class = <<>> /\ env = "" /\ names = 0
Add == /\ names < MaxTokens
       /\ \E w \in Tokens, sep \in {<<>>, <<32>>} :
            /\ class' = class \o sep \o T(w) /\ env' = ClassEnv(class') /\ names' = names + 1
            /\ EmitInput([kind |-> "class", text |-> class'])
MSpec == MInit /\ [][Add]_mvars
Exactly == (env # "") <=> (class = T("ltx_proof") \/ Contains(class, T("ltx_theorem")))
Known == env \in EnvNames \cup {""}
\* once a complete name is followed by a blank, it stays
Kept == [][(NamesAt(class) # {} /\ \E p \in NamesAt(class) : (\A r \in NamesAt(class) : p <= r) /\ WordEnd(class, p + 12) <= Len(class)) => env' = env]_mvars
LabelsShown == \A i \in 1..Len(Structural) : HeadingEnv(T(Structural[i][2])) = Structural[i]
ASSUME LabelsShown
ASSUME \A i \in 1..Len(EnvKeys) : \A n \in EnvKeys[i].keys : EnvNamed(T(n)) = EnvKeys[i].env
=============================================================================
