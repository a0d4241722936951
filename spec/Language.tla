------------------------------ MODULE Language ------------------------------
(* The language filter (src/util/data_helpers.rs invalid_for_english_latin)  *)
(* and the parameter check (src/dnm/parameters.rs DNMParameters::check).     *)
(* inp: [kind, text, verdict, par]                                           *)
(*   kind "text": a text; verdict: what the detector would say about it,     *)
(*     [known, lang, script, conf]: confidence in 1/10000                    *)
(*   kind "check": parameters, [par: flags, rules: which tables are filled]  *)
EXTENDS Chars, TLC
VARIABLES inp, pos, left, verdict, warnings, pc
lgvars == <<inp, pos, left, verdict, warnings, pc>>
Placeholders == <<T("mathformula"), T("CitationElement"), T("REF")>>
LGStart(x) == inp = x /\ pos = 1 /\ left = <<>> /\ verdict = "none" /\ warnings = 0 /\ pc = IF x.kind = "text" THEN "strip" ELSE "check"
Txt == inp.text
At(p) == {m \in 1..3 : ContainsAt(Txt, Placeholders[m], p)}
\* the text without its placeholders
DropPlaceholder == /\ pc = "strip" /\ pos <= Len(Txt) /\ At(pos) # {}
                   /\ pos' = pos + Len(Placeholders[CHOOSE m \in At(pos) : TRUE]) /\ left' = Append(left, 32)
                   /\ UNCHANGED <<inp, verdict, warnings, pc>>
KeepCharacter == /\ pc = "strip" /\ pos <= Len(Txt) /\ At(pos) = {}
                 /\ pos' = pos + 1 /\ left' = Append(left, Txt[pos]) /\ UNCHANGED <<inp, verdict, warnings, pc>>
Stripped == pc = "strip" /\ pos > Len(Txt) /\ pc' = "detect" /\ UNCHANGED <<inp, pos, left, verdict, warnings>>
\* the detector: nothing to say about a text without letters
Detectable == inp.verdict.known /\ \E i \in 1..Len(left) : IsAlpha(left[i])
Undetected == pc = "detect" /\ ~Detectable /\ verdict' = "valid" /\ pc' = "done" /\ UNCHANGED <<inp, pos, left, warnings>>
WrongScript == pc = "detect" /\ Detectable /\ inp.verdict.script # "Latin" /\ verdict' = "invalid" /\ pc' = "done" /\ UNCHANGED <<inp, pos, left, warnings>>
English == /\ pc = "detect" /\ Detectable /\ inp.verdict.script = "Latin" /\ inp.verdict.lang = "Eng"
           /\ verdict' = "valid" /\ pc' = "done" /\ UNCHANGED <<inp, pos, left, warnings>>
Foreign == /\ pc = "detect" /\ Detectable /\ inp.verdict.script = "Latin" /\ inp.verdict.lang # "Eng"
           /\ verdict' = (IF inp.verdict.conf > 9300 THEN "invalid" ELSE "valid") /\ pc' = "done" /\ UNCHANGED <<inp, pos, left, warnings>>
\* the check of parameters only counts what it warns about
Stemming == inp.par.stem \/ inp.par.full
Check == /\ pc = "check" /\ pc' = "done"
         /\ warnings' = (IF inp.par.stem /\ inp.par.full THEN 1 ELSE 0) + (IF Stemming /\ inp.par.lower THEN 1 ELSE 0) + (IF Stemming /\ inp.par.back THEN 1 ELSE 0)
         /\ UNCHANGED <<inp, pos, left, verdict>>
LGNext == DropPlaceholder \/ KeepCharacter \/ Stripped \/ Undetected \/ WrongScript \/ English \/ Foreign \/ Check
\* the words the detector sees
SeenWords == SplitWs(left)
----------------------------------------------------------------------------
(* C27 *)
EnglishNeverRejected == pc = "done" /\ inp.kind = "text" /\ inp.verdict.lang = "Eng" /\ inp.verdict.script = "Latin" => verdict = "valid"
RejectedOnlyIf == verdict = "invalid" => /\ inp.verdict.known
                                         /\ (inp.verdict.script # "Latin" \/ (inp.verdict.lang # "Eng" /\ inp.verdict.conf > 9300))
\* a text of placeholders only is never rejected; and nothing that is left is a placeholder
NothingLeft == pc = "done" /\ inp.kind = "text" => \A p \in 1..Len(left) : \A m \in 1..3 : ~ContainsAt(left, Placeholders[m], p)
CheckNeverFails == (pc = "check") ~> (pc = "done")
CheckKeepsParameters == [][inp' = inp \/ pc = "grow"]_lgvars
=============================================================================
