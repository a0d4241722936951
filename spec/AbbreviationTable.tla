-------------------------- MODULE AbbreviationTable --------------------------
(* The abbreviations after which a period does not end a sentence.  Besides   *)
(* these words, i?e, I?e, e?g and E?g with any letter in the middle count.    *)
AbbreviationWords == {
  "Adm", "Al", "Ala", "Alta", "Apr", "Arc", "Ariz", "Ark", "Assn", "Atty", "Attys", "Aug", 
  "Ave", "Bld", "Blvd", "Bros", "Cal", "Calif", "Capt", "Cf", "Cl", "Cmdr", "Co", "Col", "Colo", 
  "Conj", "Conn", "Corp", "Cpl", "Cres", "Ct", "Dak", "Dec", "Def", "Del", "Dept", "Det", 
  "Dist", "Dr", "Eq", "Eqs", "Esp", "Etc", "Exp", "Expy", "Feb", "Fed", "Fig", "Fla", "Ft", 
  "Fwy", "Fy", "Ga", "Gen", "Gov", "Hway", "Hwy", "Ia", "Id", "Ida", "Ill", "Inc", "Ind", "Is", 
  "Jan", "Jr", "Jul", "Jun", "Kan", "Kans", "Ken", "Ky", "La", "Lt", "Ltd", "Maj", "Man", "Mar", 
  "Mass", "May", "Md", "Me", "Mex", "Mich", "Minn", "Miss", "Mo", "Mont", "Mr", "Mrs", "Ms", 
  "Mt", "Neb", "Nebr", "Nev", "No", "Nov", "Oct", "Ok", "Okla", "Ont", "Ore", "Pa", "Pd", "Pde", 
  "Penn", "Penna", "Pl", "Plz", "Prof", "Que", "Rd", "Rep", "Reps", "Resp", "Rev", "Sask", 
  "Sec", "Sen", "Sens", "Sep", "Sept", "Sgt", "Sr", "St", "Supt", "Tce", "Tenn", "Tex", "Thm", 
  "USAFA", "Univ", "Ut", "Va", "Vs", "Vt", "Wash", "Wis", "Wisc", "Wy", "Wyo", "Yuk", "adm", 
  "al", "apr", "arc", "assn", "atty", "attys", "aug", "ave", "bld", "blvd", "bros", "capt", 
  "cf", "cl", "cmdr", "co", "col", "corp", "cpl", "cres", "ct", "dec", "dept", "det", "dist", 
  "dr", "eq", "eqs", "esp", "etc", "exp", "expy", "feb", "fig", "ft", "fwy", "fy", "gen", "gov", 
  "hway", "hwy", "inc", "jan", "jr", "jul", "jun", "la", "lt", "ltd", "maj", "mar", "may", "mr", 
  "mrs", "ms", "mt", "no", "nov", "oct", "pd", "pde", "pl", "plz", "prof", "rd", "rep", "reps", 
  "resp", "rev", "sec", "sen", "sens", "sep", "sept", "sgt", "sr", "st", "supt", "tce", "univ", 
  "vs" 
}
=============================================================================
