//! Sentence splitting (C13)
use crate::common::*;
use crate::driver::*;
use llamapun::tokenizer::Tokenizer;
use serde_json::{json, Value};

pub fn area() -> Area { Area { name: "sentences", gen, exec } }

thread_local! { static TOKENIZER: Tokenizer = Tokenizer::default(); }

fn exec(input: &Value) -> Value {
  let text = text(&input["text"]);
  let dnm = text_dnm(&text);
  TOKENIZER.with(|t| {
    let ranges: Vec<Value> =
      t.sentences(&dnm).iter().map(|r| json!({"s": r.start, "e": r.end, "text": cps(r.get_plaintext())})).collect();
    json!({"status": "ok", "ranges": ranges})
  })
}

const ABBREVIATIONS: [&str; 40] = [
  "Eq", "Eqs", "Fig", "cf", "i.e", "e.g", "Prof", "Dr", "et al", "al", "resp", "Thm", "Sec", "Ref", "vs", "Mr", "St", "Co", "Corp", "Univ", "U.S", "Jan", "p",
  "I", "A", "é", "iXe", "eég", "Expy", "USAFA", "Que", "P-aXs", "Wash", "Figs", "Eqn", "mathformula", "x mathformula", "capt", "Md", "3a",
];
const WORDS: [&str; 34] = [
  "we", "prove", "The", "Then", "Hence", "theorem", "Theorem", "mathformula", "MathFormula", "mathformulas", "Noether", "foobaR", "x", "X", "I", "naïve", "Écoles",
  "ßx", "été", "Supercalifragilisticexpialidocious", "supercalifragilisticexpiAlidocious", "3", "42nd", "(i)", "[?]", "(!)", "{?}", "'?'", "\"!\"", "“q”", "‘T’",
  "\u{212a}now", "ǅx", "λ",
];
const STOPS: [&str; 16] = [". ", ".", ": ", ":", ".' ", ".'\n", "? ", "?", "! ", "?!", "... ", ". *", ". \"", ".(", ".\u{2003}", "?)"];
const GAPS: [&str; 11] = [" ", " ", " ", "\n", "\n\n", "\n \n", "\n\n\n  ", "\u{a0}", ", ", "'", "\t"];

/// one representative of every kind of thing the splitter tells apart
const UNITS: [&str; 44] = [
  "mathformula", "mathformula", "mathformula", "Mathformula", "MathFormulA", "The", "the", "al", "Fig", "i.e", "I", "x", "X", "é", "É", "É", "ǅ", "Noether", "Écoles", "naïve", "fooB", "foobÉ", "3",
  "\n", "\n", "\n\n", "\n\n\u{2003}", "\n\u{a0}\n", " ", " ", "\u{a0}", "\u{2028}", "'", "\"", "(", ")", "[", "]", "*", ".", ":", "?", "!", "\u{301}",
];
/// the words after which a period does not end a sentence
const ALL_ABBREVIATIONS: &str = "Adm Al Ala Alta Apr Arc Ariz Ark Assn Atty Attys Aug Ave Bld Blvd Bros Cal Calif Capt Cf Cl Cmdr Co Col Colo Conj Conn Corp Cpl Cres Ct Dak Dec Def Del Dept Det Dist Dr Eq Eqs Esp Etc Exp Expy Feb Fed Fig Fla Ft Fwy Fy Ga Gen Gov Hway Hwy Ia Id Ida Ill Inc Ind Is Jan Jr Jul Jun Kan Kans Ken Ky La Lt Ltd Maj Man Mar Mass May Md Me Mex Mich Minn Miss Mo Mont Mr Mrs Ms Mt Neb Nebr Nev No Nov Oct Ok Okla Ont Ore Pa Pd Pde Penn Penna Pl Plz Prof Que Rd Rep Reps Resp Rev Sask Sec Sen Sens Sep Sept Sgt Sr St Supt Tce Tenn Tex Thm USAFA Univ Ut Va Vs Vt Wash Wis Wisc Wy Wyo Yuk adm al apr arc assn atty attys aug ave bld blvd bros capt cf cl cmdr co col corp cpl cres ct dec dept det dist dr eq eqs esp etc exp expy feb fig ft fwy fy gen gov hway hwy inc jan jr jul jun la lt ltd maj mar may mr mrs ms mt no nov oct pd pde pl plz prof rd rep reps resp rev sec sen sens sep sept sgt sr st supt tce univ vs";

fn gen(g: &mut Gen) {
  for _ in 0..g.amount(1200, 16000) {
    let mut text = String::new();
    for _ in 0..g.range(2, 8) { text.push_str(g.pick(&UNITS)) }
    g.push(json!({"text": cps(&text)}));
  }
  // the word after a break is read up to a limit
  for n in 6..13 {
    for s in ["x. X", "x.  x", "x: É", "\n\n", "\n\nX"] {
      g.push(json!({"text": cps(&format!("{s}{}mathformulaXy z", "q".repeat(n)))}));
    }
  }
  for a in ALL_ABBREVIATIONS.split(' ') {
    g.push(json!({"text": cps(&format!("see {a}. Noether"))}));
    // words that are nearly one: a letter less or more, another case
    let mut near: Vec<String> = (0..a.len()).map(|i| format!("{}{}", &a[..i], &a[i + 1..])).collect();
    near.extend((2..a.len() - 1).map(|i| a[..i].to_string()));
    near.extend(["s", "x", "e", "t"].iter().map(|e| format!("{a}{e}")));
    near.extend([format!("x{a}"), a.to_uppercase(), a.to_lowercase(), format!("{}{}", a[..1].to_uppercase(), &a[1..])]);
    near.dedup();
    let text: String = near.iter().map(|n| format!("see {n}. Noether ")).collect();
    g.push(json!({"text": cps(&text)}));
  }
  for _ in 0..g.amount(1200, 16000) {
    let mut text = String::new();
    let long = g.chance(1);
    if g.chance(15) {
      text = raw_text(g, if long { 300 } else { 40 });
    } else {
      for _ in 0..if long { g.range(25, 60) } else { g.range(0, 12) } {
        match g.below(10) {
          0 | 1 | 2 => { text.push_str(g.pick(&ABBREVIATIONS)); text.push_str(g.pick(&STOPS)); },
          3 => { text.push_str(g.pick(&STOPS)) },
          4 => { text.push_str(&raw_text(g, 3)) },
          _ => { text.push_str(g.pick(&WORDS)); text.push_str(if g.chance(30) { *g.pick(&STOPS) } else { *g.pick(&GAPS) }); },
        }
      }
    }
    g.push(json!({"text": cps(&text)}));
  }
  // every abbreviation in every position that matters
  for a in ABBREVIATIONS {
    for s in [". ", ": ", ".", ".\n\n", ".' "] {
      for w in ["Noether", "The", "mathformula", "we", "3", "(x", "Mathformula"] {
        if g.thorough || g.chance(35) { g.push(json!({"text": cps(&format!("see {a}{s}{w} end"))})) }
      }
    }
  }
}
