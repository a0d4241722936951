//! Headings and environments (C19, C20)
use crate::common::*;
use crate::driver::*;
use llamapun::ams::{self, AmsEnv, StructuralEnv};
use llamapun::util::data_helpers::normalize_heading_title;
use llamapun::{data, parallel_data};
use serde_json::{json, Value};

pub fn area() -> Area { Area { name: "ams", gen, exec } }

macro_rules! all { ($t:ident: $($v:ident),*) => { vec![$(json!([format!("{:?}", $t::$v), cps(&$t::$v.to_string())])),*] } }
fn labels() -> Value {
  let ams = all![AmsEnv: Acknowledgement, Algorithm, Answer, Affirmation, Assumption, Bound, Caption, Case, Claim, Comment, Conclusion, Condition, Conjecture, Constraint, Convention, Corollary, Criterion, Definition, Demonstration, Discussion, Example, Experiment, Expansion, Expectation, Explanation, Fact, Hint, Issue, Keywords, Lemma, Notation, Note, Notice, Observation, Paragraph, Principle, Problem, Proof, Proposition, Question, Remark, Result, Rule, Solution, Step, Summary, Theorem, Other];
  let structural = all![StructuralEnv: Abstract, Acknowledgement, Analysis, Application, Assumption, Background, Case, Caption, Claim, Conclusion, Condition, Conjecture, Contribution, Corollary, Data, Dataset, Definition, Demonstration, Description, Discussion, Example, Experiment, Fact, FutureWork, Implementation, Introduction, Lemma, Methods, Model, Motivation, Notation, Observation, Other, Preliminaries, Problem, Proof, Property, Proposition, Question, RelatedWork, Remark, Result, Simulation, Step, Summary, Theorem, Theory];
  json!({"status": "ok", "ams": ams, "structural": structural})
}
thread_local! { static SEQ: data::Corpus = data::Corpus::default(); }

fn exec(input: &Value) -> Value {
  let kind = input["kind"].as_str().unwrap();
  if kind == "labels" { return labels() }
  if kind == "markup" {
    return guarded(|| SEQ.with(|c| {
      let doc = data::Document { dom: document(&input["tree"]), path: String::new(), corpus: c, dnm: None };
      json!({"status": "ok", "seq": ams::has_markup(&doc), "xml": ams::has_markup_xmldoc(&doc.dom)})
    }));
  }
  let t = text(&input["text"]);
  let env = |e: AmsEnv| json!({"status": "ok", "env": format!("{e:?}"), "label": cps(&e.to_string())});
  guarded(|| match kind {
    "heading" => json!({"status": "ok", "res": cps(&normalize_heading_title(&t))}),
    "env" => env(ams::normalize_env(&t)),
    "class" => match ams::class_to_env(&t) { Some(e) => env(e), None => json!({"status": "ok", "env": "", "label": []}) },
    "structural" => {
      let e = StructuralEnv::from(t.as_str());
      json!({"status": "ok", "env": format!("{e:?}"), "label": cps(&e.to_string())})
    },
    _ => tool_error("kind"),
  })
}

const TITLES: [&str; 110] = [
  "abstract", "acknowledgement", "analysis", "application", "assumption", "background", "case", "caption", "claim", "conclusion", "condition", "conjecture", "contribution", "corollary", "data", "dataset",
  "definition", "demonstration", "description", "discussion", "example", "experiment", "fact", "future work", "implementation", "introduction", "lemma", "methods", "model", "motivation", "notation",
  "observation", "preliminaries", "problem", "proof", "property", "proposition", "question", "related work", "remark", "result", "simulation", "step", "summary", "theorem", "theory",
  "lemme", "remarque", "corollaire", "dokazatelstvo", "hypothesis", "hypotheses", "implementation details", "mathematics subject classification", "subject headings", "bibliography", "previous work",
  "prior work", "related literature", "related research", "related studies", "literature review", "preliminary", "analyses", "theoretical background", "exemple", "exercise", "simulation result",
  "acknowledg", "aknowledg", "key word", "keyword", "appendi", "appendix", "axiom", "msc", "concluding remarks", "method", "future", "properties", "analaysis", "algorithm", "subject", "work", "data set",
  "mathematics", "foo", "überblick", "xi", "mix", "civic", "numbers", "results", "methodology", "spectral analysis", "exerciser", "reproof", "the paper", "paper", "algorithms", "demo", "frameworks",
  "data sets", "datas sets", "works", "steps of", "subjects", "axioms", "dataset s", "abc",
];
const LEADS: [&str; 30] = ["comparison with", "list of", "summary of", "outline of", "sketch of", "overview of", "start of", "end of", "general", "other", "additional", "completion", "finishing", "first", "second",
  "third", "new", "alternative", "chapter", "section", "some", "basic", "closely", "an", "our", "the", "list", "comparison", "end", "more"];
const TRAILS: [&str; 8] = ["see", "of", "for", "of the paper", "of the", "of paper", "with", "for the paper"];
const NUMBERS: [&str; 16] = ["NUM", "NUM", "i", "iv", "xiii", "x", "v", "a", "b", "p", "q", "c", "NUMa", "1NUM", "num", "ivx"];
const BLANKS: [&str; 9] = [" ", " ", " ", " ", "  ", "\t", "\n ", "\u{a0}", ""];

pub fn random_title(g: &mut Gen) -> String {
  let mut parts: Vec<String> = vec![];
  let mut many = |g: &mut Gen, list: &[&str], most: usize| for _ in 0..g.range(0, most) { parts.push((*g.pick(list)).to_string()) };
  if g.chance(50) { many(g, &NUMBERS, 2) }
  if g.chance(40) { many(g, &LEADS, 2) }
  if g.chance(30) { many(g, &NUMBERS, 1) }
  many(g, &TITLES, 2);
  if g.chance(30) { many(g, &TRAILS, 2) }
  if g.chance(50) { many(g, &NUMBERS, 2) }
  if g.chance(10) { many(g, &TITLES, 1) }
  let mut out = String::new();
  for (i, p) in parts.iter().enumerate() {
    if i > 0 { out.push_str(g.pick(&BLANKS)) }
    match g.below(16) {
      0 => out.push_str(&format!("{p}s")),
      1 => { let cut: Vec<char> = p.chars().collect(); out.extend(&cut[..cut.len() - 1]) },
      2 => out.push_str(&format!("{p}{}", g.pick(&["ing", "x", "'", "-", "."]))),
      _ => out.push_str(p),
    }
  }
  if g.chance(10) { out = format!("{}{out}{}", g.pick(&BLANKS), g.pick(&BLANKS)) }
  out
}

fn gen(g: &mut Gen) {
  if prop() == "C19" { headings(g) } else { environments(g) }
}
fn headings(g: &mut Gen) {
  let pushed = |g: &mut Gen, t: String| g.push(json!({"kind": "heading", "text": cps(&t)}));
  for t in TITLES.iter().chain(&LEADS).chain(&TRAILS) {
    for form in [t.to_string(), format!("{t}s"), format!("{t} rest"), format!("rest {t}"), format!("rest{t}"), format!("{t}rest"), format!("NUM {t}"), format!("{t} iv a"), format!("the {t} of"), t.to_uppercase(), format!("{t}s, rest"), format!("{t}, rest"), format!("{t}-rest"), format!("{t}s.")] {
      pushed(g, form)
    }
  }
  // words of the source, as titles to try
  let src = std::fs::read_to_string("/repo/src/util/data_helpers.rs").unwrap_or_default();
  for (i, part) in src.split('"').enumerate() {
    let t = part.trim();
    if i % 2 == 0 || t.is_empty() || t.len() > 60 || !t.chars().all(|c| c.is_ascii_alphanumeric() || c == ' ') || TITLES.contains(&t) { continue }
    for form in [t.to_string(), format!("{t}s"), format!("{t} rest"), format!("rest {t}"), format!("{t}rest"), format!("rest{t}")] { pushed(g, form) }
  }
  for _ in 0..g.amount(3000, 60000) {
    let t = random_title(g);
    pushed(g, t)
  }
  for _ in 0..g.amount(1500, 20000) {
    let t: String = (0..g.range(0, 9)).map(|_| *g.pick(&["x", "i", "v", "a", "p", "q", "NUM", "N", "U", "s", "proof", "step", " ", " ", " ", "\t", "the", "of", "an"])).collect();
    pushed(g, t)
  }
  // everything that may look like a number or a label: lone characters, words of roman digits
  for c in ' '..='~' { for f in [format!("lemma {c}"), format!("{c} lemma"), format!("step {c} lemma"), format!("foo {c}"), format!("{c} foo"), format!("foo {c} bar")] { pushed(g, f) } }
  const ROMAN: [&str; 7] = ["i", "v", "x", "l", "c", "d", "m"];
  for a in ROMAN { for b in ROMAN {
    // "foo" is no heading of its own: what is left of it shows
    for f in [format!("lemma {a}{b}"), format!("{a}{b} lemma"), format!("foo {a}{b}"), format!("{a}{b} foo")] { pushed(g, f) }
    for c in ROMAN { pushed(g, format!("foo {a}{b}{c} rest")) }
  } }
  // deep: one removal per round
  for (unit, n) in [("first ", 40), ("x x ", 30), ("NUM a ", 30), (" of the paper", 30), ("work ", 30)] {
    pushed(g, format!("{}lemma", unit.repeat(n)));
    pushed(g, format!("lemma{}", unit.repeat(n)));
  }
}

fn keys() -> Vec<String> {
  // the names of the specification's table are sampled through the source of the library, as words to try
  let src = std::fs::read_to_string("/repo/src/ams.rs").unwrap_or_default();
  let mut out: Vec<String> = Vec::new();
  for (i, part) in src.split('"').enumerate() {
    if i % 2 == 1 && !part.is_empty() && part.len() < 40 && part.chars().all(|c| c.is_ascii_graphic()) { out.push(part.to_string()) }
  }
  out
}
fn table() -> Vec<String> {
  let src = std::fs::read_to_string("/verif/spec/AmsTable.tla").unwrap_or_default();
  src.split('"').enumerate().filter(|(i, p)| i % 2 == 1 && !p.is_empty()).map(|(_, p)| p.to_string()).collect()
}
fn environments(g: &mut Gen) {
  g.push(json!({"kind": "labels"}));
  let mut names = table();
  names.extend(keys());
  names.sort();
  names.dedup();
  for n in &names {
    g.push(json!({"kind": "env", "text": cps(n)}));
    g.push(json!({"kind": "class", "text": cps(&format!("ltx_theorem ltx_theorem_{n}"))}));
  }
  for _ in 0..g.amount(1500, 15000) {
    let n = g.pick(&names).clone();
    let other = g.pick(&names).clone();
    let t = match g.below(10) {
      0 => format!("{n}s"), 1 => format!("my{n}"), 2 => n[..n.len() - 1].to_string(), 3 => n.to_uppercase(), 4 => format!("{n}{other}"), 5 => format!(" {n}"), 6 => format!("{n}1"),
      7 => format!("{n}é"), 8 => format!("{n}-{other}"), _ => n,
    };
    if g.chance(30) { g.push(json!({"kind": "env", "text": cps(&t)})); continue }
    let class = match g.below(9) {
      0 => format!("ltx_theorem_{t} ltx_theorem_{other}"),
      1 => format!("ltx_theorem ltx_runin ltx_theorem_{t} ltx_centering"),
      2 => format!("x ltx_theorem_{t}"),
      3 => format!("ltx_theorem_ ltx_theorem_{t}"),
      4 => format!("ltx_proof ltx_theorem_{t}"),
      5 => format!("ltx_{t}"),
      6 => t,
      7 => format!("{t} ltx_theorem"),
      _ => format!("ltx_theorem_{t}"),
    };
    g.push(json!({"kind": "class", "text": cps(&class)}));
  }
  for c in ["", " ", "ltx_proof", " ltx_proof", "ltx_proof ", "ltx_proofs", "LTX_PROOF", "ltx_theorem", "xltx_theorems", "ltx_theorem_", "ltx_theorem_-", "ltx_theore", "Ltx_theorem_lemma", "ltx_proof ltx_theorem", "theorem", "lemma"] {
    g.push(json!({"kind": "class", "text": cps(c)}));
    g.push(json!({"kind": "env", "text": cps(c)}));
  }
  for t in TITLES {
    for form in [t.to_string(), t.to_uppercase(), format!("NUM {t}"), format!("{t}s"), format!("The {t} of"), format!("{t} IV.") , format!("A {t} b")] {
      g.push(json!({"kind": "structural", "text": cps(&form)}));
    }
  }
  for _ in 0..g.amount(1500, 15000) {
    let mut t = random_title(g);
    if g.chance(60) {
      t = t.chars().map(|c| if g.chance(50) && c.is_ascii() { c.to_ascii_uppercase() } else { c }).collect();
    }
    g.push(json!({"kind": "structural", "text": cps(&t)}));
  }
  const NODES: [(&str, &str); 15] = [("div", "x ltx_theorem_lemma"), ("div", "ltx_para ltx_theorem"), ("div", "xltx_theorems"), ("div", "ltx_theorem"), ("div", "ltx_theorem_lemma x"), ("p", "ltx_theorem"), ("section", "ltx_theorem ltx_theorem_lemma"), ("div", "ltx_proof"), ("div", "ltx_theore"),
    ("div", "LTX_THEOREM"), ("divs", "ltx_theorem"), ("div", ""), ("span", ""), ("p", ""), ("div", "ltx_para")];
  for _ in 0..g.amount(400, 5000) {
    let mut tree = random_tree(g, 8, "html", &NODES, &|_: &mut Gen| "ltx_theorem".to_string());
    if g.chance(50) { for n in tree.iter_mut() { if n["n"] == "div" && g.chance(85) { n["c"] = json!([]) } } }
    for n in tree.iter_mut() { if n["k"] == "e" && g.chance(10) { n["ns"] = json!(*g.pick(&["svg", "m", "-"])) } }
    g.push(json!({"kind": "markup", "tree": tree}));
  }
}
