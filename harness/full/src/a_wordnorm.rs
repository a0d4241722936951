//! Word normalization for the AMS model (C21)
use crate::common::*;
use crate::driver::*;
use libxml::xpath::Context;
use llamapun::dnm::{DNMParameters, DNM};
use llamapun::tokenizer::Tokenizer;
use llamapun::util::data_helpers::{ams_normalize_word_range, heading_from_node_aux, LexicalOptions};
use serde_json::{json, Value};

pub fn area() -> Area { Area { name: "wordnorm", gen, exec } }

fn outcome(ok: bool, word: &str) -> Value { json!({"ok": ok, "word": cps(word)}) }
fn exec(input: &Value) -> Value {
  let doc = document(&input["tree"]);
  let root = doc.get_root_readonly().unwrap();
  guarded(|| {
    let mut parameters = DNMParameters::llamapun_normalization();
    if input["raw"] == json!(true) { parameters.normalize_unicode = false }
    let dnm = DNM::new(root, parameters);
    let mut context = Context::new(&doc).unwrap();
    let range = dnm.get_range().unwrap();
    let n = range.get_plaintext().chars().count();
    let words: Vec<Value> = input["ranges"].as_array().unwrap().iter().map(|r| {
      let (s, e) = (usize_of(&r[0]).min(n), usize_of(&r[1]).min(n));
      if s >= e { return json!([]) }
      json!([(false, false), (false, true), (true, false), (true, true)].iter().enumerate().map(|(i, (keep, drop))| {
        let options = LexicalOptions { discard_math: *drop, discard_punct: !keep, discard_case: (s + i) % 2 == 0 };
        match ams_normalize_word_range(&range.get_subrange(s, e), &mut context, options) { Ok(w) => outcome(true, &w), Err(_) => outcome(false, "") }
      }).collect::<Vec<_>>())
    }).collect();
    let default = LexicalOptions::default();
    if default.discard_math || !default.discard_punct || !default.discard_case { return json!({"status": "default options"}) }
    let heading = match heading_from_node_aux(root, &Tokenizer::default(), &mut context) { Some(h) => outcome(true, &h), None => outcome(false, "") };
    json!({"status": "ok", "text": cps(range.get_plaintext()), "words": words, "heading": heading})
  })
}

/// a word-like piece of text; `extra` is a share of odd ones
pub fn random_word(g: &mut Gen) -> String {
  const PLAIN: [&str; 34] = ["The", "lemma", "of", "results", "Definition", "I", "a", "NUM", "num", "numbers", "mathformula", "xMathFormula", "citationelement", "CitationElement's", "REF", "don't", "it's", "x-ray", "l'image",
    "Ångström", "naïve", "Σ", "straße", "ÉTÉ", "1st", "e.g.", "(see", "end).", "U.S.", "\u{201c}quoted\u{201d}", "rock\u{2019}n\u{2019}roll", "--", "…", "½"];
  match g.below(12) {
    0 => g.range(0, 99999).to_string(),
    1 => format!("{}{}", g.range(0, 99), g.pick(&["a", "k", "l", "K", "b.", "th", "e5", "aa"])),
    2 => format!("{}.{}", g.range(0, 99), g.range(0, 99)),
    3 => format!("{}{}.{}{}{}{}", g.pick(&["", "-", "+", "--"]), g.range(0, 9), g.range(0, 99), g.pick(&["e", "E", "f", "ee"]), g.pick(&["", "-", "+", "-+"]), g.pick(&["5", "", "12", "x"])),
    4 => format!("-{}", g.range(0, 99)),
    5 => { let n = g.range(22, 28); let mut w: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect(); if g.chance(40) { let at = g.below(w.len()); w.insert(at, *g.pick(&['-', '.', '\'', '1', 'é'])) } w },
    6 => { let n = g.range(23, 27); "9".repeat(n) },
    _ => (*g.pick(&PLAIN)).to_string(),
  }
}
/// a run of words
pub fn random_prose(g: &mut Gen) -> String {
  let mut out = String::new();
  for _ in 0..g.range(1, 7) {
    out.push_str(g.pick(&["", " ", " ", " ", "\n", "  ", "\u{a0}"]));
    out.push_str(&random_word(g));
    if g.chance(15) { out.push_str(g.pick(&[",", ".", ";", "!", ")", ":", "?"])) }
  }
  if g.chance(40) { out.push(' ') }
  out
}
/// a formula element at depth d, with or without lexemes; `name` and `class` of its outer element
pub fn formula(g: &mut Gen, d: usize, name: &str, class: &str) -> Vec<Value> {
  let mut out = vec![element(name, d, class)];
  if g.chance(30) { out.push(element("mi", d + 1, "")); out.push(text_node(d + 2, "x")) }
  for _ in 0..*g.pick(&[1, 1, 1, 0, 2]) {
    let nested = g.chance(20);
    if nested { out.push(element("semantics", d + 1, "")) }
    let mut a = element("annotation", d + 1 + nested as usize, "");
    a["a"] = json!([{"k": "encoding", "v": cps(g.pick(&["application/x-llamapun", "application/x-llamapun", "application/x-llamapun", "application/x-tex", ""]))}]);
    if text(&a["a"][0]["v"]).is_empty() { a.as_object_mut().unwrap().remove("a"); }
    out.push(a);
    let lex: Vec<String> = (0..g.range(0, 4)).map(|_| (*g.pick(&["UNKNOWN:x", "ID:f-g", "NUMBER:1", "RELOP:equals", "ARRAY:start", "POSTFIX:endID:end", "ATOM-1", "SUPERSCRIPTOP2", "OPEN:(", "fraction:start", "NUM", "-", "x"])).to_string()).collect();
    let t = lex.join(g.pick(&[" ", " ", "\n", ""]));
    if !t.is_empty() { out.push(text_node(d + 2 + nested as usize, &t)) }
  }
  out
}
/// inline content at depth d, appended; neighbouring texts are avoided
pub fn inline(g: &mut Gen, out: &mut Vec<Value>, d: usize, pieces: usize, prose: &dyn Fn(&mut Gen) -> String) {
  for _ in 0..pieces {
    match g.below(12) {
      0 | 1 => out.extend(formula(g, d, "math", "ltx_Math")),
      2 => { out.push(element("cite", d, "ltx_cite")); if g.chance(50) { out.push(text_node(d + 1, "[12]")) } },
      3 => { out.push(element("a", d, "ltx_ref")); if g.chance(50) { out.push(text_node(d + 1, "Sect. 2")) } },
      4 => { let (n, c) = *g.pick(&[("div", "ltx_equation"), ("table", "ltx_equationgroup ltx_eqn"), ("table", "ltx_equation"), ("table", "x")]); out.extend(formula(g, d, n, c)) },
      5 => { let (n, c) = *g.pick(&[("em", ""), ("span", "ltx_text"), ("span", "ltx_note_mark"), ("img", ""), ("b", "x ltx_TOC"), ("i", "y")]); out.push(element(n, d, c)); let t = prose(g); out.push(text_node(d + 1, &t)) },
      6 => out.push(comment(d, "note")),
      _ => if !previous_sibling_is_text(out, d) { let t = prose(g); out.push(text_node(d, &t)) },
    }
  }
}
fn gen(g: &mut Gen) {
  for _ in 0..g.amount(2500, 30000) {
    let mut tree = vec![element(g.pick(&["h2", "div", "p", "math", "h5"]), 0, g.pick(&["", "ltx_title", "ltx_para"]))];
    let pieces = g.range(1, 5);
    inline(g, &mut tree, 1, pieces, &random_prose);
    let ranges: Vec<(usize, usize)> = (0..g.range(3, 14)).map(|_| { let s = g.range(0, 60); (s, s + g.range(1, 28)) }).collect();
    g.push(json!({"tree": tree, "ranges": ranges}));
  }
  // texts that keep their characters, in words short enough for any way to count their length
  for _ in 0..g.amount(400, 5000) {
    let odd = |g: &mut Gen| (0..g.range(1, 9)).map(|_| *g.pick(&['é', 'É', 'ß', 'İ', 'x', 'K', '3', '٣', '７', '½', 'Ⅷ', 'क', '\u{301}', '-', '.', ' ', 'e', 'a', '一', '\u{a0}', 'λ'])).collect::<String>();
    let mut tree = vec![element(g.pick(&["h2", "p"]), 0, "")];
    let pieces = g.range(1, 4);
    inline(g, &mut tree, 1, pieces, &odd);
    let ranges: Vec<(usize, usize)> = (0..g.range(3, 10)).map(|_| { let s = g.range(0, 25); (s, s + g.range(1, 6)) }).collect();
    g.push(json!({"tree": tree, "ranges": ranges, "raw": true}));
  }
}
