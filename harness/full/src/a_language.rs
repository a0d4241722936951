//! The language filter and the parameter check (C27)
use crate::common::*;
use crate::driver::*;
use llamapun::dnm::{DNMParameters, SpecialTagsOption, DNM};
use llamapun::util::data_helpers::invalid_for_english_latin;
use serde_json::{json, Value};
use std::sync::Arc;
use whatlang::{Lang, Script};

pub fn area() -> Area { Area { name: "language", gen, exec } }

fn summary(p: &DNMParameters) -> Value {
  let table = |t: &std::collections::HashMap<String, SpecialTagsOption>| { let mut v: Vec<String> = t.iter().map(|(k, o)| format!("{k}={o:?}")).collect(); v.sort(); v };
  json!([table(&p.special_tag_name_options), table(&p.special_tag_class_options), p.normalize_white_spaces, p.wrap_tokens, p.normalize_unicode,
    p.stem_words_once, p.stem_words_full, p.convert_to_lowercase, p.support_back_mapping])
}
fn parameters(par: &Value, rules: bool) -> DNMParameters {
  let flag = |n: &str| par[n].as_bool().unwrap();
  let mut p = DNMParameters::default();
  if rules {
    p.special_tag_name_options.insert("math".to_string(), SpecialTagsOption::Normalize("f".to_string()));
    p.special_tag_name_options.insert("p".to_string(), SpecialTagsOption::FunctionNormalize(Arc::new(|_| String::new())));
    p.special_tag_class_options.insert("x".to_string(), SpecialTagsOption::Skip);
    p.special_tag_class_options.insert("y".to_string(), SpecialTagsOption::Enter);
  }
  (p.normalize_white_spaces, p.wrap_tokens, p.normalize_unicode) = (flag("ws"), flag("wrap"), flag("uni"));
  (p.stem_words_once, p.stem_words_full, p.convert_to_lowercase, p.support_back_mapping) = (flag("stem"), flag("full"), flag("lower"), flag("back"));
  p
}
/// the process that only checks parameters
pub fn child() { parameters(&serde_json::from_str(&std::env::args().nth(2).unwrap()).unwrap(), false).check() }

fn exec(input: &Value) -> Value {
  if input["kind"] == "check" {
    return guarded(|| {
      let p = parameters(&input["par"], input["rules"] == true);
      let before = summary(&p);
      p.check();
      p.check();
      let kept = summary(&p) == before && {
        // also when a text is made with them
        let doc = document(&json!([element("p", 0, "")]));
        let dnm = DNM::new(doc.get_root_readonly().unwrap(), p.clone());
        summary(&dnm.parameters) == before
      };
      // what a process that only checks these parameters says about them
      let out = std::process::Command::new(std::env::current_exe().unwrap()).args(["language-child", &input["par"].to_string()]).output().unwrap();
      let warned = !(out.stderr.is_empty() && out.stdout.is_empty());
      json!({"status": if out.status.success() { "ok" } else { "died" }, "kept": kept, "warned": warned})
    });
  }
  let v = &input["verdict"];
  let lang = match v["lang"].as_str().unwrap() { "Eng" => Lang::Eng, "Deu" => Lang::Deu, _ => Lang::Fra };
  let script = if v["script"] == "Latin" { Script::Latin } else { Script::Cyrillic };
  whatlang::shim_set((v["known"] == true).then_some((lang, script, usize_of(&v["conf"]) as f64 / 10000.0)));
  whatlang::shim_seen();
  let obs = guarded(|| {
    let dnm = text_dnm(&text(&input["text"]));
    let invalid = invalid_for_english_latin(&dnm);
    let unchanged = dnm.plaintext == text(&input["text"]);
    json!({"status": if unchanged { "ok" } else { "changed" }, "invalid": invalid, "seen": whatlang::shim_seen().iter().map(|s| cps(s)).collect::<Vec<_>>()})
  });
  whatlang::shim_set(Some((Lang::Eng, Script::Latin, 1.0)));
  obs
}
fn gen(g: &mut Gen) {
  const PARTS: [&str; 14] = ["mathformula", "CitationElement", "REF", "REFs", "MATHFORMULA", "citationelement", "Let", "f", "über", "Теорема", "12", "mathREFformula", "math formula", "Citation"];
  for _ in 0..g.amount(4000, 40000) {
    // now and then a long text, or one with many times the same placeholder
    let (long, same) = (g.chance(1), g.chance(60).then(|| *g.pick(&PARTS)));
    let mut t = if long && g.chance(50) { String::new() } else { random_text(g, 10) };
    for _ in 0..if long { g.range(10, 30) } else { g.below(6) } {
      if let (true, Some(part)) = (long, same) {
        t.push_str(part);
        t.push_str(g.pick(&[" ", "", ", "]));
        continue;
      }
      t.push_str(g.pick(&PARTS));
      t.push_str(g.pick(&["", " ", " ", "\n", ".", "\u{a0}"]));
    }
    let (lang, script) = (*g.pick(&["Eng", "Deu", "Fra"]), *g.pick(&["Latin", "Latin", "Cyrillic"]));
    let conf = match g.below(6) { 0 => 9300, 1 => 9301, 2 => 9299, 3 => 10000, 4 => 0, _ => g.below(10001) };
    let known = g.chance(92);
    g.push(json!({"kind": "text", "text": cps(&t), "verdict": {"known": known, "lang": lang, "script": script, "conf": conf}}));
  }
}
