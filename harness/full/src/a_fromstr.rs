//! Documents from plain strings (C24)
use crate::a_plaintext::{parameters, random_flags, random_rules};
use crate::common::*;
use crate::driver::*;
use llamapun::dnm::DNM;
use serde_json::{json, Value};

pub fn area() -> Area { Area { name: "fromstr", gen, exec } }

fn exec(input: &Value) -> Value {
  let t = text(&input["text"]);
  let params = if input["defaults"] == true { None } else { Some(parameters(input)) };
  let made = if input["call"] == "ams" { DNM::from_ams_paragraph_str(&t, params) } else { DNM::from_str(&t, params) };
  let (doc, dnm) = match made { Ok(x) => x, Err(e) => return json!({"status": "error", "message": format!("{e:?}")}) };
  // allocate in between, then use both again
  let filler: Vec<_> = (0..3).map(|i| DNM::from_str(&format!("filler {i} {t}"), None).unwrap().1.plaintext.len()).collect();
  let whole = dnm.get_range().map(|r| json!([r.start, r.end])).unwrap_or(json!([]));
  let last = all_nodes(&doc).last().unwrap().0;
  let later = dnm.get_range_of_node(last).map(|r| cps(r.get_plaintext())).unwrap_or(json!([]));
  // a skipped or replaced paragraph hides the text node
  let later = if dnm.get_range_of_node(last).is_err() { cps(&dnm.plaintext) } else { later };
  json!({"status": "ok", "tree": project(&doc), "text": cps(&dnm.plaintext), "later": later, "whole": whole, "fill": filler.len()})
}

fn gen(g: &mut Gen) {
  const TOKENS: [&str; 30] = [
    "a&b", "&amp;_x", "<p>",
    "we", "prove", "NUM", "NUM", "ID_x", "RELOP_equals", "italic_x_y", "a__b", "_a", "a_", "__", "___", "x", "Élan", "éa", "mathformula", "citationelement", ".", ",", "(", "3", "NUMx",
    "NUM_x", "POSTSUBSCRIPT_start", "ARRAY", "ATOM", "NUMNUM",
  ];
  for _ in 0..g.amount(1500, 20000) {
    let ams = g.chance(65);
    let t = if !ams { let most = if g.chance(1) { 300 } else { 30 }; raw_text(g, most) } else {
      let mut t = String::new();
      let lines = if g.chance(2) { g.range(8, 30) } else { g.range(0, 4) };
      for _ in 0..lines {
        if g.chance(10) { t.push(' ') }
        let words: Vec<&str> = (0..g.range(0, 7)).map(|_| *g.pick(&TOKENS)).collect();
        t.push_str(&words.join(" "));
        if !words.is_empty() && g.chance(60) { t.push(' ') }
        if g.chance(5) { t.push('\r') }
        if g.chance(85) { t.push('\n') }
      }
      t
    };
    if t.split_whitespace().any(|w| { let inner: Vec<char> = w.chars().collect(); w.ends_with("NUM") && w != "NUM" && !inner[1..inner.len() - 1].contains(&'_') }) { continue }
    let defaults = g.chance(40);
    let (names, classes) = if defaults || g.chance(60) { (vec![], vec![]) } else { random_rules(g) };
    let par = if defaults { json!({"ws": true, "wrap": false, "uni": false, "stem": false, "full": false, "lower": false, "back": true}) } else { random_flags(g, false) };
    g.push(json!({"call": if ams { "ams" } else { "str" }, "text": cps(&t), "names": names, "classes": classes, "par": par, "defaults": defaults}));
  }
}
