//! Loading of pattern files (C05)
use crate::common::*;
use crate::driver::*;
use crate::pat::*;
use libxml::parser::Parser;
use llamapun::patterns::hooks::*;
use serde_json::{json, Value};
use std::collections::HashMap;

pub fn area() -> Area { Area { name: "patternload", gen, exec } }

fn rules(pf: &PatternFile) -> Value {
  let mut out = Vec::new();
  fn add(out: &mut Vec<Value>, kind: &str, names: &HashMap<String, usize>, n: usize, get: &dyn Fn(usize) -> (Value, Value)) {
    if names.len() != n { out.push(json!({"kind": kind, "count": n, "names": names.len()})) }
    for (name, pos) in names {
      let (summary, p) = get(*pos);
      out.push(json!({"kind": kind, "name": cps(name), "summary": summary, "p": p}));
    }
  }
  let s = |m: &MetaDescription| cps(m.get_summary());
  add(&mut out, "word", &pf.word_rule_names, pf.word_rules.len(), &|i| (s(&pf.word_rules[i].description), dump_word(pf, &pf.word_rules[i].pattern)));
  add(&mut out, "pos", &pf.pos_rule_names, pf.pos_rules.len(), &|i| (s(&pf.pos_rules[i].description), dump_pos(pf, &pf.pos_rules[i].pattern)));
  add(&mut out, "math", &pf.math_rule_names, pf.math_rules.len(), &|i| (s(&pf.math_rules[i].description), dump_math(pf, &pf.math_rules[i].pattern)));
  add(&mut out, "mtext", &pf.mtext_rule_names, pf.mtext_rules.len(), &|i| (s(&pf.mtext_rules[i].description), dump_mtext(pf, &pf.mtext_rules[i].pattern)));
  add(&mut out, "seq", &pf.sequence_rule_names, pf.sequence_rules.len(), &|i| (s(&pf.sequence_rules[i].description), dump_seq(pf, &pf.sequence_rules[i].pattern)));
  Value::Array(out)
}

fn exec(input: &Value) -> Value {
  // the table has to survive the parser
  let mut plain = input["tree"].clone();
  for n in plain.as_array_mut().unwrap() { n.as_object_mut().unwrap().remove("a"); }
  let xml = to_xml(&input["tree"]);
  let doc = Parser::default().parse_string(&xml).unwrap_or_else(|e| tool_error(&format!("{e:?} parsing {xml}")));
  if project(&doc) != plain { tool_error(&format!("the parsed document is not the one described: {xml}")) }
  let path = std::path::Path::new(&std::env::var("VP_SCRATCH").unwrap_or_else(|_| ".".into())).join(format!("patterns{}.xml", crate::driver::slot()));
  std::fs::write(&path, xml).unwrap();
  match PatternFile::load(path.to_str().unwrap()) {
    Err(_) => json!({"status": "ok", "loaded": false, "summary": [], "rules": []}),
    Ok(pf) => json!({"status": "ok", "loaded": true, "summary": cps(pf.description.get_summary()), "rules": rules(&pf)}),
  }
}

// ---- random files
fn el(n: &str, d: usize, a: &[(&str, &str)]) -> Value {
  json!({"k": "e", "n": n, "ns": "", "d": d, "c": [], "id": [], "t": [], "a": a.iter().map(|(k, v)| json!({"k": k, "v": cps(v)})).collect::<Vec<_>>()})
}
fn tx(d: usize, t: &str) -> Value { json!({"k": "t", "n": "text", "ns": "", "d": d, "c": [], "id": [], "t": cps(t), "a": []}) }
fn co(d: usize) -> Value { json!({"k": "c", "n": "comment", "ns": "", "d": d, "c": [], "id": [], "t": cps(" note "), "a": []}) }

const NAMES: [&str; 6] = ["a", "b", "indefinite article", "é", "", "c"];
const MARKS: [&str; 4] = ["identifier", "restriction", "λ", ""];
const TAGS: [&str; 6] = ["math", "a,b", " a , b ", "", ",x", "é,\u{a0}y\u{2003}"];
struct G<'a> { g: &'a mut Gen, out: Vec<Value>, room: usize }
impl G<'_> {
  fn push(&mut self, n: &str, d: usize, a: &[(&str, &str)]) { self.out.push(el(n, d, a)); self.room = self.room.saturating_sub(1) }
  fn noise(&mut self, d: usize) {
    if self.g.chance(8) { self.out.push(co(d)) }
    if self.g.chance(8) && !previous_sibling_is_text(&self.out, d) { let t = *self.g.pick(&[" ", "\n  ", "\u{a0}"]); self.out.push(tx(d, t)) }
  }
  fn name(&mut self) -> &'static str { *self.g.pick(&NAMES[..4]) }
  fn marker(&mut self, n: &str, d: usize) {
    let (m, t) = (*self.g.pick(&MARKS), *self.g.pick(&TAGS));
    if self.g.chance(50) { self.push(n, d, &[("name", m)]) } else { self.push(n, d, &[("tags", t), ("name", m)]) }
  }
  fn children(&mut self, kind: &str, d: usize, min: usize) {
    let n = min + if self.room > 0 { self.g.below(4) } else { 0 };
    for _ in 0..n { self.noise(d); self.pattern(kind, d) }
    self.noise(d)
  }
  fn pattern(&mut self, kind: &str, d: usize) {
    let leaf = self.room == 0 || d > 7;
    let c = self.g.below(100);
    let r = self.name();
    match kind {
      "pos" => match c {
        0..=39 => { let t = *self.g.pick(&["NN", "DT", "PRP$", ".", "CD", "WP$", "POS"]); self.push("pos", d, &[("tag", t)]) },
        40..=59 => self.push("pos_ref", d, &[("ref", r)]),
        60..=79 if !leaf => { self.push("pos_not", d, &[]); self.noise(d + 1); self.pattern(kind, d + 1) },
        _ => { self.push("pos_or", d, &[]); if !leaf { self.children(kind, d + 1, 0) } },
      },
      "mtext" => match c {
        0..=19 => self.push("mtext_any", d, &[]),
        20..=39 => { let t = *self.g.pick(&["x", "∈", "", " ", "<"]); self.push("mtext_lit", d, &[("str", t)]) },
        40..=59 => self.push("mtext_ref", d, &[("ref", r)]),
        60..=79 if !leaf => { self.push("mtext_not", d, &[]); self.noise(d + 1); self.pattern(kind, d + 1) },
        _ => { self.push("mtext_or", d, &[]); if !leaf { self.children(kind, d + 1, 0) } },
      },
      "math" => match c {
        0..=14 => self.push("math_any", d, &[]),
        15..=29 => self.push("math_ref", d, &[("ref", r)]),
        30..=39 if !leaf => { self.marker("math_marker", d); self.noise(d + 1); self.pattern(kind, d + 1) },
        40..=49 if !leaf => { let t = *self.g.pick(&["first", "at_least_one", "arbitrary"]); self.push("math_descendant", d, &[("match_type", t)]); self.pattern(kind, d + 1) },
        50..=59 => { self.push("math_or", d, &[]); if !leaf { self.children(kind, d + 1, 0) } },
        _ => {
          if self.g.chance(50) { let n = *self.g.pick(&["mi", "mrow", ""]); self.push("math_node", d, &[("name", n)]) } else { self.push("math_node", d, &[]) }
          let first = self.g.chance(50);
          for part in 0..2 {
            self.noise(d + 1);
            if (part == 0) == first { if self.g.chance(50) { self.push("mtext_ref", d + 1, &[("ref", r)]) } }
            else if !leaf && self.g.chance(60) {
              let t = *self.g.pick(&["starts_with", "exact", "ends_with", "arbitrary"]);
              self.push("math_children", d + 1, &[("match_type", t)]);
              self.children(kind, d + 2, 1)
            }
          }
        },
      },
      "word" => match c {
        0..=19 => { self.push("word", d, &[]); if self.g.chance(85) { let t = *self.g.pick(&["let", " a ", "é\n", "\u{2003}"]); self.out.push(tx(d + 1, t)) } },
        20..=34 => self.push("word_ref", d, &[("ref", r)]),
        35..=44 => { self.push("word_any", d, &[]); self.noise(d + 1) },
        45..=54 if !leaf => { self.push("word_not", d, &[]); self.noise(d + 1); self.pattern(kind, d + 1) },
        55..=64 if !leaf => { self.marker("word_marker", d); self.noise(d + 1); self.pattern(kind, d + 1) },
        65..=79 if !leaf => {
          self.push("word_pos", d, &[]);
          let first = self.g.chance(60);
          for part in 0..2 {
            self.noise(d + 1);
            if (part == 0) == first { self.push("pos", d + 1, &[]); self.noise(d + 2); self.pattern("pos", d + 2) } else { self.pattern(kind, d + 1) }
          }
        },
        80..=89 if !leaf => { self.push("word_math", d, &[]); self.pattern("math", d + 1) },
        _ => { self.push("word_or", d, &[]); if !leaf { self.children(kind, d + 1, 0) } },
      },
      _ => match c {
        0..=24 => { self.push("seq_word", d, &[]); self.noise(d + 1); self.pattern("word", d + 1) },
        25..=34 => self.push("seq_ref", d, &[("ref", r)]),
        35..=49 if !leaf => { self.marker("seq_marker", d); self.noise(d + 1); self.pattern(kind, d + 1) },
        50..=64 if !leaf => {
          if self.g.chance(70) { let t = *self.g.pick(&["first", "atleastone", "any", "longest"]); self.push("seq_or", d, &[("match_type", t)]) } else { self.push("seq_or", d, &[]) }
          self.children(kind, d + 1, 0)
        },
        65..=84 if !leaf => {
          let t = *self.g.pick(&["NP", "VP", "S", "X", "WHADJP"]);
          self.push("phrase", d, &[("tag", t)]);
          let mut parts = vec![0, 1, 2];
          while !parts.is_empty() {
            let part = parts.remove(self.g.below(parts.len()));
            self.noise(d + 1);
            if self.g.chance(45) { continue }
            match part {
              0 => { let t = *self.g.pick(&["shortest", " longest\n"]); self.push("match_type", d + 1, &[]); self.out.push(tx(d + 2, t)) },
              1 => {
                if self.g.chance(60) { let t = *self.g.pick(&["any", "lessorequal"]); self.push("starts_with_seq", d + 1, &[("containment", t)]) } else { self.push("starts_with_seq", d + 1, &[]) }
                self.pattern(kind, d + 2)
              },
              _ => { self.push("ends_with_seq", d + 1, &[]); self.pattern(kind, d + 2) },
            }
          }
        },
        _ => { self.push("seq_seq", d, &[]); if !leaf { self.children(kind, d + 1, 0) } },
      },
    }
  }
  fn meta(&mut self, d: usize) {
    self.push("meta", d, &[]);
    if self.g.chance(80) {
      self.push("description", d + 1, &[]);
      if self.g.chance(80) { let t = *self.g.pick(&["Matches a thing.", "\n   é  \n", " "]); self.out.push(tx(d + 2, t)) }
    }
  }
}
const ALL: [&str; 42] = ["math_any", "math_marker", "math_ref", "math_or", "math_node", "math_children", "math_descendant", "mtext_any", "mtext_or", "mtext_lit", "mtext_not",
  "mtext_ref", "pos", "pos_not", "pos_ref", "pos_or", "word_ref", "word_or", "word", "word_math", "word_any", "word_not", "word_marker", "word_pos", "seq_ref", "seq_word",
  "seq_seq", "phrase", "match_type", "starts_with_seq", "ends_with_seq", "seq_marker", "seq_or", "meta", "description", "pos_rule", "math_rule", "mtext_rule", "word_rule",
  "seq_rule", "pattern_file", "other"];

fn subtree(t: &[Value], i: usize) -> usize {
  let mut j = i + 1;
  while j < t.len() && usize_of(&t[j]["d"]) > usize_of(&t[i]["d"]) { j += 1 }
  j
}
fn well_formed(t: &[Value]) -> bool {
  (1..t.len()).all(|i| {
    let d = usize_of(&t[i]["d"]);
    d >= 1 && d <= usize_of(&t[i - 1]["d"]) + (t[i - 1]["k"] == "e") as usize && !(t[i]["k"] == "t" && previous_sibling_is_text(&t[..i], d))
  })
}
fn mutate(g: &mut Gen, t: &mut Vec<Value>) {
  let i = g.below(t.len());
  let d = usize_of(&t[i]["d"]);
  let old = t.clone();
  match g.below(10) {
    0 => if let Some(a) = t[i]["a"].as_array_mut() { if !a.is_empty() { let k = g.below(a.len()); a.remove(k); } },
    1 => if t[i]["k"] == "e" { t[i]["n"] = json!(*g.pick(&ALL)) },
    2 => if i > 0 { let e = subtree(t, i); let copy = t[i..e].to_vec(); t.splice(e..e, copy); },        // given twice
    3 => if i > 0 { let e = subtree(t, i); t.drain(i..e); },                                             // missing
    4 => { let (n, at) = (*g.pick(&["x", " ", "é"]), i + 1); let d = d + (t[i]["k"] == "e") as usize; if d > 0 { t.insert(at, tx(d, n)) } },
    5 => { let at = i + 1; let d = d + (t[i]["k"] == "e") as usize; if d > 0 { let n = *g.pick(&ALL); t.insert(at, el(n, d, &[("name", "a"), ("ref", "b"), ("tag", "NN")])) } },
    6 => for n in t.iter_mut() {                                                                          // one value changed
      if n["k"] == "e" && !n["a"].as_array().unwrap().is_empty() && g.chance(15) {
        let v = *g.pick(&["a", "b", "nowhere", "NN", "NP", "np", "first", "exact", "longest", "Longest", "any", ""]);
        n["a"][0]["v"] = cps(v);
        break;
      }
    },
    7 => { // rules in another order
      let mut parts = Vec::new();
      let mut j = 1;
      while j < t.len() { let e = subtree(t, j); parts.push(t[j..e].to_vec()); j = e }
      if !parts.is_empty() { let k = g.below(parts.len()); parts.rotate_left(k) }
      let root = t[0].clone();
      *t = std::iter::once(root).chain(parts.into_iter().flatten()).collect();
    },
    8 => if t[i]["k"] == "t" { let v = *g.pick(&["x", " ", "shortest", "Shortest", "\u{200b}"]); t[i]["t"] = cps(v) },
    _ => if i > 0 && g.chance(30) { t.insert(i, co(d)) },
  }
  if !well_formed(t) { *t = old }
}
fn file(g: &mut Gen) -> Vec<Value> {
  let room = *g.pick(&[3, 6, 12, 25]);
  let rules = *g.pick(&[0, 1, 2, 3, 6]);
  let mut x = G { g, out: vec![el("pattern_file", 0, &[])], room };
  if x.g.chance(40) { x.meta(1) }
  let mut given: Vec<(String, String)> = Vec::new();
  for _ in 0..rules {
    let kind = *x.g.pick(&["pos", "mtext", "math", "word", "seq"]);
    rule(&mut x, kind, None, &mut given, room);
  }
  if x.g.chance(2) {
    let kind = *x.g.pick(&["pos", "mtext", "math", "word", "seq"]);
    for i in 0..x.g.range(9, 20) { rule(&mut x, kind, Some(&format!("r{i}")), &mut given, 1) }
  }
  if x.g.chance(85) {
    // define what is referenced
    loop {
      let missing: Vec<(String, String)> = x.out.iter().filter_map(|n| {
        let kind = n["n"].as_str().unwrap().strip_suffix("_ref")?;
        let a = n["a"].as_array().unwrap();
        let r = a.iter().find(|kv| kv["k"] == "ref")?;
        Some((kind.to_string(), text(&r["v"])))
      }).filter(|m| !given.contains(m)).collect();
      if missing.is_empty() { break }
      let (k, n) = missing[x.g.below(missing.len())].clone();
      rule(&mut x, &k, Some(&n), &mut given, 2);
    }
  }
  x.out
}
fn rule(x: &mut G, kind: &str, name: Option<&str>, given: &mut Vec<(String, String)>, room: usize) {
  let name = match name { Some(n) => n.to_string(), None => x.g.pick(&NAMES).to_string() };
  if given.contains(&(kind.to_string(), name.clone())) { return }
  x.room = room;
  x.push(&format!("{kind}_rule"), 1, &[("name", &name)]);
  let late = x.g.chance(30);
  if !late && x.g.chance(30) { x.meta(2) }
  x.noise(2);
  x.pattern(kind, 2);
  x.noise(2);
  if late && x.g.chance(50) { x.meta(2) }
  given.push((kind.to_string(), name));
}
fn table_of(doc: &libxml::tree::Document) -> Vec<Value> {
  let mut t = project(doc);
  for ((n, _), row) in all_nodes(doc).iter().zip(t.as_array_mut().unwrap()) {
    let mut a: Vec<(String, String)> = if n.is_element_node() { n.get_properties().into_iter().collect() } else { vec![] };
    a.sort();
    row["a"] = Value::Array(a.iter().map(|(k, v)| json!({"k": k, "v": cps(v)})).collect());
  }
  t.as_array().unwrap().clone()
}
/// small files that between them use every construct
const BASES: [&str; 16] = [
  r#"<pos_rule name="a"><pos tag="NN"/></pos_rule><word_rule name="a"><word_any/></word_rule>"#,
  r#"<pos_rule name="a"><pos_or><pos tag="NN"/><pos_not><pos tag="."/></pos_not><pos_ref ref="b"/></pos_or></pos_rule><pos_rule name="b"><pos tag="VB"/></pos_rule>"#,
  r#"<mtext_rule name="a"><mtext_or><mtext_lit str="x"/><mtext_not><mtext_any/></mtext_not><mtext_ref ref="b"/></mtext_or></mtext_rule><mtext_rule name="b"><mtext_lit str=" y"/></mtext_rule>"#,
  r#"<math_rule name="a"><math_node name="mi"><mtext_ref ref="a"/><math_children match_type="exact"><math_any/><math_ref ref="a"/></math_children></math_node></math_rule><mtext_rule name="a"><mtext_any/></mtext_rule>"#,
  r#"<math_rule name="a"><math_or><math_marker name="m" tags="t,u"><math_any/></math_marker><math_descendant match_type="first"><math_node/></math_descendant></math_or></math_rule>"#,
  r#"<word_rule name="a"><word_or><word>let</word><word_not><word_any/></word_not><word_ref ref="b"/></word_or></word_rule><word_rule name="b"><word>be</word></word_rule>"#,
  r#"<word_rule name="a"><word_marker name="m" tags="t"><word_pos><pos><pos tag="NN"/></pos><word_any/></word_pos></word_marker></word_rule>"#,
  r#"<word_rule name="a"><word_math><math_node name="mo"/></word_math></word_rule>"#,
  r#"<seq_rule name="a"><seq_or match_type="any"><seq_word><word>a</word></seq_word><seq_ref ref="b"/></seq_or></seq_rule><seq_rule name="b"><seq_seq/></seq_rule>"#,
  r#"<seq_rule name="a"><seq_seq><seq_word><word_any/></seq_word><seq_marker name="m" tags=""><seq_word><word>b</word></seq_word></seq_marker></seq_seq></seq_rule>"#,
  r#"<seq_rule name="a"><phrase tag="NP"><match_type>shortest</match_type><starts_with_seq containment="lessorequal"><seq_word><word>a</word></seq_word></starts_with_seq><ends_with_seq><seq_word><word>b</word></seq_word></ends_with_seq></phrase></seq_rule>"#,
  r#"<seq_rule name="a"><phrase tag="VP"/></seq_rule><seq_rule name="b"><seq_or><seq_word><word>a</word></seq_word></seq_or></seq_rule>"#,
  r#"<meta><description>All of it.</description></meta><pos_rule name="a"><pos tag="NN"/></pos_rule>"#,
  r#"<word_rule name="a"><meta><description> of it </description></meta><word_any/></word_rule>"#,
  r#"<seq_rule name="a"><meta/><seq_word><word_ref ref="a"/></seq_word></seq_rule><word_rule name="a"><word>x</word></word_rule><math_rule name="a"><meta/><math_any/></math_rule><mtext_rule name="a"><meta/><mtext_any/></mtext_rule>"#,
  r#"<seq_rule name="a"><seq_word><word_any/></seq_word></seq_rule><word_rule name="a"><word_any/></word_rule><math_rule name="a"><math_any/></math_rule><mtext_rule name="a"><mtext_any/></mtext_rule><pos_rule name="a"><pos tag="CD"/></pos_rule>"#,
];
/// the files that are one edit away from `t`
fn neighbours(t: &[Value], out: &mut Vec<Vec<Value>>) {
  let depth = |n: &Value| usize_of(&n["d"]);
  let mut names: Vec<String> = t.iter().filter(|n| n["k"] == "e").map(|n| n["n"].as_str().unwrap().to_string()).collect();
  names.sort();
  names.dedup();
  let mut keep = |v: Vec<Value>| if well_formed(&v) { out.push(v) };
  for i in 0..t.len() {
    let (d, e) = (depth(&t[i]), subtree(t, i));
    if i > 0 {
      let mut v = t.to_vec(); v.drain(i..e); keep(v);                                               // gone
      let mut v = t.to_vec(); v.splice(e..e, t[i..e].iter().cloned()); keep(v);                      // twice
      let mut v = t.to_vec(); v.remove(i); for n in v[i..e - 1].iter_mut() { n["d"] = json!(depth(n) - 1) } keep(v); // what is in it, instead
      if e < t.len() && depth(&t[e]) == d { let f = subtree(t, e); let mut v = t[..i].to_vec(); v.extend_from_slice(&t[e..f]); v.extend_from_slice(&t[i..e]); v.extend_from_slice(&t[f..]); keep(v) }
      let mut v = t.to_vec(); for n in v[i..e].iter_mut() { n["d"] = json!(depth(n) + 1) } let mut w = t[i].clone(); if w["k"] == "e" { w["d"] = json!(d); v.insert(i, w); keep(v) } // in itself
    }
    if t[i]["k"] == "t" {
      let old = text(&t[i]["t"]);
      for s in [format!(" {old}\n"), format!("{old}_"), "x".to_string(), " ".to_string(), old.to_uppercase(), format!("{old} {old}")] { let mut v = t.to_vec(); v[i]["t"] = cps(&s); keep(v) }
      continue;
    }
    let old = t[i]["n"].as_str().unwrap();
    for n in [format!("{old}_"), old[..old.len() - 1].to_string(), old.to_uppercase()].iter().chain(&names) { if n != old { let mut v = t.to_vec(); v[i]["n"] = json!(n); keep(v) } }
    let attrs = t[i]["a"].as_array().unwrap();
    for (j, a) in attrs.iter().enumerate() {
      let val = text(&a["v"]);
      let mut v = t.to_vec(); v[i]["a"].as_array_mut().unwrap().remove(j); keep(v);
      for s in [format!("{val} "), format!(" {val}"), format!("{val}_"), val.to_uppercase(), String::new(), "a".to_string(), "b".to_string(), format!("{val},{val}"), val.chars().rev().collect()] {
        if s != val { let mut v = t.to_vec(); v[i]["a"][j]["v"] = cps(&s); keep(v) }
      }
      let mut v = t.to_vec(); v[i]["a"][j]["k"] = json!(format!("{}_", a["k"].as_str().unwrap())); keep(v);
    }
    for (k, s) in [("name", "zz"), ("ref", "a"), ("match_type", "longest"), ("tags", "t"), ("tag", "NN"), ("str", "x"), ("containment", "any")] {
      if !attrs.iter().any(|a| a["k"] == k) { let mut v = t.to_vec(); v[i]["a"].as_array_mut().unwrap().push(json!({"k": k, "v": cps(s)})); keep(v) }
    }
    for at in [i + 1, e] { // first or last in it
      for n in [tx(d + 1, "x"), tx(d + 1, " "), co(d + 1), el("other", d + 1, &[]), el("pos", d + 1, &[("tag", "NN")]), el("word_any", d + 1, &[]), el("meta", d + 1, &[]), el("description", d + 1, &[])] {
        let mut v = t.to_vec(); v.insert(at, n); keep(v);
        if at == e && e == i + 1 { break }
      }
    }
  }
}
fn gen(g: &mut Gen) {
  let mut near = Vec::new();
  for b in BASES {
    let doc = Parser::default().parse_string(format!("<pattern_file>{b}</pattern_file>")).unwrap();
    let t = table_of(&doc);
    neighbours(&t, &mut near);
    near.push(t);
  }
  for t in near { g.push(json!({"tree": t})) }
  for _ in 0..g.amount(1500, 12000) {
    let mut t = file(g);
    if g.chance(60) { for _ in 0..g.range(1, 3) { mutate(g, &mut t) } }
    g.push(json!({"tree": t}));
  }
  // the pattern file that comes with the library
  if let Ok(doc) = Parser::default().parse_file("/repo/examples/declaration_pattern.xml") {
    let t = table_of(&doc);
    g.push(json!({"tree": t}));
  }
}
