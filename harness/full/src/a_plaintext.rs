//! Plain text of documents and its maps (C08, C09, C26)
use crate::common::*;
use crate::driver::*;
use libxml::readonly::RoNode;
use llamapun::dnm::{DNMParameters, SpecialTagsOption, DNM};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::Arc;

pub fn area() -> Area { Area { name: "plaintext", gen, exec } }

fn computed(n: RoNode) -> String { format!("<{}>", n.get_name()) }

fn option(r: &Value) -> SpecialTagsOption {
  match r["rule"].as_str().unwrap() {
    "enter" => SpecialTagsOption::Enter,
    "skip" => SpecialTagsOption::Skip,
    "token" => SpecialTagsOption::Normalize(text(&r["token"])),
    _ => SpecialTagsOption::FunctionNormalize(Arc::new(computed)),
  }
}
pub fn parameters(input: &Value) -> DNMParameters {
  if input["default"] == true { return DNMParameters::llamapun_normalization() }
  let p = &input["par"];
  let flag = |n: &str| p[n].as_bool().unwrap();
  let names: HashMap<String, SpecialTagsOption> =
    input["names"].as_array().unwrap().iter().map(|r| (r["key"].as_str().unwrap().to_string(), option(r))).collect();
  let classes: HashMap<String, SpecialTagsOption> = input["classes"].as_array().unwrap().iter().map(|r| (text(&r["key"]), option(r))).collect();
  // a parameter with its documented default value is left out
  let mut parameters = DNMParameters { special_tag_name_options: names, special_tag_class_options: classes, ..DNMParameters::default() };
  if !flag("ws") { parameters.normalize_white_spaces = false }
  if flag("wrap") { parameters.wrap_tokens = true }
  if flag("uni") { parameters.normalize_unicode = true }
  if flag("stem") { parameters.stem_words_once = true }
  if flag("full") { parameters.stem_words_full = true }
  if flag("lower") { parameters.convert_to_lowercase = true }
  if !flag("back") { parameters.support_back_mapping = false }
  parameters
}

/// A long document is a unit, repeated: the children of the root ("nodes") or its only text ("chars").
fn expanded(input: &Value) -> Value {
  let tree = input["tree"].as_array().unwrap();
  let times = usize_of(&input["times"]);
  let mut out = vec![tree[0].clone()];
  if input["mode"] == "nodes" {
    for _ in 0..times { out.extend(tree[1..].iter().cloned()) }
  } else {
    let t = text(&tree[1]["t"]);
    out.push(text_node(1, &t.repeat(times)));
  }
  json!(out)
}
/// The observation of a long document: the successive units that are equal (relative to their start) are
/// counted and given once.
fn exec_long(input: &Value) -> Value {
  let doc = document(&expanded(input));
  let nodes: Vec<RoNode> = all_nodes(&doc).into_iter().map(|x| x.0).collect();
  let number: HashMap<_, usize> = nodes.iter().enumerate().map(|(i, n)| (n.to_hashable(), i + 1)).collect();
  let number = |n: RoNode| number.get(&n.to_hashable()).cloned().unwrap_or(0);
  let tree = input["tree"].as_array().unwrap();
  let times = usize_of(&input["times"]);
  let by_nodes = input["mode"] == "nodes";
  let (unit_nodes, unit_source) = if by_nodes { (tree.len() - 1, 0) } else { (0, text(&tree[1]["t"]).chars().count()) };
  let runs = |units: Vec<Value>| {
    let mut out: Vec<(usize, Value)> = Vec::new();
    for u in units {
      match out.last_mut() { Some((n, v)) if *v == u => *n += 1, _ => out.push((1, u)) }
    }
    out.truncate(3); // of unequal units these tell enough
    json!(out.into_iter().map(|(n, v)| json!({"count": n, "obs": v})).collect::<Vec<_>>())
  };
  let maps = prop() == "C09";
  guarded(|| {
    let dnm = DNM::new(nodes[0], parameters(input));
    let chars: Vec<char> = dnm.plaintext.chars().collect();
    let len = chars.len();
    if len % times != 0 { return json!({"status": "ok", "len": len, "runs": []}) }
    let l = len / times;
    if !maps {
      let again = DNM::new(nodes[0], parameters(input));
      let stable = dnm.plaintext == again.plaintext && dnm.get_plaintext() == dnm.plaintext;
      let units = (0..times).map(|q| json!({"status": "ok", "text": cps(&chars[q * l..(q + 1) * l].iter().collect::<String>()), "stable": stable})).collect();
      return json!({"status": "ok", "len": len, "runs": runs(units)});
    }
    let whole = match dnm.get_range() { Ok(r) => (r.start, r.end), Err(_) => (1, 0) };
    if dnm.byte_offsets.len() != len + 1 || !(dnm.back_map.is_empty() || dnm.back_map.len() == len) || whole != (0, len) {
      return json!({"status": "ok", "len": len, "runs": []});
    }
    let range = |n: RoNode, q: usize| match dnm.get_range_of_node(n) {
      Ok(r) if (r.start, r.end) == whole && r.get_plaintext() == dnm.plaintext => json!([0, l, cps(&chars[..l].iter().collect::<String>())]),
      Ok(r) => json!([r.start as i64 - (q * l) as i64, r.end as i64 - (q * l) as i64, cps(r.get_plaintext())]),
      Err(_) => json!([]),
    };
    let b = (dnm.byte_offsets[l] - dnm.byte_offsets[0]) as i64;
    let all = dnm.get_range().unwrap();
    let units = (0..times)
      .map(|q| {
        let bytes: Vec<i64> = (q * l..=(q + 1) * l).map(|i| dnm.byte_offsets[i] as i64 - q as i64 * b).collect();
        let relative = |n: usize| n as i64 - (q * unit_nodes) as i64;
        let at = q * l..if dnm.back_map.is_empty() { q * l } else { (q + 1) * l };
        let back: Vec<Value> = at.clone().map(|i| json!([relative(number(dnm.back_map[i].0)), dnm.back_map[i].1 as i64 - (q * unit_source) as i64])).collect();
        let starts: Vec<i64> = at.map(|i| relative(number(all.get_subrange(i, i + 1).get_node()))).collect();
        let mut ranges = vec![range(nodes[0], 0)];
        if by_nodes { ranges.extend((0..unit_nodes).map(|i| range(nodes[1 + q * unit_nodes + i], q))) } else { ranges.push(range(nodes[1], 0)) }
        json!({"status": "ok", "bytes": bytes, "back": back, "ranges": ranges, "whole": [0, l], "starts": starts})
      })
      .collect();
    json!({"status": "ok", "len": len, "runs": runs(units)})
  })
}

fn exec(input: &Value) -> Value {
  if input.get("times").is_some() { return exec_long(input) }
  let doc = document(&input["tree"]);
  let nodes: Vec<RoNode> = all_nodes(&doc).into_iter().map(|x| x.0).collect();
  let root = nodes[usize_of(&input["root"]) - 1];
  let p = prop();
  if p == "C09" {
    return guarded(|| {
      let dnm = DNM::new(root, parameters(input));
      let number = |n: RoNode| nodes.iter().position(|m| *m == n).map(|i| i + 1).unwrap_or(0);
      let back: Vec<Value> = dnm.back_map.iter().map(|(n, o)| json!([number(*n), o])).collect();
      let ranges: Vec<Value> = nodes
        .iter()
        .map(|n| match dnm.get_range_of_node(*n) {
          Ok(r) => json!([r.start, r.end, cps(r.get_plaintext())]),
          Err(_) => json!([]),
        })
        .collect();
      let whole = match dnm.get_range() { Ok(r) => json!([r.start, r.end]), Err(_) => json!([]) };
      let starts: Vec<usize> = if dnm.back_map.is_empty() { vec![] } else {
        (0..dnm.back_map.len()).map(|i| number(dnm.get_range().unwrap().get_subrange(i, i + 1).get_node())).collect()
      };
      json!({"status": "ok", "bytes": dnm.byte_offsets, "back": back, "ranges": ranges, "whole": whole, "starts": starts})
    });
  }
  guarded(|| {
    let first = DNM::new(root, parameters(input));
    let again = DNM::new(root, parameters(input));
    let mut stable = first.plaintext == again.plaintext && first.get_plaintext() == first.plaintext;
    if input["threads"] == true {
      use rayon::prelude::*;
      let texts: Vec<String> = (0..8usize).into_par_iter().map(|_| DNM::new(root, parameters(input)).plaintext).collect();
      stable &= texts.iter().all(|t| *t == first.plaintext);
    }
    json!({"status": "ok", "text": cps(&first.plaintext), "stable": stable})
  })
}

const ELEMENTS: [(&str, &str); 25] = [
  ("Table", ""), ("MATH", ""), ("Table", "X"),
  ("p", ""), ("p", ""), ("div", "x"), ("div", "y x"), ("div", "z y"), ("span", "w"), ("span", "v  w\tx"), ("math", ""), ("math", "x"), ("em", ""), ("em", "u"),
  ("table", "z"), ("table", ""), ("q", "Xx"), ("q", "xx y"), ("span", ""), ("b", "\u{a0}x"), ("b", "y\nz"), ("i", "u v"), ("math", "v"), ("i", "é"), ("div", "é x"),
];
pub const DEFAULT_ELEMENTS: [(&str, &str); 50] = [
  ("math", "ltx_Math"), ("math", ""), ("cite", "ltx_cite"), ("cite", ""), ("img", ""), ("img", "ltx_graphics"), ("table", "ltx_tabular"), ("table", "ltx_equation"),
  ("table", "ltx_equationgroup ltx_eqn_table"), ("table", "ltx_eqn_table ltx_equation"), ("tr", "ltx_equation ltx_eqn_row"), ("div", "ltx_equation"), ("head", ""),
  ("footer", "ltx_page_footer"), ("a", "ltx_ref"), ("span", "ltx_ref ltx_nolink"), ("a", "ltx_ref_tag"), ("div", "ltx_authors"), ("span", "ltx_author_notes"),
  ("nav", "ltx_TOC ltx_toc_toc"), ("nav", "ltx_toc"), ("sup", "ltx_note_mark"), ("span", "ltx_note_outer"), ("span", "ltx_note ltx_role_footnote"),
  ("section", "ltx_bibliography"), ("span", "ltx_tag ltx_tag_figure"), ("span", "ltx_tag ltx_tag_table"), ("span", "ltx_tag ltx_tag_item"), ("figcaption", "ltx_caption"),
  ("div", "ltx_para"), ("p", "ltx_p"), ("section", "ltx_section"), ("h1", "ltx_title ltx_title_document"), ("span", "ltx_text"), ("em", "ltx_emph"), ("body", ""), ("header", ""),
  ("li", ""), ("td", "ltx_td"), ("div", "ltx_bibblock"), ("div", "ltx_note_content"), ("figure", "ltx_figure"), ("figure", "ltx_table"), ("semantics", ""), ("mi", ""),
  ("div", "ltx_Equation"), ("span", "ltx_authors ltx_ref"), ("span", "ltx_ref ltx_authors"), ("math", "ltx_ref"), ("thead", ""),
];
pub fn random_rules(g: &mut Gen) -> (Vec<Value>, Vec<Value>) {
  let mut rule = |g: &mut Gen, key: Value| {
    let kind = *g.pick(&["enter", "skip", "token", "token", "computed"]);
    let token = if kind == "token" { *g.pick(&["t", "tok", "\nt\n", "É2", "[link]", "t ", " t", "", " ", "\u{a0}t\t"]) } else { "" };
    json!({"key": key, "rule": kind, "token": cps(token)})
  };
  let mut names = Vec::new();
  for n in ["math", "table", "em", "q", "p", "Table"] { if g.chance(40) { names.push(rule(g, json!(n))) } }
  let mut classes = Vec::new();
  for c in ["x", "y", "z", "w", "v", "é"] { if g.chance(45) { classes.push(rule(g, cps(c))) } }
  (names, classes)
}
pub fn random_flags(g: &mut Gen, maps: bool) -> Value {
  let stem = g.chance(if maps { 10 } else { 25 });
  let (once, full) = if stem { *g.pick(&[(true, false), (false, true), (true, true)]) } else { (false, false) };
  json!({"ws": g.chance(65), "wrap": g.chance(50), "uni": g.chance(50), "stem": once, "full": full, "lower": g.chance(40), "back": if stem { maps && g.chance(20) } else { g.chance(85) }})
}
fn phrase(g: &mut Gen) -> String {
  if g.chance(50) { random_text(g, 8) } else {
    const P: [&str; 17] = ["GLASS", "RING", "straß", "ingß", "ş", "words", "running ", " sings", "ÆON ", "\n\n", " ", "a\u{a0} b", "–", "…x", "İs", "glass", "ring"];
    (0..g.range(1, 3)).map(|_| *g.pick(&P)).collect()
  }
}

fn gen(g: &mut Gen) {
  let p = prop();
  if p == "C26" {
    for _ in 0..g.amount(1500, 20000) {
      let tree = random_tree(g, 18, "html", &DEFAULT_ELEMENTS, &phrase);
      g.push(json!({"tree": tree, "root": 1, "default": true}));
    }
    // every documented element on its own, with text around and inside
    for (n, c) in DEFAULT_ELEMENTS {
      let tree = vec![element("html", 0, ""), element("p", 1, ""), text_node(2, "a\nb"), element(n, 2, c), text_node(3, "in"), element("b", 3, ""), text_node(4, "ner"), text_node(2, "c")];
      g.push(json!({"tree": tree, "root": 1, "default": true}));
    }
    return;
  }
  let maps = p == "C09";
  for _ in 0..g.amount(1500, 20000) {
    let tree = random_tree(g, 14, "r", &ELEMENTS, &phrase);
    let (names, classes) = random_rules(g);
    let root = if g.chance(70) { 1 } else { g.range(1, tree.len()) };
    let threads = g.chance(15);
    let par = random_flags(g, maps);
    g.push(json!({"tree": tree, "root": root, "names": names, "classes": classes, "par": par, "threads": threads}));
  }
  // documents longer than any offset of 8, 15 or 16 bits
  for i in 0..g.amount(36, 300) {
    let (names, classes) = random_rules(g);
    let mut par = random_flags(g, maps);
    if par["stem"] == true || par["full"] == true { par["back"] = json!(false) }
    let mode = if g.chance(70) { "nodes" } else { "chars" };
    let (tree, unit) = if mode == "nodes" {
      let mut tree = random_tree(g, 10, "r", &ELEMENTS, &phrase);
      tree.insert(1, element("i", 1, ""));
      tree.push(element("b", 1, ""));
      tree.push(text_node(1, " "));
      let unit: usize = tree.iter().map(|n| n["t"].as_array().unwrap().len()).sum();
      (tree, unit)
    } else {
      for f in ["stem", "full"] { par[f] = json!(false) }
      let t = format!("{} ", phrase(g));
      let unit = t.chars().count();
      (vec![element("r", 0, ""), text_node(1, &t)], unit)
    };
    let length = match i % 6 { 0 | 1 => g.range(260, 1100), 2 => g.range(4090, 9000), 3 => g.range(33000, 40000), 4 => g.range(66000, 80000), _ => g.range(132000, 140000) };
    let times = (length / unit.max(1)).clamp(2, if mode == "nodes" { 6000 } else { 140000 });
    g.push(json!({"tree": tree, "root": 1, "names": names, "classes": classes, "par": par, "threads": false, "mode": mode, "times": times}));
  }
}
