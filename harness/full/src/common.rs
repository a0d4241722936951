//! Helpers for several areas
use crate::driver::*;
use llamapun::dnm::DNM;

/// A DNM that consists of a plain text only
pub fn text_dnm(text: &str) -> DNM {
  let mut byte_offsets: Vec<usize> = text.char_indices().map(|(i, _)| i).collect();
  byte_offsets.push(text.len());
  DNM { plaintext: text.to_string(), byte_offsets, ..DNM::default() }
}

pub fn usize_of(v: &serde_json::Value) -> usize { v.as_u64().unwrap() as usize }

/// characters of all UTF-8 lengths and classes
pub const CHARS: [char; 60] = [
  'a', 's', 't', 'S', 'z', 'Q', '0', '7', ' ', ' ', ' ', '\n', '\t', '\u{a0}', '\u{2003}', '\u{3000}', '\'', '\'', '\u{2019}', '.', ',', '!', '?', '(',
  ')', '"', '-', '_', '*', ':', 'é', 'ß', 'Æ', 'İ', 'λ', 'Σ', '\u{301}', '½', '²', 'Ⅷ', '–', '…', '∀', '一', 'ﬁ', '\u{1d400}', '😀', '\u{200b}',
  '<', '>', '&', ';', '[', ']', '{', '/', '\u{feff}', 'Ａ', 'क', '\u{10400}',
];
/// a text that does not go through a file: characters that XML does not have, or does not keep, as well
pub fn raw_text(g: &mut Gen, max: usize) -> String {
  const MORE: [char; 7] = ['\r', '\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{1680}', '}'];
  let t = random_text(g, max);
  if g.chance(70) { return t }
  t.chars().map(|c| if g.chance(15) { *g.pick(&MORE) } else { c }).collect()
}
/// the characters that the sources of the library name
fn named_chars() -> &'static [char] {
  static NAMED: std::sync::OnceLock<Vec<char>> = std::sync::OnceLock::new();
  NAMED.get_or_init(|| {
    let mut out = Vec::new();
    for file in ["tokenizer.rs", "data.rs", "dnm/mod.rs", "dnm/node.rs", "dnm/c14n.rs", "dnm/range.rs", "util/data_helpers.rs", "util/token_model.rs", "util/path_helpers.rs"] {
      let src = std::fs::read_to_string(format!("/repo/src/{file}")).unwrap_or_default();
      out.extend(src.split("\\u{").skip(1).filter_map(|p| char::from_u32(u32::from_str_radix(p.split('}').next()?, 16).ok()?)));
      out.extend(src.chars().filter(|c| !c.is_ascii()));
    }
    out.retain(|&c| listed(c));
    if out.is_empty() { out.push('’') }
    out.sort();
    out.dedup();
    out
  })
}
/// inside the ranges that spec/CharTables.tla lists
fn listed(c: char) -> bool { matches!(c as u32, 161..=1647 | 2304..=2431 | 4256..=4351 | 7680..=11263 | 12288..=12290) }
fn any_char(g: &mut Gen) -> char {
  loop {
    let c = match g.below(5) {
      0 | 1 => g.range(32, 126),
      2 => return *g.pick(named_chars()),
      3 => g.range(161, 1647),
      _ => { let from = *g.pick(&[7680, 8192, 8448, 8704, 9600]); g.range(from, 11263) },
    };
    if let Some(c) = char::from_u32(c as u32) { return c }
  }
}
pub fn random_text(g: &mut Gen, max: usize) -> String {
  let n = g.range(0, max);
  let ascii = g.chance(25);
  let any = g.chance(20);
  (0..n).map(|_| loop {
    if any && !ascii && g.chance(30) { return any_char(g) }
    let c = *g.pick(&CHARS);
    if !ascii || c.is_ascii() { break c }
  }).collect()
}

// ---- documents as tables of nodes (spec/Tree.tla)
use libxml::parser::Parser;
use libxml::readonly::RoNode;
use libxml::tree::{Document, NodeType};
use serde_json::{json, Value};

/// the prefixes documents are written with (the last two stand for a namespace that has another one as well)
pub const NS: [(&str, &str); 5] =
  [("svg", "http://www.w3.org/2000/svg"), ("m", "http://www.w3.org/1998/Math/MathML"), ("x", "urn:x"), ("y", "urn:x"), ("d", "urn:default")];

pub fn escape(s: &str) -> String { s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;").replace('\n', "&#10;").replace('\t', "&#9;") }
pub fn escape_text(s: &str) -> String { s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;") }

/// nodes a namespace prefix "-" stands for: the default namespace, declared on the node itself
pub fn to_xml(tree: &Value) -> String {
  let nodes = tree.as_array().unwrap();
  let mut out = String::new();
  let mut open: Vec<(u64, String)> = Vec::new();
  for (i, n) in nodes.iter().enumerate() {
    let d = n["d"].as_u64().unwrap();
    while open.last().is_some_and(|o| o.0 >= d) { out.push_str(&format!("</{}>", open.pop().unwrap().1)) }
    match n["k"].as_str().unwrap() {
      "t" => out.push_str(&escape_text(&text(&n["t"]))),
      "c" => out.push_str(&format!("<!--{}-->", text(&n["t"]))),
      "p" => out.push_str(&format!("<?{} {}?>", n["n"].as_str().unwrap(), text(&n["t"]))),
      _ => {
        let ns = n["ns"].as_str().unwrap();
        let name = if ns.is_empty() || ns == "-" { n["n"].as_str().unwrap().to_string() } else { format!("{ns}:{}", n["n"].as_str().unwrap()) };
        out.push_str(&format!("<{name}"));
        if i == 0 { for (p, u) in NS { out.push_str(&format!(" xmlns:{p}=\"{u}\"")) } }
        if ns == "-" { out.push_str(" xmlns=\"urn:default\"") } else if i > 0 && ns.is_empty() { out.push_str(" xmlns=\"\"") }
        if let Some(a) = n.get("a") {
          for kv in a.as_array().unwrap() { out.push_str(&format!(" {}=\"{}\"", kv["k"].as_str().unwrap(), escape(&text(&kv["v"])))) }
        }
        if !text(&n["c"]).is_empty() { out.push_str(&format!(" class=\"{}\"", escape(&text(&n["c"])))) }
        if !text(&n["id"]).is_empty() { out.push_str(&format!(" id=\"{}\"", escape(&text(&n["id"])))) }
        out.push('>');
        open.push((d, name));
      },
    }
  }
  while let Some(o) = open.pop() { out.push_str(&format!("</{}>", o.1)) }
  out
}
/// all nodes of a document in document order, with their depth
pub fn all_nodes(doc: &Document) -> Vec<(RoNode, u64)> {
  fn walk(n: RoNode, d: u64, out: &mut Vec<(RoNode, u64)>) {
    out.push((n, d));
    if n.is_element_node() {
      let mut c = n.get_first_child();
      while let Some(x) = c {
        walk(x, d + 1, out);
        c = x.get_next_sibling();
      }
    }
  }
  let mut out = Vec::new();
  if let Some(r) = doc.get_root_readonly() { walk(r, 0, &mut out) }
  out
}
pub fn project(doc: &Document) -> Value {
  Value::Array(all_nodes(doc).iter().map(|(n, d)| {
    let k = match n.get_type() {
      Some(NodeType::ElementNode) => "e",
      Some(NodeType::TextNode) => "t",
      Some(NodeType::CommentNode) => "c",
      Some(NodeType::PiNode) => "p",
      _ => "o",
    };
    let attr = |a: &str| if k == "e" { cps(&n.get_property_no_ns(a).unwrap_or_default()) } else { json!([]) };
    let ns = match n.get_namespace() { Some(ns) if k == "e" => { let p = ns.get_prefix(); if p.is_empty() { "-".to_string() } else { p } }, _ => String::new() };
    json!({"k": k, "n": n.get_name(), "ns": ns, "d": d, "c": attr("class"), "id": attr("id"), "t": if k == "e" { json!([]) } else { cps(&n.get_content()) }})
  }).collect())
}
fn normalize_table(tree: &Value) -> Value {
  Value::Array(tree.as_array().unwrap().iter().map(|n| {
    let mut n = n.clone();
    n.as_object_mut().unwrap().remove("a");
    n
  }).collect())
}
/// the document of a table; the harness refuses tables that do not survive the XML parser
pub fn document(tree: &Value) -> Document {
  let xml = to_xml(tree);
  let doc = Parser::default().parse_string(&xml).unwrap_or_else(|e| tool_error(&format!("{e:?} parsing {xml}")));
  let got = project(&doc);
  if got != normalize_table(tree) { tool_error(&format!("the parsed document is not the one described: {xml}\n{got}\n{tree}")) }
  doc
}
pub fn tool_error(message: &str) -> ! {
  eprintln!("{message}");
  std::process::exit(4)
}
/// runs the code under test; a panic becomes the observation
pub fn guarded(f: impl FnOnce() -> Value) -> Value {
  std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|e| json!({"status": "panic", "message": panic_message(e)}))
}
pub fn prop() -> String { std::env::var("PROP").unwrap_or_default() }

pub fn element(n: &str, d: usize, class: &str) -> Value { json!({"k": "e", "n": n, "ns": "", "d": d, "c": cps(class), "id": [], "t": []}) }
pub fn text_node(d: usize, t: &str) -> Value { json!({"k": "t", "n": "text", "ns": "", "d": d, "c": [], "id": [], "t": cps(t)}) }
pub fn comment(d: usize, t: &str) -> Value { json!({"k": "c", "n": "comment", "ns": "", "d": d, "c": [], "id": [], "t": cps(t)}) }

/// a random document of elements (name, class), texts and comments
pub fn random_tree(g: &mut Gen, max: usize, root: &str, elements: &[(&str, &str)], texts: &dyn Fn(&mut Gen) -> String) -> Vec<Value> {
  // a few documents are much larger, much wider (many siblings of one kind) or much deeper than the others
  let shape = match g.below(200) { 0..=2 => 'b', 3..=6 => 'w', 7..=9 => 'd', _ => 'n' };
  let n = match shape { 'b' => g.range(2 * max, 4 * max), 'w' => g.range(13, 26), 'd' => g.range(12, 30), _ => g.range(0, max) };
  let common = *g.pick(elements);
  let mut out = vec![element(root, 0, "")];
  let mut depth = 0; // of the last node
  let mut leaf = false;
  let mut last_text_depth = usize::MAX; // depth of the directly preceding sibling if it is a text
  for _ in 0..n {
    let top = if leaf { depth } else { depth + 1 };
    let mut d = match shape {
      'w' if g.chance(85) => 1,
      'd' if g.chance(93) => top,
      _ => if g.chance(75) { top } else { g.range(1, top.max(1)) },
    };
    if d == 0 { d = 1 }
    match if shape == 'n' || g.chance(40) { g.below(100) } else { 99 } {
      0..=44 if last_text_depth != d || depth < d => {
        let mut t = texts(g);
        if g.below(250) == 0 { for _ in 0..60 { t.push_str(&texts(g)) } }
        if t.is_empty() { continue }
        // a text may not follow its sibling text
        if previous_sibling_is_text(&out, d) { continue }
        out.push(text_node(d, &t));
        leaf = true;
        last_text_depth = d;
      },
      45..=52 => { out.push(comment(d, "note")); leaf = true; },
      _ => { let (n, c) = if shape == 'w' && g.chance(80) { common } else { *g.pick(elements) }; out.push(element(n, d, c)); leaf = false; },
    }
    depth = d;
  }
  out
}
pub fn previous_sibling_is_text(nodes: &[Value], d: usize) -> bool {
  for n in nodes.iter().rev() {
    let e = usize_of(&n["d"]);
    if e == d { return n["k"] == "t" }
    if e < d { return false }
  }
  false
}
