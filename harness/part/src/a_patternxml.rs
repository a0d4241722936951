//! Pattern file XML helpers (C04)
use crate::driver::*;
use crate::patterns::utils::*;
use libxml::parser::Parser;
use libxml::readonly::RoNode;
use serde_json::{json, Value};

pub fn area() -> Area { Area { name: "patternxml", gen, exec } }

fn escape(s: &str) -> String { s.chars().map(|c| format!("&#{};", c as u32)).collect() }
fn position(n: &RoNode, all: &[RoNode]) -> usize {
  all.iter().position(|x| x == n).map(|i| i + 1).unwrap_or(0)
}
fn exec(input: &Value) -> Value {
  let mut s = String::from("<r><node");
  for p in input["props"].as_array().unwrap() {
    s.push_str(&format!(" {}=\"{}\"", text(&p[0]), escape(&text(&p[1]))));
  }
  s.push('>');
  for c in input["ch"].as_array().unwrap() {
    let t = text(&c["t"]);
    s.push_str(&match c["k"].as_str().unwrap() {
      "el" => format!("<x a=\"b\">{}</x>", escape(&t)),
      "text" => escape(&t),
      "comment" => format!("<!--{t}-->"),
      _ => format!("<?p {t}?>"),
    });
  }
  s.push_str("</node></r>");
  let doc = Parser::default().parse_string(s.as_bytes()).unwrap();
  let root = doc.get_root_readonly().unwrap();
  let node = root.get_first_child().unwrap();
  let mut all = Vec::new();
  let mut cur = node.get_first_child();
  while let Some(c) = cur {
    all.push(c);
    cur = c.get_next_sibling();
  }
  let list = |r: Result<Vec<RoNode>, String>| match r {
    Ok(v) => json!({"kind": "ok", "v": v.iter().map(|n| position(n, &all)).collect::<Vec<_>>()}),
    Err(_) => json!({"kind": "err"}),
  };
  let string = |r: Result<String, String>| match r {
    Ok(v) => json!({"kind": "ok", "v": cps(&v)}),
    Err(_) => json!({"kind": "err"}),
  };
  let prop = text(&input["prop"]);
  let res = match input["call"].as_str().unwrap() {
    "content" => string(get_simple_node_content(node, false)),
    "content_trim" => string(get_simple_node_content(node, true)),
    "strict" => list(get_non_text_children(node)),
    "fast" => list(Ok(fast_get_non_text_children(node))),
    "only" => list(get_only_child(node).map(|n| vec![n])),
    "nochild" => list(assert_no_child(node).map(|_| vec![])),
    "comments" => json!({"kind": "ok", "v": all.iter().map(|n| u32::from(is_comment_node(*n))).collect::<Vec<_>>()}),
    "require" => string(require_node_property(node, &prop)),
    _ => string(check_found_property_already(&node.get_property(&prop), "a", "b").map(|_| String::new())),
  };
  json!({"status": "ok", "res": res})
}

fn gen(g: &mut Gen) {
  const CALLS: [&str; 9] = ["content", "content_trim", "strict", "fast", "only", "nochild", "comments", "require", "already"];
  const TEXTS: [&str; 12] = [" ", "\n\t ", "\u{a0}", "\u{2003} ", " a", "é ", "\u{200b}", "a b", "\u{3000}x\u{3000}", "\r", ".", "\u{85}"];
  for _ in 0..g.amount(1200, 12000) {
    let mut ch: Vec<Value> = Vec::new();
    let n = *g.pick(&[0, 1, 1, 2, 3, 4, 6, 9]);
    for _ in 0..n {
      let kind = *g.pick(&["el", "text", "text", "comment", "pi"]);
      if kind == "text" && ch.last().map(|c| c["k"] == "text").unwrap_or(false) { continue }
      let t = if kind == "text" { *g.pick(&TEXTS) } else { "w w" };
      ch.push(json!({"k": kind, "t": cps(t)}));
    }
    let mut props = Vec::new();
    for p in ["name", "ref", "description"] {
      if g.chance(40) { props.push(json!([cps(p), cps(*g.pick(&["", "v", " v ", "é\n", "\u{a0}"]))])) }
    }
    let (call, prop) = (*g.pick(&CALLS), *g.pick(&["name", "ref", "description", "nam"]));
    g.push(json!({"call": call, "ch": ch, "props": props, "prop": cps(prop)}));
  }
}
