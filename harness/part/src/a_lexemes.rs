//! lexematize_math (C03)
use crate::dnm::node::lexematize_math;
use crate::driver::*;
use libxml::parser::Parser;
use libxml::xpath::Context;
use serde_json::{json, Value};

pub fn area() -> Area { Area { name: "lexemes", gen, exec } }

fn escape(s: &str) -> String { s.chars().map(|c| format!("&#{};", c as u32)).collect() }
fn xml(n: &Value, out: &mut String) {
  let name = n["n"].as_str().unwrap();
  let prefix = n["p"].as_str().unwrap_or("");
  out.push_str(&format!("<{prefix}{name}"));
  let e = n["e"].as_str().unwrap();
  if !e.is_empty() { out.push_str(&format!(" encoding=\"{e}\"")) }
  out.push('>');
  out.push_str(&escape(&text(&n["t"])));
  for c in n["ch"].as_array().unwrap() { xml(c, out) }
  out.push_str(&format!("</{prefix}{name}>"));
}

fn exec(input: &Value) -> Value {
  let mut body = String::new();
  // a long formula: what lies below the math element, or the text of its annotation, several times
  let times = input.get("times").map_or(1, |t| t.as_u64().unwrap() as usize);
  let mut tree = input["tree"].clone();
  if input.get("of").is_some_and(|o| o == "text") {
    let t = text(&tree["ch"][0]["t"]);
    tree["ch"][0]["t"] = cps(&vec![t; times].join(" "));
  } else if times > 1 {
    let ch = tree["ch"].as_array().unwrap().clone();
    tree["ch"] = json!((0..times).flat_map(|_| ch.clone()).collect::<Vec<_>>());
  }
  xml(&tree, &mut body);
  // a decoy annotation outside the math element must not count
  let doc = format!(
    "<r xmlns:m=\"http://www.w3.org/1998/Math/MathML\"><annotation encoding=\"application/x-llamapun\">outside</annotation>{body}</r>"
  );
  let doc = Parser::default().parse_string(doc.as_bytes()).unwrap();
  let mut context = Context::new(&doc).unwrap();
  let root = doc.get_root_readonly().unwrap();
  let math = root.get_child_nodes()[1];
  let res = lexematize_math(math, &mut context);
  // what repeats is given once
  let all: Vec<char> = res.chars().collect();
  if times > 1 && (all.len() + 1) % times == 0 {
    let unit: String = all[..(all.len() + 1) / times - 1].iter().collect();
    if vec![unit.clone(); times].join(" ") == res { return json!({"status": "ok", "res": cps(&unit)}) }
  }
  json!({"status": "ok", "res": cps(&res)})
}

const CHUNKS: [&str; 40] = [
  "ID:end", "ID:start", "OPEN:x", "CLOSE:end", ":end", ":start", " ", " ", " ", "\n", "\t", "\u{a0}", "UNKNOWN:f", "UNKNOWN:end", "NUMBER:12",
  "NUM", "xNUM", "ARRAY:end", "ARRAYS", "ATOM:q", "ATOM", "SUPERSCRIPTOP:2:end", "SUPERSCRIPTOP", "SUPERSCRIPT", "POSTFIX:end", "OVERACCENT:end",
  "UNDERACCENT:end", "RELOP:equals:1", "ADDOP:end", "MULOP:end", "a-b", ":", "-", "é", "λ:λ", "OPFUNCTION:end", "OPERATOR:end", "ARROW:end", "BIGOP:end",
  "BINOP:end",
];
/// something close to one of the words the format knows
fn near(g: &mut Gen) -> String {
  const KNOWN: [&str; 24] = ["NUM", "ARRAY", "ATOM", "SUPERSCRIPTOP", ":end", ":start", "OPFUNCTION:end", "OPERATOR:end", "OPEN:end", "CLOSE:end", "UNKNOWN:end",
    "RELOP:end", "ADDOP:end", "MULOP:end", "ARROW:end", "BIGOP:end", "BINOP:end", "ID:end", "OVERACCENT:end", "UNDERACCENT:end", "POSTFIX:end", "ID:start", "NUMBER", "SUPOP:end"];
  let mut w: Vec<char> = g.pick(&KNOWN).chars().collect();
  match g.below(6) {
    0 => { w.pop(); },
    1 => { w.remove(0); },
    2 => { let i = g.below(w.len()); w.remove(i); },
    3 => { let i = g.below(w.len()); w[i] = if w[i].is_lowercase() { w[i].to_ascii_uppercase() } else { w[i].to_ascii_lowercase() } },
    4 => { let i = g.range(0, w.len()); w.insert(i, *g.pick(&['S', ':', '-', ' ', '_', 'e'])) },
    _ => {},
  }
  w.into_iter().collect()
}
fn node(g: &mut Gen, depth: usize) -> Value {
  let anno = g.chance(60);
  let name = if anno { "annotation" } else { *g.pick(&["semantics", "mrow", "mi", "annotation-xml", "Annotation"]) };
  let e = *g.pick(&["application/x-llamapun", "application/x-llamapun", "application/x-llamapun", "application/x-tex", "", "application/x-llamapun "]);
  let m = if g.below(300) == 0 { g.range(12, 20) } else { g.range(0, 9) };
  let close = g.chance(40);
  let t: String = (0..m).map(|_| if close && g.chance(50) { near(g) + g.pick(&["", " ", ":1 "]) } else { g.pick(&CHUNKS).to_string() }).collect();
  let ch: Vec<Value> = if depth == 0 { vec![] } else { { let m = g.below(3); (0..m).map(|_| node(g, depth - 1)).collect() } };
  json!({"n": name, "p": if g.chance(20) { "m:" } else { "" }, "e": e, "t": cps(&t), "ch": ch})
}
fn gen(g: &mut Gen) {
  for _ in 0..g.amount(500, 6000) {
    let depth = g.range(0, 3);
    let m = g.range(0, 3);
    let ch: Vec<Value> = (0..m).map(|_| node(g, depth)).collect();
    // the math node itself may carry the encoding attribute: it is not below itself
    let e = if g.chance(10) { "application/x-llamapun" } else { "" };
    let n = if g.chance(10) { "annotation" } else { "math" };
    g.push(json!({"tree": {"n": n, "p": "", "e": e, "t": [], "ch": ch}}));
  }
  // long ones
  for _ in 0..g.amount(30, 300) {
    let times = *g.pick(&[2, 7, 40, 90, 300, 1500]);
    let one = |t: String| json!({"n": "math", "p": "", "e": "", "t": [], "ch": [{"n": "annotation", "p": "", "e": "application/x-llamapun", "t": cps(&t), "ch": []}]});
    if g.chance(50) {
      let t: String = (0..g.range(1, 6)).map(|_| *g.pick(&CHUNKS)).collect();
      if !t.trim().is_empty() { g.push(json!({"tree": one(t), "times": times, "of": "text"})) }
    } else {
      let ch: Vec<Value> = (0..g.range(1, 2)).map(|_| node(g, 1)).collect();
      g.push(json!({"tree": {"n": "math", "p": "", "e": "", "t": [], "ch": ch}, "times": times}));
    }
  }
}
