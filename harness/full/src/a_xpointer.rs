//! Ranges through XPointers (C12)
use crate::a_plaintext::{parameters, random_flags, random_rules};
use crate::common::*;
use crate::driver::*;
use libxml::readonly::RoNode;
use libxml::xpath::Context;
use llamapun::dnm::{DNMRange, DNM};
use serde_json::{json, Value};

pub fn area() -> Area { Area { name: "xpointer", gen, exec } }

fn exec(input: &Value) -> Value {
  let doc = document(&input["tree"]);
  let nodes: Vec<RoNode> = all_nodes(&doc).into_iter().map(|x| x.0).collect();
  guarded(|| {
    let dnm = DNM::new(nodes[usize_of(&input["root"]) - 1], parameters(input));
    let context = Context::new(&doc).unwrap();
    for (p, u) in NS { context.register_namespace(p, u).unwrap() }
    let n = dnm.plaintext.chars().count();
    let wanted: Vec<(usize, usize)> = match input["ranges"].as_array() {
      Some(rs) => rs.iter().map(|r| (usize_of(&r[0]), usize_of(&r[1]))).filter(|r| r.0 < r.1 && r.1 <= n).collect(),
      None => (0..n).flat_map(|s| (s + 1..=n).map(move |e| (s, e))).collect(),
    };
    let ranges: Vec<Value> = wanted
      .into_iter()
      .map(|(s, e)| {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
          let pointer = DNMRange { start: s, end: e, dnm: &dnm }.serialize();
          let back = DNMRange::deserialize(&pointer, &dnm, &context);
          (back.start, back.end)
        }));
        match r {
          Ok((rs, re)) => json!({"s": s, "e": e, "status": "ok", "rs": rs, "re": re}),
          Err(m) => json!({"s": s, "e": e, "status": "panic", "rs": 0, "re": 0, "message": panic_message(m)}),
        }
      })
      .collect();
    json!({"status": "ok", "len": n, "ranges": ranges})
  })
}

fn gen(g: &mut Gen) {
  const ELEMENTS: [(&str, &str); 12] =
    [("p", ""), ("p", ""), ("p", "x"), ("div", ""), ("div", "y"), ("span", ""), ("math", ""), ("math", "z"), ("em", ""), ("q", "w"), ("table", ""), ("p", "v")];
  let words = |g: &mut Gen| if g.chance(60) { random_text(g, 5) } else { (*g.pick(&["text", "ß…", " ", "Æa"])).to_string() };
  for _ in 0..g.amount(1500, 20000) {
    let mut tree = random_tree(g, 14, "r", &ELEMENTS, &words);
    let mut next_id = 0;
    for (i, n) in tree.iter_mut().enumerate() {
      if n["k"] != "e" { if n["k"] == "c" && g.chance(30) { *n = json!({"k": "p", "n": "target", "ns": "", "d": n["d"], "c": [], "id": [], "t": cps("data")}) } continue }
      if g.chance(18) { next_id += 1; n["id"] = cps(&format!("S{next_id}.p{next_id}")) }
      if i > 0 && g.chance(35) { n["ns"] = json!(*g.pick(&["svg", "x", "y", "d", "-", "-"])) }
      if g.chance(10) { n["a"] = json!([{"k": "xml:id", "v": cps(&format!("X{i}"))}]) }
      else if g.chance(10) { n["a"] = json!([{"k": "title", "v": cps("t\"")}]) }
    }
    let root = if g.chance(65) { 1 } else { loop { let r = g.range(1, tree.len()); if tree[r - 1]["k"] == "e" { break r } } };
    let (names, classes) = random_rules(g);
    let mut par = random_flags(g, true);
    par["back"] = json!(true);
    for f in ["stem", "full"] { par[f] = json!(false) }
    let far = if tree.len() > 16 { 150 } else { 40 };
    let ranges: Vec<Value> = (0..25).map(|_| { let s = g.range(0, far); let m = if g.chance(60) { 4 } else { 30 }; json!([s, s + g.range(1, m)]) }).collect();
    g.push(json!({"tree": tree, "root": root, "names": names, "classes": classes, "par": par, "ranges": ranges}));
  }
  // many siblings, long texts
  for _ in 0..g.amount(4, 40) {
    let mut tree = vec![element("r", 0, "")];
    let wide = g.chance(70);
    if wide {
      let n = g.range(142, 155);
      for i in 0..n {
        if g.chance(96) { tree.push(element("p", 1, "")); if i % 4 == 0 || i + 10 > n { tree.push(text_node(2, g.pick(&["a", "ß", " b"]))) } }
        else if !previous_sibling_is_text(&tree, 1) { tree.push(text_node(1, "t")) }
      }
    } else {
      tree.push(element("p", 1, ""));
      let t: String = (0..g.range(140, 300)).map(|_| *g.pick(&['a', 'b', 'ß', 'x'])).collect();
      tree.push(text_node(2, &t));
    }
    let par = random_flags(g, true);
    let mut par = par;
    par["back"] = json!(true);
    for f in ["stem", "full"] { par[f] = json!(false) }
    let last = if wide { 50 } else { 300 };
    let ranges: Vec<Value> = (0..25).map(|i| { let s = if wide && i < 10 { g.range(35, 50) } else { g.range(0, last) }; let m = g.range(1, 20); json!([s, s + m]) }).collect();
    g.push(json!({"tree": tree, "root": 1, "names": [], "classes": [], "par": par, "ranges": ranges}));
  }
}
