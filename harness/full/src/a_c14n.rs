//! Canonical forms and hashes (C10)
use crate::a_plaintext::{parameters, random_flags, random_rules};
use crate::common::*;
use crate::driver::*;
use crypto::digest::Digest;
use crypto::md5::Md5;
use libxml::readonly::RoNode;
use llamapun::dnm::DNM;
use serde_json::{json, Value};

pub fn area() -> Area { Area { name: "c14n", gen, exec } }

fn md5(s: &str) -> String {
  let mut m = Md5::new();
  m.input_str(s);
  m.result_str()
}
fn exec(input: &Value) -> Value {
  // a long document: what lies below the root, several times
  let times = input.get("times").map_or(1, usize_of);
  let mut tree = input["tree"].as_array().unwrap().clone();
  if times > 1 { let below = tree[1..].to_vec(); for _ in 1..times { tree.extend_from_slice(&below) } }
  let doc = document(&json!(tree));
  let nodes: Vec<RoNode> = all_nodes(&doc).into_iter().map(|x| x.0).take(input["tree"].as_array().unwrap().len()).collect();
  // what repeats is given once
  let once = |form: &str| -> Value {
    let (start, end) = (form.find('>').map_or(0, |p| p + 1), form.rfind("</").unwrap_or(form.len()));
    if times > 1 && start <= end && (end - start) % times == 0 {
      if let Some(unit) = form.get(start..start + (end - start) / times) {
        if unit.repeat(times) == form[start..end] { return cps(&format!("{}{unit}{}", &form[..start], &form[end..])) }
      }
    }
    cps(form)
  };
  guarded(|| {
    let dnm = DNM::new(nodes[0], parameters(input));
    let forms: Vec<String> = nodes.iter().map(|n| dnm.node_c14n_basic(*n)).collect();
    let hashes: Vec<String> = nodes.iter().map(|n| dnm.node_hash_basic(*n)).collect();
    let mut concurrent = true;
    if let Some(rounds) = input["rounds"].as_u64() {
      let (dnm, nodes, hashes) = (&dnm, &nodes, &hashes);
      let barrier = std::sync::Barrier::new(8);
      let barrier = &barrier;
      concurrent = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8)
          .map(|t| s.spawn(move || {
            barrier.wait();
            (0..rounds as usize).all(|r| (0..nodes.len()).all(|i| {
              let j = (i * (t + 1) + r) % nodes.len();
              dnm.node_hash_basic(nodes[j]) == hashes[j]
            }))
          }))
          .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(false)).fold(true, |a, b| a && b)
      });
    }
    let all: Vec<Value> = forms.iter().zip(&hashes).enumerate().map(|(i, (f, h))| json!({"form": if i == 0 { once(f) } else { cps(f) }, "hash": h, "md5": md5(f)})).collect();
    json!({"status": "ok", "forms": all, "whole": {"form": once(&dnm.to_c14n_basic()), "hash": dnm.to_hash_basic()}, "concurrent": concurrent})
  })
}

fn gen(g: &mut Gen) {
  const ELEMENTS: [(&str, &str); 20] = [
    ("p", "k j i h g f e d c b a l n m k1 k10 k9"), ("div", "Z z É é _ a-b a_b A"),
    ("p", ""), ("p", "x"), ("div", "y x"), ("div", "z  y"), ("span", "b a b"), ("span", "\u{a0}v x10 x9"), ("math", ""), ("semantics", ""), ("semantics", "x"), ("annotation", ""),
    ("annotation-xml", "y"), ("mi", ""), ("mi", "é e Z"), ("table", ""), ("em", "\tu\n"), ("annotationx", ""), ("semanticsx", ""), ("semantic", ""),
  ];
  let words = |g: &mut Gen| if g.chance(50) { random_text(g, 6) } else { (*g.pick(&["text", " ", "\n ", " a ", "x<y", "\u{2003}", "É"])).to_string() };
  for _ in 0..g.amount(900, 8000) {
    let mut tree = random_tree(g, 12, "r", &ELEMENTS, &words);
    // other attributes are noise
    for n in tree.iter_mut() {
      if n["k"] == "e" && g.chance(30) { n["a"] = json!([{"k": g.pick(&["style", "title", "href"]), "v": cps("n1")}]) }
    }
    let (names, classes) = if g.chance(60) { (vec![], vec![]) } else { random_rules(g) };
    let par = random_flags(g, false);
    let mut v = json!({"tree": tree, "root": 1, "names": names, "classes": classes, "par": par});
    if g.chance(15) { v["rounds"] = json!(20) }
    g.push(v);
  }
  // long documents; the repeated parts do not touch each other
  for _ in 0..g.amount(25, 250) {
    let mut tree = random_tree(g, 10, "r", &ELEMENTS, &words);
    if tree.len() < 2 || tree[1]["k"] != "e" { continue }
    let mut par = random_flags(g, false);
    par["ws"] = json!(false);
    for f in ["stem", "full"] { par[f] = json!(false) }
    for n in tree.iter_mut() { if n["k"] == "t" { n["t"] = cps(&text(&n["t"]).replace(['\u{3a3}', '\u{130}'], "s")) } }
    let times = *g.pick(&[2, 20, 200, 900]) / (1 + tree.len() / 6) + 2;
    g.push(json!({"tree": tree, "root": 1, "names": [], "classes": [], "par": par, "times": times}));
  }
}
