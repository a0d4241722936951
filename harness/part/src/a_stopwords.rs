//! Stopword set (C23)
use crate::driver::*;
use crate::stopwords;
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};

pub fn area() -> Area { Area { name: "stopwords", gen, exec } }

fn exec(input: &Value) -> Value {
  let mut sets: HashMap<u64, HashSet<&'static str>> = HashMap::new();
  let mut ans = Vec::new();
  for op in input["ops"].as_array().unwrap() {
    let t = op["thread"].as_u64().unwrap();
    match op["op"].as_str().unwrap() {
      "load" => {
        let set: HashSet<&'static str> =
          if t == 0 { stopwords::load() } else { std::thread::spawn(|| stopwords::load()).join().unwrap() };
        ans.push(json!({"list": set.iter().collect::<Vec<_>>(), "yes": true}));
        sets.insert(t, set);
      },
      _ => ans.push(json!({"list": [], "yes": sets[&t].contains(op["word"].as_str().unwrap())})),
    }
  }
  json!({"status": "ok", "ans": ans})
}

fn gen(g: &mut Gen) {
  // concurrent loads, and queries of random short words
  for _ in 0..g.amount(20, 200) {
    let mut ops = Vec::new();
    for t in 0..4 { ops.push(json!({"op": "load", "thread": t, "word": ""})) }
    for _ in 0..30 {
      let n = g.range(1, 4);
      let w: String = (0..n).map(|_| *g.pick(&['a', 'e', 'i', 't', 's', 'h', 'o', 'n', '\'', 'm'])).collect();
      ops.push(json!({"op": "query", "thread": g.below(4), "word": w}));
    }
    g.push(json!({"ops": ops}));
  }
}
