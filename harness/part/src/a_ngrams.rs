//! Dictionary and Ngrams (C01, C02)
use crate::driver::*;
use crate::ngrams::{Dictionary, Ngrams};
use serde_json::{json, Value};

pub fn area() -> Area { Area { name: "ngrams", gen, exec } }

fn listing<'a>(it: impl Iterator<Item = (&'a String, usize)>) -> Value {
  Value::Array(it.map(|(k, v)| json!([cps(k), v])).collect())
}

fn count(v: &Value) -> usize { v.as_u64().unwrap() as usize }
fn exec(input: &Value) -> Value {
  let mut dict = Dictionary::new();
  // single words are the default: the length is only set when it differs
  let mut grams = Ngrams::default();
  grams.anchor = Some(text(&input["anchor"]));
  grams.window_size = input["W"].as_u64().unwrap() as usize;
  let n = input["n"].as_u64().unwrap() as usize;
  if n != 1 { grams.n = n }
  let ops = input["ops"].as_array().unwrap();
  // phrases that are looked up after every operation: everything mentioned anywhere
  let mut probes: Vec<String> = vec!["unseen".to_string(), String::new()];
  for op in ops {
    probes.push(text(&op["c"]));
    probes.extend(texts(&op["ws"]));
  }
  probes.sort();
  probes.dedup();
  let mut steps = Vec::new();
  for op in ops {
    let c = text(&op["c"]);
    match op["op"].as_str().unwrap() {
      "dict" => dict.insert(c),
      "insert" => grams.insert(c),
      "record" => {
        let ws = texts(&op["ws"]);
        grams.record_words(ws.iter().map(|w| w.as_str()).collect())
      },
      "add" => grams.add_content(&c),
      // numbered words, each several times
      "dicts" => for j in 1..=count(&op["to"]) { for _ in 0..count(&op["rep"]) { dict.insert(format!("{c}{j}")) } },
      "inserts" => for _ in 0..count(&op["rep"]) { for j in 1..=count(&op["to"]) { grams.insert(format!("{c}{j}")) } },
      "records" => {
        let ws = texts(&op["ws"]);
        let many: Vec<&str> = (0..count(&op["rep"])).flat_map(|_| ws.iter().map(|w| w.as_str())).collect();
        grams.record_words(many)
      },
      _ => unreachable!(),
    }
    if op.get("quiet").is_some() { steps.push(json!({"quiet": true})); continue }
    steps.push(json!({
      "quiet": false,
      "counts": listing(grams.counts.iter().map(|(k, v)| (k, *v))),
      "sorted": listing(grams.sorted().into_iter()),
      "distinct": grams.distinct_count(),
      "gets": probes.iter().map(|p| json!([cps(p), grams.get(p)])).collect::<Vec<_>>(),
      "dmap": listing(dict.map.iter().map(|(k, v)| (k, *v))),
      "dsorted": listing(dict.sorted().into_iter()),
      "dcount": dict.count(),
    }));
  }
  json!({"status": "ok", "steps": steps})
}

const WORDS: [&str; 20] = ["set", "map", "é1", "9", "the", "x,y", "ßa", "a.", "-no", "'tis", "λ", "Set", "²x", "½", "٣", "_x", "probability", "Probability", "€9", "\u{feff}set"];

fn content(g: &mut Gen, anchor: &str, max: usize) -> String {
  let density = *g.pick(&[3, 8, 15, 30, 60]);
  let vocabulary = g.range(1, WORDS.len());
  let mut s = String::new();
  for _ in 0..g.range(0, max) {
    if g.chance(density) {
      s.push_str(anchor);
      if g.chance(5) { s.push_str(g.pick(&["s", ",", "."])) } // looks like an anchor, is none
    } else {
      let i = g.below(vocabulary);
      s.push_str(WORDS[i]);
    }
    s.push_str(g.pick(&[" ", " ", " ", "  ", "\n", "\t", "\r\n", " \u{c}", "\u{a0}", "\u{2003}", " - ", " . "]));
  }
  s
}

fn gen(g: &mut Gen) {
  let c01 = std::env::var("PROP").as_deref() == Ok("C01");
  // histories of both tables
  for _ in 0..g.amount(250, 3000) {
    let anchor = g.pick(&["anchor", "é", "set", "7", "-"]).to_string();
    let mut ops = Vec::new();
    for _ in 0..g.range(1, 8) {
      ops.push(match if c01 { 9 } else { g.below(5) } {
        0 | 1 => json!({"op": "dict", "c": cps(if g.chance(5) { "" } else { g.pick(&WORDS) }), "ws": []}),
        2 => json!({"op": "insert", "c": cps(g.pick(&["set map", "the", "", "é1 9", "map set", "Set map", "the  ", "probability", "Probability"])), "ws": []}),
        3 | 4 => {
          let n = g.range(0, 7);
          let ws: Vec<Value> = (0..n).map(|_| cps(g.pick(&WORDS))).collect();
          json!({"op": "record", "c": [], "ws": ws})
        },
        _ => json!({"op": "add", "c": cps(&content(g, &anchor, 14)), "ws": []}),
      });
    }
    let (w, n) = (g.range(1, 5), g.range(1, 5));
    g.push(json!({"W": w, "n": n, "anchor": cps(&anchor), "ops": ops}));
  }
  // many words, high counts
  for _ in 0..g.amount(4, 40) {
    let n = g.range(1, 3);
    let mut ops = Vec::new();
    let some = g.range(1, 400);
    let word = |i: usize| cps(&format!("{}{}", char::from(b'a' + (i % 26) as u8), i / 26));
    for _ in 0..3 {
      let length = g.range(0, 220);
      let ws: Vec<Value> = (0..length).map(|_| word(g.below(some))).collect();
      if c01 {
        let anchored: Vec<String> = (0..length).map(|_| if g.chance(4) { "set".to_string() } else { text(&word(g.below(some))) }).collect();
        ops.push(json!({"op": "add", "c": cps(&anchored.join(" ")), "ws": []}))
      } else { ops.push(json!({"op": "record", "c": [], "ws": ws})) }
    }
    if !c01 {
      let (kind, some) = (*g.pick(&["dict", "insert"]), if g.chance(50) { g.range(1, 400) } else { g.range(1, 3) });
      // often one word far ahead of the others
      let ahead = *g.pick(&[0, 70, 90]);
      for _ in 0..400 { let w = word(if g.chance(ahead) { 0 } else { g.below(some) }); ops.push(json!({"op": kind, "c": w, "ws": [], "quiet": true})) }
      ops.push(json!({"op": kind, "c": word(0), "ws": []}));
    }
    g.push(json!({"W": 1, "n": n, "anchor": cps("set"), "ops": ops}));
  }
  if !c01 {
    // many words, and counts beyond any narrow number
    let sizes: &[(usize, usize)] = if g.thorough { &[(1200, 2), (20000, 1), (70000, 1), (2, 70000), (2, 256), (2, 65536), (3, 1 << 16)] } else { &[(1200, 2), (2, 70000), (2, 256), (2, 65536)] };
    for &(to, rep) in sizes {
      for what in ["dicts", "inserts"] {
        let rep = if what == "dicts" { rep.min(3) } else { rep };
        let mut ops = vec![json!({"op": what, "c": cps("w"), "ws": [], "to": to, "rep": rep})];
        ops.push(json!({"op": if what == "dicts" { "dict" } else { "insert" }, "c": cps(if rep > 200 { "new" } else { g.pick(&["w1", "new"]) }), "ws": []}));
        g.push(json!({"W": 1, "n": 1, "anchor": cps("x"), "ops": ops}));
      }
    }
    for (n, rep) in [(1, 40000), (2, 33000), (3, 300)] {
      let ws: Vec<Value> = ["set", "map", "the"][..g.range(1, 3)].iter().map(|w| cps(w)).collect();
      g.push(json!({"W": 1, "n": n, "anchor": cps("x"), "ops": [{"op": "records", "c": [], "ws": ws, "rep": rep}]}));
    }
    return;
  }
  // windows larger than most contents
  for _ in 0..g.amount(3, 60) {
    let length = g.range(100, 320);
    let words: Vec<String> = (0..length).map(|_| if g.chance(1) { "x" } else { *g.pick(&["a", "b", "c", "d"]) }.to_string()).collect();
    let (w, n) = (g.range(10, 300), g.range(1, 40));
    g.push(json!({"W": w, "n": n, "anchor": cps("x"), "ops": [{"op": "add", "c": cps(&words.join(" ")), "ws": []}]}));
  }
  // long contents with large windows
  for _ in 0..g.amount(60, 600) {
    let anchor = g.pick(&["anchor", "é"]).to_string();
    let c = content(g, &anchor, 60);
    let (w, n) = (g.range(1, 12), g.range(1, 6));
    g.push(json!({"W": w, "n": n, "anchor": cps(&anchor), "ops": [{"op": "add", "c": cps(&c), "ws": []}]}));
  }
}
