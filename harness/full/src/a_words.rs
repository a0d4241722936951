//! Word splitting (C14)
use crate::common::*;
use crate::driver::*;
use llamapun::dnm::DNMRange;
use llamapun::tokenizer::Tokenizer;
use serde_json::{json, Value};

pub fn area() -> Area { Area { name: "words", gen, exec } }

thread_local! { static TOKENIZER: Tokenizer = Tokenizer::default(); }

fn exec(input: &Value) -> Value {
  let times = input.get("times").map(usize_of).unwrap_or(1);
  let text = text(&input["text"]);
  let unit = text.chars().count();
  let text = text.repeat(times);
  let dnm = text_dnm(&text);
  let range = DNMRange { start: usize_of(&input["a"]), end: usize_of(&input["b"]) * times, dnm: &dnm };
  TOKENIZER.with(|t| {
    let ranges = if input["call"] == "words" { t.words(&range) } else { t.words_and_punct(&range) };
    if times > 1 {
      // successive units with the same ranges, relative to their start, are counted
      let mut units = vec![Vec::new(); times];
      for r in ranges.iter().filter(|r| !r.is_empty()) {
        let q = r.start / unit;
        units[q].push(json!({"s": r.start - q * unit, "e": r.end as i64 - (q * unit) as i64, "text": cps(r.get_plaintext())}));
      }
      let mut runs: Vec<(usize, Vec<Value>)> = Vec::new();
      for u in units {
        match runs.last_mut() { Some((n, v)) if *v == u => *n += 1, _ => runs.push((1, u)) }
      }
      let sorted = ranges.windows(2).all(|w| w[0].end <= w[1].start);
      return json!({"status": if sorted { "ok" } else { "unordered" }, "counts": runs.iter().map(|r| r.0).collect::<Vec<_>>(), "ranges": runs[0].1});
    }
    let ranges: Vec<Value> =
      ranges.iter().map(|r| json!({"s": r.start, "e": r.end, "text": cps(r.get_plaintext())})).collect();
    json!({"status": "ok", "ranges": ranges})
  })
}

fn gen(g: &mut Gen) {
  const PIECES: [&str; 30] = [
    "don't", "it’s", "J. Doe's", "'tis", "l'un", "rock'n'roll", "we'll", "they’ve", "can't've", "''", "O'Neil", "s's", "'s", "'", "x'", "naïve", "Straße's",
    "...", "(a)", "a_b", "3.14", "10⁵", "–", "\n\n", " ", "\u{a0}", "mathformula", "Ⅷ's", "ﬁ't", "'re-'m",
  ];
  for _ in 0..g.amount(2500, 30000) {
    let long = g.chance(1);
    let text = if g.chance(50) { raw_text(g, if long { 300 } else { 40 }) } else {
      let n = if long { g.range(20, 60) } else { g.range(0, 7) };
      (0..n).map(|_| format!("{}{}", g.pick(&PIECES), if g.chance(60) { " " } else { "" })).collect()
    };
    let n = text.chars().count();
    let (a, b) = if g.chance(60) { (0, n) } else { let a = g.range(0, n); (a, g.range(a, n)) };
    let call = if g.chance(50) { "words" } else { "punct" };
    g.push(json!({"call": call, "text": cps(&text), "a": a, "b": b}));
  }
  // every short piece after an apostrophe
  for c in ['\'', '’'] {
    for a in ('a'..='z').chain(['S', 'T', 'ß', 'é', '1']) {
      let mut text = format!("x{c}{a} {c}{a}x {a}{c}");
      for b in ('a'..='z').chain(['S', 'L', '1']) { text.push_str(&format!(" {b}{c}{a}{b}")) }
      for b in ["l", "un", "th", "ll", "ve", "il", "re", "s", "d", "m", "t"] { text.push_str(&format!(" {c}{b}{a} x{c}{a}{b}")) }
      for call in ["words", "punct"] { g.push(json!({"call": call, "text": cps(&text), "a": 0, "b": text.chars().count()})) }
    }
  }
  // long texts: a unit that ends in a blank, repeated
  for _ in 0..g.amount(60, 600) {
    let n = g.range(1, 6);
    let mut text: String = if g.chance(50) { raw_text(g, 40) } else { (0..n).map(|_| format!("{}{}", g.pick(&PIECES), if g.chance(60) { " " } else { "" })).collect() };
    text.push(*g.pick(&[' ', '\n', '\u{a0}']));
    let n = text.chars().count();
    let times = (*g.pick(&[300, 3000, 20000, 70000]) / n).max(2);
    let call = if g.chance(50) { "words" } else { "punct" };
    g.push(json!({"call": call, "text": cps(&text), "a": 0, "b": n, "times": times}));
  }
}
