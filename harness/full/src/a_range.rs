//! Range operations (C11)
use crate::common::*;
use crate::driver::*;
use llamapun::dnm::DNMRange;
use serde_json::{json, Value};

pub fn area() -> Area { Area { name: "range", gen, exec } }

fn exec(input: &Value) -> Value {
  let times = input.get("times").map(usize_of).unwrap_or(1);
  let text = text(&input["text"]).repeat(times);
  let dnm = text_dnm(&text);
  let mut range = DNMRange { start: usize_of(&input["s"]), end: usize_of(&input["e"]), dnm: &dnm };
  let mut steps = Vec::new();
  for op in input["ops"].as_array().unwrap() {
    let (a, b) = (usize_of(&op["a"]), usize_of(&op["b"]));
    range = match op["op"].as_str().unwrap() {
      "trim" => range.trim(),
      "sub" => range.get_subrange(a, b),
      _ => range.get_subrange_from_byte_offsets(a, b),
    };
    let (plain, trunc) = (range.get_plaintext(), range.get_plaintext_truncated());
    let count = plain.chars().count();
    // of a long range its ends
    let last = |t: &str| -> String { let v: Vec<char> = t.chars().collect(); v[v.len().saturating_sub(60)..].iter().collect() };
    let (plain, trunc) = if count <= 360 { (plain.to_string(), trunc.to_string()) } else {
      (plain.chars().take(60).chain(last(plain).chars()).collect(), last(trunc))
    };
    steps.push(json!({"s": range.start, "e": range.end, "count": count, "text": cps(&plain), "trunc": cps(&trunc), "empty": range.is_empty()}));
  }
  json!({"status": "ok", "steps": steps})
}

fn gen(g: &mut Gen) {
  for _ in 0..g.amount(1500, 20000) {
    let most = if g.chance(2) { 400 } else { 40 };
    let text = raw_text(g, most);
    let chars: Vec<char> = text.chars().collect();
    let s = g.range(0, chars.len());
    let e = g.range(s, chars.len());
    let (mut cs, mut ce) = (s, e);
    let mut ops = Vec::new();
    for _ in 0..g.range(1, 4) {
      let len = ce - cs;
      let bytes: usize = chars[cs..ce].iter().map(|c| c.len_utf8()).sum();
      match g.below(3) {
        0 => {
          ops.push(json!({"op": "trim", "a": 0, "b": 0}));
          let part: String = chars[cs..ce].iter().collect();
          let kept = part.trim().chars().count();
          if kept == 0 { cs = ce } else {
            cs += part.chars().take_while(|c| c.is_whitespace()).count();
            ce = cs + kept;
          }
        },
        1 => {
          let a = g.range(0, len);
          let b = g.range(a, len);
          ops.push(json!({"op": "sub", "a": a, "b": b}));
          ce = cs + b;
          cs += a;
        },
        _ => {
          if bytes == 0 || g.chance(15) {
            // no bytes at all
            let mut a = g.range(0, bytes);
            if g.chance(50) { a = if g.chance(50) { 0 } else { bytes } }
            ops.push(json!({"op": "bytes", "a": a, "b": a}));
            while cs < ce && chars[cs].len_utf8() <= a { a -= chars[cs].len_utf8(); cs += 1 }
            ce = cs;
            continue
          }
          // mostly on character boundaries, as byte offsets of a tagger are
          let (a, b) = if g.chance(50) {
            let a = g.range(0, bytes - 1);
            (a, g.range(a + 1, bytes))
          } else {
            let i = g.range(0, len - 1);
            let j = g.range(i + 1, len);
            let at = |n: usize| chars[cs..cs + n].iter().map(|c| c.len_utf8()).sum::<usize>();
            (at(i), at(j))
          };
          ops.push(json!({"op": "bytes", "a": a, "b": b}));
          // where the next operation starts (only the generator needs it)
          let mut pos = 0;
          let (mut ns, mut ne) = (cs, ce);
          for i in cs..ce {
            let l = chars[i].len_utf8();
            if pos <= a && a < pos + l { ns = i }
            if pos < b && b <= pos + l { ne = i + 1 }
            pos += l;
          }
          cs = ns;
          ce = ne;
        },
      }
    }
    if !ops.is_empty() { g.push(json!({"text": cps(&text), "s": s, "e": e, "ops": ops})) }
  }
  // texts longer than any offset of 8, 15 or 16 bits
  for i in 0..g.amount(150, 1500) {
    let unit = loop { let t = raw_text(g, 20); if t.chars().any(|c| !c.is_whitespace()) { break t } };
    let (l, b): (usize, usize) = (unit.chars().count(), unit.len());
    let length = *g.pick(&[300, 1000, 5000, 33000, 66000, 90000]);
    let times = length / l + 1;
    let n = l * times;
    let near = |g: &mut Gen, most: usize| {
      let p = *g.pick(&[0, 127, 255, 256, 4095, 32767, 32768, 65535, 65536, most / 2, most]) as i64 + g.range(0, 6) as i64 - 3;
      if g.chance(40) { g.range(0, most) } else { p.clamp(0, most as i64) as usize }
    };
    let (x, y) = (near(g, n), near(g, n));
    let (s, e) = if i % 2 == 0 { (0, n) } else { (x.min(y), x.max(y)) };
    let mut ops = Vec::new();
    // the length of the range if it is known, so that the next operation stays inside
    let mut len = e - s;
    match g.below(3) {
      0 => { let (p, q) = (near(g, len), near(g, len)); ops.push(json!({"op": "sub", "a": p.min(q), "b": p.max(q)})); len = p.max(q) - p.min(q) },
      1 if s == 0 && e == n => {
        let all = b * times;
        let (p, q) = (near(g, all - 1), near(g, all - 1));
        ops.push(json!({"op": "bytes", "a": p.min(q), "b": p.max(q) + 1}));
        len = 0;
      },
      _ => {},
    }
    if len > 0 { let (p, q) = (near(g, len), near(g, len)); ops.push(json!({"op": "sub", "a": p.min(q), "b": p.max(q)})) }
    ops.push(json!({"op": "trim", "a": 0, "b": 0}));
    g.push(json!({"text": cps(&unit), "times": times, "s": s, "e": e, "ops": ops}));
  }
}
