//! A path to words, also through the C interface (C22)
use crate::a_corpus::scratch;
use crate::a_tokenmodel::paper;
use crate::a_wordnorm::{inline, random_word};
use crate::common::*;
use crate::driver::*;
use llamapun::extern_use::word_tokenize_for_vec2doc;
use llamapun::util::path_helpers::path_to_words;
use serde_json::{json, Value};
use std::ffi::CString;

pub fn area() -> Area { Area { name: "pathwords", gen, exec } }

fn through_c(path: &[u8]) -> Value {
  let path = CString::new(path).unwrap();
  let words = unsafe { CString::from_raw(word_tokenize_for_vec2doc(path.as_ptr())) };
  match words.to_str() { Ok(w) => cps(w), Err(_) => json!("not UTF-8") }
}
fn text_of(v: &Value) -> String { if v.is_array() { crate::driver::text(v) } else { String::new() } }
fn exec(input: &Value) -> Value {
  let base = scratch("words");
  std::fs::create_dir_all(&base).unwrap();
  let file = base.join(input.get("as").map_or("d.xhtml", |a| a.as_str().unwrap()));
  // a long document: the children of the root, repeated
  let times = input.get("times").map(usize_of).unwrap_or(1);
  let mut tree = input["tree"].as_array().unwrap().clone();
  if times > 1 { let children = tree[1..].to_vec(); for _ in 1..times { tree.extend_from_slice(&children) } }
  let tree = json!(tree);
  match input["kind"].as_str().unwrap() {
    "doc" => { document(&tree); std::fs::write(&file, to_xml(&tree)).unwrap() },
    "rootless" => if file.ends_with("folder.html") { std::fs::create_dir_all(&file).unwrap() } else { std::fs::write(&file, "").unwrap() },
    "broken" => std::fs::write(&file, if file.ends_with("bare.xhtml") { "no markup" } else { "" }).unwrap(),
    _ => (), // missing, and names that are no text
  }
  let text = input["kind"] != "notext";
  let path = if input.get("as").is_some_and(|a| a == "") { String::new() } else { file.to_str().unwrap().to_string() };
  let mut bytes = path.clone().into_bytes();
  if !text { bytes.extend_from_slice(&[0xff, 0xfe]) }
  let obs = guarded(|| {
    let direct = text.then(|| path_to_words(path.clone()));
    if times > 1 {
      // what repeats is given once
      let once = |t: &str| { let unit = if t.len() % times == 0 { &t[..t.len() / times] } else { "" }; (t == unit.repeat(times), cps(unit)) };
      let direct = once(&direct.unwrap());
      let c = once(&text_of(&through_c(&bytes)));
      return json!({"status": if direct.0 && c.0 { "ok" } else { "no repetition" }, "direct": "ok", "words": direct.1, "c": "ok", "cwords": c.1});
    }
    let c = through_c(&bytes);
    json!({"status": "ok", "direct": if text { "ok" } else { "none" }, "words": direct.map(|d| cps(&d)).unwrap_or(json!([])),
      "c": if c.is_array() { "ok" } else { "bad" }, "cwords": c})
  });
  std::fs::remove_dir_all(&base).unwrap();
  obs
}

/// prose with sentence ends
pub fn sentences(g: &mut Gen) -> String {
  let mut out = String::new();
  let n = if g.chance(1) { g.range(20, 50) } else { g.range(1, 8) };
  for _ in 0..n {
    let w = if g.chance(60) { (*g.pick(&["We", "see", "that", "Lemma", "holds", "Fig", "cf", "Proof", "The", "next", "éclair", "Über", "a", "I", "3"])).to_string() } else { random_word(g) };
    out.push_str(&w);
    out.push_str(g.pick(&[" ", " ", " ", " ", ". ", ". ", ".\n", "? ", "! ", ": ", ".", "\n\n", " (", ") ", "\u{a0}", ".\u{2003}"]));
  }
  out
}
fn has_error(tree: &[Value]) -> bool { tree.iter().any(|n| text(&n["c"]).contains("ltx_ERROR")) }
fn gen(g: &mut Gen) {
  for _ in 0..g.amount(1600, 16000) {
    let tree = if g.chance(60) { paper(g, false, 5) } else {
      let mut t = vec![element("html", 0, "")];
      let n = if g.chance(1) { g.range(9, 20) } else { g.range(1, 4) };
      for _ in 0..n {
        t.push(element("div", 1, "ltx_para"));
        let pieces = g.range(0, 4);
        inline(g, &mut t, 2, pieces, &sentences);
        if g.chance(10) { t.push(element("div", 2, "ltx_para")); t.push(text_node(3, "Inner one. Inner two")) }
        if g.chance(8) { t.push(element("span", 2, "ltx_ERROR")) }
      }
      t
    };
    // the children of the root are paragraphs of their own
    let repeat = tree.len() > 1 && tree[1]["c"] == cps("ltx_para") && tree[1]["d"] == 1 && !has_error(&tree) && g.chance(5);
    if repeat {
      let times = *g.pick(&[2, 30, 300, 1500]) / tree.len() + 2;
      g.push(json!({"kind": "doc", "tree": tree, "times": times}));
    } else { g.push(json!({"kind": "doc", "tree": tree})) }
  }
  // one long paragraph: many sentences, and one of many words
  for n in 0..g.amount(1, 4) {
    let mut t: String = (0..55 + 10 * n).map(|i| format!("Sentence {} has some more words to it. ", ["one", "two", "of many"][i % 3])).collect();
    for i in 0..20 { t.push_str(["and ", "so ", "on "][i % 3]) }
    g.push(json!({"kind": "doc", "tree": [element("html", 0, ""), element("div", 1, "ltx_para"), text_node(2, &format!("{t}it ends. Last one."))]}));
  }
  for (kind, name) in [("rootless", "empty.html"), ("rootless", "folder.html"), ("rootless", "x.txt"), ("broken", "empty.xhtml"), ("broken", "bare.xhtml"), ("missing", "no.html"), ("missing", "no.xhtml"), ("missing", ""), ("missing", "fol/der/no.html"), ("notext", "a.html")] {
    for _ in 0..3 { g.push(json!({"kind": kind, "as": name, "tree": []})) }
  }
}
