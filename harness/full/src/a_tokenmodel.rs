//! The token model of a corpus (C17)
use crate::a_corpus::scratch;
use crate::a_wordnorm::{inline, random_prose};
use crate::common::*;
use crate::driver::*;
use llamapun::util::token_model::extract;
use serde_json::{json, Value};
use std::collections::HashMap;

pub fn area() -> Area { Area { name: "tokenmodel", gen, exec } }

fn exec(input: &Value) -> Value {
  let base = scratch("tokens");
  let root = base.join("root");
  std::fs::create_dir_all(&root).unwrap();
  for (i, d) in input["docs"].as_array().unwrap().iter().enumerate() {
    let path = root.join(format!("{i}{}", d["as"].as_str().unwrap()));
    match d["kind"].as_str().unwrap() {
      "doc" => {
        document(&d["tree"]);
        let xml = to_xml(&d["tree"]);
        let rep = usize_of(&d["rep"]);
        std::fs::write(path, if rep == 1 { xml } else { format!("<html>{}</html>", xml.repeat(rep)) }).unwrap()
      },
      _ => if d["as"] == "folder.html" { std::fs::create_dir_all(path).unwrap() } else { std::fs::write(path, "").unwrap() },
    }
  }
  let sink = match input["sink"].as_str().unwrap() {
    "file" => base.join("tokens.txt"),
    "folder" => base.clone(),
    _ => base.join("nowhere").join("tokens.txt"),
  };
  let pool = rayon::ThreadPoolBuilder::new().num_threads(usize_of(&input["threads"])).build().unwrap();
  unidecode::shim_rendezvous(input["meet"].as_u64().unwrap_or(0) as usize);
  let obs = guarded(|| {
    let (corpus, file, drop) = (root.to_str().unwrap().to_string(), sink.to_str().unwrap().to_string(), input["drop"].as_bool().unwrap());
    let counts = match pool.install(move || extract(corpus, file, drop).map_err(|e| e.to_string())) {
      Ok(c) => c,
      Err(_) => return json!({"status": "error"}),
    };
    let text = std::fs::read_to_string(&sink).unwrap();
    let mut table: HashMap<&str, usize> = HashMap::new();
    let mut lines = Vec::new();
    let file: Vec<usize> = text.split('\n').map(|l| *table.entry(l).or_insert_with(|| { lines.push(cps(l)); lines.len() })).collect();
    let mut counts: Vec<(String, u64)> = counts.into_iter().collect();
    counts.sort();
    json!({"status": "ok", "counts": counts, "lines": lines, "file": file})
  });
  unidecode::shim_rendezvous(0);
  drop(pool);
  std::fs::remove_dir_all(&base).unwrap();
  obs
}

/// a document of paragraphs, abstract, captions and so on; `plain`: nothing but ordinary paragraphs
pub fn paper(g: &mut Gen, plain: bool, most: usize) -> Vec<Value> {
  let mut out = vec![element("html", 0, ""), element("body", 1, "")];
  let n = if g.chance(1) { 4 * most } else { g.range(1, most) };
  for _ in 0..n {
    let kind = if plain { 0 } else { g.below(14) };
    let d = match kind {
      9 => { out.push(element("div", 2, "ltx_abstract")); out.push(element("p", 3, "ltx_p")); 4 },
      10 => { out.push(element("div", 2, g.pick(&["ltx_keywords", "ltx_keywords ltx_x"]))); 3 },
      11 => { out.push(element("div", 2, "ltx_acknowledgement")); 3 },
      12 => { out.push(element("figure", 2, "ltx_figure")); out.push(element("figcaption", 3, "ltx_caption")); 4 },
      13 => { out.push(element("section", 2, "")); out.push(element("div", 3, "ltx_para")); out.push(element("span", 4, "ltx_ERROR undefined")); 4 },
      8 => { out.push(element("h2", 2, "ltx_title")); 3 },
      _ => { out.push(element("div", 2, "ltx_para")); if g.chance(50) { out.push(element("p", 3, "ltx_p")); 4 } else { 3 } },
    };
    let pieces = g.range(0, 4);
    inline(g, &mut out, d, pieces, &random_prose);
  }
  out
}
fn gen(g: &mut Gen) {
  let doc = |tree: Vec<Value>, rep: usize| json!({"kind": "doc", "as": "d.xhtml", "tree": tree, "rep": rep});
  for _ in 0..g.amount(700, 7000) {
    let mut docs = Vec::new();
    for _ in 0..g.below(5) {
      docs.push(match g.below(14) {
        0 => json!({"kind": "rootless", "as": "empty.html", "tree": [], "rep": 1}),
        1 => { let f = *g.pick(&["empty.xhtml", "d.txt", "folder.html", "d.html.bak"]); json!({"kind": "none", "as": f, "tree": [], "rep": 1}) },
        _ => { let t = paper(g, false, 5); doc(t, 1) },
      });
    }
    let (drop, threads) = (g.chance(40), g.range(1, 8));
    let sink = *g.pick(&["file", "file", "file", "file", "file", "file", "file", "file", "file", "missing", "folder"]);
    g.push(json!({"docs": docs, "drop": drop, "threads": threads, "sink": sink}));
  }
  // one long paragraph: many sentences, and one of many words
  for n in 0..g.amount(1, 4) {
    let mut t: String = (0..55 + 10 * n).map(|i| format!("Sentence {} has some more words to it. ", ["one", "two", "of many"][i % 3])).collect();
    for i in 0..20 { t.push_str(["and ", "so ", "on "][i % 3]) }
    let tree = vec![element("html", 0, ""), element("div", 1, "ltx_para"), text_node(2, &format!("{t}it ends. Last one."))];
    g.push(json!({"docs": [doc(tree, 1)], "drop": false, "threads": 1, "sink": "file"}));
  }
  // many lines from many threads: blocks stay whole
  for case in 0..g.amount(8, 40) {
    let rep = g.range(60, 240);
    let docs: Vec<Value> = (0..16).map(|i| {
      let mut tree = vec![element("html", 0, "")];
      for p in 0..3 {
        tree.push(element("div", 1, "ltx_para"));
        // documents of different threads come to their last lines at the same moment
        let meet = if p == 2 { " İ" } else { "" };
        tree.push(text_node(2, &format!("Document {} paragraph{} of case{case}{}{meet}.", "abcdefghijklmnop".chars().nth(i).unwrap(), ["x", "y", "z"][p], " and more".repeat(9))));
      }
      doc(tree, rep)
    }).collect();
    g.push(json!({"docs": docs, "drop": case % 2 == 0, "threads": 8, "sink": "file", "meet": 8}));
  }
}
