//! Walking corpora (C15, C16)
use crate::common::*;
use crate::driver::*;
use llamapun::{data, parallel_data};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::path::{Path, PathBuf};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub fn area() -> Area { Area { name: "corpus", gen, exec } }

pub fn scratch(name: &str) -> PathBuf {
  let base = std::env::var("VP_SCRATCH").unwrap_or_else(|_| tool_error("no VP_SCRATCH"));
  // the same path for case after case: what was found there before does not matter
  let p = Path::new(&base).join(format!("{name}-{}", slot()));
  let _ = std::fs::remove_dir_all(&p);
  std::fs::create_dir_all(&p).unwrap();
  p
}
fn bytes_name(v: &Value) -> OsString {
  let mut out = Vec::new();
  for c in text(v).chars() {
    if c == '\u{f8ff}' { out.push(0xff) } else { out.extend(c.to_string().as_bytes()) }
  }
  OsString::from_vec(out)
}
fn content(kind: &str) -> &'static [u8] {
  match kind {
    "good" => b"<html><body><DIV class=\"ltx_para\"><p>We have a proof. It is short.</p></DIV></body></html>",
    "unclosed" => b"<html><body><DIV class=\"ltx_para\"><p>We have",
    "empty" => b"",
    "nul" => b"\0\0\0\0",
    "badenc" => b"<?xml version=\"1.0\" encoding=\"bogus\"?><html><body><DIV>x</DIV></body></html>",
    "blank" => b"  \n",
    "bin" => b"\xff\xfe\x00\x01\x02\x03",
    "text" => b"plain words",
    _ => tool_error("unknown kind of content"),
  }
}
/// counts are multiples of a unit, which may be large
fn catalogue(v: &Value, unit: u64) -> HashMap<String, u64> {
  v.as_array().unwrap().iter().map(|e| (e["k"].as_str().unwrap().to_string(), unit * e["v"].as_u64().unwrap())).collect()
}
fn sorted(m: HashMap<String, u64>, unit: u64) -> Value {
  let mut v: Vec<_> = m.into_iter().collect();
  v.sort();
  json!(v.into_iter().map(|(k, v)| json!({"k": k, "v": if v % unit == 0 { (v / unit) as i64 } else { -1 }})).collect::<Vec<_>>())
}
/// lays out the entries; path -> entry
fn lay_out(root: &Path, outside: &Path, files: &[Value]) -> (HashMap<String, usize>, Vec<PathBuf>) {
  let mut paths: Vec<PathBuf> = Vec::new();
  let mut index = HashMap::new();
  for (i, f) in files.iter().enumerate() {
    let p = usize_of(&f["p"]);
    let at = if p == 0 { root.to_path_buf() } else { paths[p - 1].clone() };
    let name = bytes_name(&f["n"]);
    let path = at.join(&name);
    let kind = f["c"].as_str().unwrap();
    let mut one = |path: PathBuf| {
      index.insert(path.to_str().unwrap_or("").to_string(), i);
      path
    };
    match f["k"].as_str().unwrap() {
      "d" => std::fs::create_dir_all(&path).unwrap(),
      "f" if usize_of(&f["r"]) > 1 => {
        for j in 0..usize_of(&f["r"]) {
          let copy = one(at.join(format!("{j}{}", name.to_str().unwrap())));
          std::fs::write(copy, content(kind)).unwrap();
        }
      },
      "f" => std::fs::write(one(path.clone()), content(kind)).unwrap(),
      "l" => {
        let target = outside.join(format!("target{i}"));
        std::fs::write(&target, content(kind)).unwrap();
        std::os::unix::fs::symlink(target, one(path.clone())).unwrap();
      },
      "ld" => {
        let target = outside.join(format!("folder{i}"));
        std::fs::create_dir_all(&target).unwrap();
        std::fs::write(target.join("in.html"), content("good")).unwrap();
        std::os::unix::fs::symlink(target, &path).unwrap();
      },
      _ => std::os::unix::fs::symlink(outside.join("nowhere"), &path).unwrap(),
    }
    paths.push(path);
  }
  (index, paths)
}
struct Log {
  events: Vec<Value>,
  ended: Vec<usize>,
  calls: Vec<usize>,
  strangers: usize,
}
fn read_as(dom: &libxml::tree::Document) -> &'static str {
  if dom.get_root_readonly().is_none() { return "none" }
  if all_nodes(dom).iter().any(|(n, _)| n.get_name() == "DIV") { "xml" } else { "html" }
}

fn exec(input: &Value) -> Value {
  let base = scratch("corpus");
  let (root, outside) = (base.join("root"), base.join("outside"));
  std::fs::create_dir_all(&root).unwrap();
  std::fs::create_dir_all(&outside).unwrap();
  // an earlier walk over other contents at the same place
  if input.get("before").is_some() {
    let mut earlier = input.clone();
    for f in earlier["files"].as_array_mut().unwrap() {
      if f["k"] == "f" && f["c"] != "good" { f["c"] = json!("good") } else if f["k"] == "f" { f["c"] = json!("empty") }
      f["cat"] = json!([{"k": "x", "v": 77}, {"k": "earlier", "v": 1}]);
      f["cat2"] = f["cat"].clone();
    }
    guarded(|| walk(&earlier, &root, &outside));
    for p in [&root, &outside] {
      std::fs::remove_dir_all(p).unwrap();
      std::fs::create_dir_all(p).unwrap();
    }
  }
  let obs = guarded(|| walk(input, &root, &outside));
  std::fs::remove_dir_all(&base).unwrap();
  obs
}
fn walk(input: &Value, root: &Path, outside: &Path) -> Value {
  let files = input["files"].as_array().unwrap();
  let (index, paths) = lay_out(root, outside, files);
  let single: Vec<bool> = files.iter().map(|f| usize_of(&f["r"]) == 1).collect();
  let sched: Vec<(String, usize)> = input["sched"].as_array().unwrap().iter().map(|e| (e[0].as_str().unwrap().to_string(), usize_of(&e[1]) - 1)).collect();
  let ends: Vec<usize> = sched.iter().filter(|e| e.0 == "end").map(|e| e.1).collect();
  let log = Mutex::new(Log { events: vec![], ended: vec![], calls: vec![0; files.len()], strangers: 0 });
  let turn = Condvar::new();
  let extension = input["ext"].as_array().unwrap().first().map(text);
  let root_text = root.to_str().unwrap().to_string();
  // begin: returns the entry
  let begin = |path: &str, dom: &libxml::tree::Document| -> Option<usize> {
    let m = read_as(dom);
    let mut l = log.lock().unwrap();
    match index.get(path) {
      None => { l.strangers += 1; None },
      Some(&i) => {
        l.calls[i] += 1;
        if single[i] { l.events.push(json!({"e": "begin", "f": i + 1, "m": m})) }
        Some(i)
      },
    }
  };
  let end = |i: usize| {
    let mut l = log.lock().unwrap();
    if let Some(pos) = ends.iter().position(|e| *e == i) {
      let before = &ends[..pos];
      let limit = Instant::now() + Duration::from_millis(40);
      while !before.iter().all(|b| l.ended.contains(b)) && Instant::now() < limit {
        l = turn.wait_timeout(l, Duration::from_millis(10)).unwrap().0;
      }
    }
    if single[i] {
      l.events.push(json!({"e": "end", "f": i + 1, "m": ""}));
      l.ended.push(i);
    }
    turn.notify_all();
  };
  let unit = input.get("unit").map_or(1, |u| u.as_u64().unwrap());
  let mut sums = (HashMap::new(), HashMap::new());
  if input["mode"] == "seq" {
    let mut corpus = data::Corpus::new(root_text);
    corpus.extension = extension;
    // the same corpus can be walked again
    if input.get("before").is_some() { corpus.iter().take(3).for_each(drop); corpus.iter().for_each(drop) }
    let gone: Vec<usize> = input.get("gone").map_or(vec![], |g| g.as_array().unwrap().iter().map(|i| usize_of(i) - 1).collect());
    let mut first = true;
    for mut doc in corpus.iter() {
      let Some(i) = begin(&doc.path, &doc.dom) else { continue };
      let _ = doc.sentence_iter().count();
      let _ = doc.paragraph_iter().count() + doc.get_math_nodes().len() + doc.get_ref_nodes().len();
      end(i);
      // files and folders vanish while the walk goes on
      if std::mem::take(&mut first) {
        for &f in &gone {
          let Ok(kind) = std::fs::symlink_metadata(&paths[f]) else { continue };
          if kind.is_dir() { std::fs::remove_dir_all(&paths[f]).unwrap() } else { std::fs::remove_file(&paths[f]).unwrap() }
          log.lock().unwrap().events.push(json!({"e": "vanish", "f": f + 1, "m": ""}));
        }
      }
    }
  } else {
    let mut corpus = parallel_data::Corpus::new(root_text);
    corpus.extension = extension;
    let work = |mut doc: parallel_data::Document| -> (HashMap<String, u64>, HashMap<String, u64>) {
      let Some(i) = begin(&doc.path, &doc.dom) else { return (HashMap::new(), HashMap::new()) };
      let _ = doc.sentence_iter().count();
      let _ = doc.extended_paragraph_iter().count() + doc.heading_iter().count() + doc.filter_iter(&|_| true).count();
      end(i);
      (catalogue(&files[i]["cat"], unit), catalogue(&files[i]["cat2"], unit))
    };
    jwalk::shim_order(input.get("order").and_then(|o| o.as_u64()).unwrap_or(0));
    jwalk::shim_first(sched.iter().filter(|e| e.0 != "end").map(|e| paths[e.1].clone()).collect());
    if input.get("before").is_some() {
      corpus.catalog_with_parallel_walk(|d| HashMap::from([(d.path.clone(), 3)]));
      corpus.catalogs_with_parallel_walk(|d| (HashMap::from([("x".to_string(), 3)]), HashMap::from([(d.path, 3)])));
    }
    let pool = rayon::ThreadPoolBuilder::new().num_threads(usize_of(&input["threads"])).build().unwrap();
    sums = pool.install(|| match input["mode"].as_str().unwrap() {
      "one" => (corpus.catalog_with_parallel_walk(|d| work(d).0), HashMap::new()),
      _ => corpus.catalogs_with_parallel_walk(work),
    });
    jwalk::shim_first(vec![]);
    jwalk::shim_order(0);
  }
  let l = log.into_inner().unwrap();
  json!({"status": "ok", "events": l.events, "calls": l.calls, "strangers": l.strangers, "sum": sorted(sums.0, unit), "sum2": sorted(sums.1, unit)})
}

fn random_catalogue(g: &mut Gen, keys: &[&str]) -> Value {
  let mut out = Vec::new();
  for k in keys {
    if g.chance(50) { out.push(json!({"k": k, "v": if g.chance(10) { 0 } else { g.below(100000) }})) }
  }
  json!(out)
}
fn gen(g: &mut Gen) {
  const KEYS: [&str; 7] = ["x", "y", "z", "the word", "", "é", "total"];
  const KINDS: [&str; 8] = ["good", "good", "good", "text", "unclosed", "empty", "blank", "nul"];
  if prop() == "C15" {
    for n in 0..g.amount(120, 2500) {
      let files: Vec<Value> = (0..g.range(0, 14)).map(|i| {
        let name = if g.chance(75) { format!("d{i}.html") } else if g.chance(70) { format!("d{i}.xhtml") } else { format!("d{i}.txt") };
        let (c, one, two) = (*g.pick(&KINDS), random_catalogue(g, &KEYS), random_catalogue(g, &KEYS));
        json!({"p": 0, "n": cps(&name), "k": "f", "c": c, "r": 1, "cat": one, "cat2": two})
      }).collect();
      let (mode, threads) = (*g.pick(&["one", "pair"]), g.range(1, 8));
      let mut case = json!({"mode": mode, "ext": [], "threads": threads, "order": n + 1, "files": files, "sched": []});
      if g.chance(20) { case["before"] = json!(true) }
      if g.chance(30) { case["unit"] = json!(*g.pick(&[65536u64, (1 << 32) + 1, (1 << 40) + 3, (1 << 43) - 1])) }
      g.push(case);
    }
    // many keys
    for n in 0..g.amount(6, 40) {
      let keys: Vec<String> = (0..g.range(50, 300)).map(|k| format!("{}{k}", ["key", "the word number ", "ß"][k % 3])).collect();
      let keys: Vec<&str> = keys.iter().map(|k| k.as_str()).collect();
      let files: Vec<Value> = (0..g.range(2, 5)).map(|i| {
        let (one, two) = (random_catalogue(g, &keys), random_catalogue(g, &keys));
        json!({"p": 0, "n": cps(&format!("d{i}.html")), "k": "f", "c": "good", "r": 1, "cat": one, "cat2": two})
      }).collect();
      let (mode, threads) = (*g.pick(&["one", "pair"]), g.range(1, 8));
      g.push(json!({"mode": mode, "ext": [], "threads": threads, "order": n + 1, "files": files, "sched": []}));
    }
    // corpora of many documents
    let sizes: &[usize] = if g.thorough { &[2, 255, 256, 999, 1000, 1001, 1002, 2001, 4096, 10001] } else { &[17, 1000, 1001, 2001] };
    for (n, &size) in sizes.iter().enumerate() {
      for mode in ["one", "pair"] {
        let mut files = vec![json!({"p": 0, "n": cps("copy.html"), "k": "f", "c": "text", "r": size, "cat": [{"k": "x", "v": 1}, {"k": "y", "v": 3}], "cat2": [{"k": "z", "v": 2}]})];
        files.push(json!({"p": 0, "n": cps("z.xhtml"), "k": "f", "c": "good", "r": 1, "cat": [{"k": "x", "v": 5}], "cat2": []}));
        g.push(json!({"mode": mode, "ext": [], "threads": 1 + (n * 3) % 8, "order": n, "files": files, "sched": []}));
      }
    }
    return;
  }
  const NAMES: [&str; 22] = [
    "a.html", "b.xhtml", "c.html", "d.xhtml", "e.html5", "f.txt", ".g.html", ".html", ".xhtml", "html", "i.HTML", "j.html.bak", "kxhtml", "l.htm", "é.html", "名.xhtml", "m n.html",
    "o.html ", "p\u{f8ff}.html", "q..xhtml", "r.html.xhtml", "s.xhtml.html",
  ];
  for n in 0..g.amount(900, 12000) {
    let mut files: Vec<Value> = Vec::new();
    let mut dirs = vec![0];
    let (many, deep) = (g.chance(2), g.chance(3));
    if g.chance(3) { // folders in folders in folders
      for i in 0..g.range(6, 30) { files.push(json!({"p": i, "n": cps(g.pick(&["sub", ".sub", "é"])), "k": "d", "c": "good", "r": 1, "cat": [{"k": "n", "v": 1}], "cat2": []})); dirs.push(i + 1) }
    }
    for i in 0..if many { g.range(30, 70) } else { g.range(0, 12) } {
      let p = if deep || (dirs.len() > 6 && g.chance(30)) { *dirs.last().unwrap() } else { *g.pick(&dirs) };
      let k = if deep && g.chance(50) { "d" } else { *g.pick(&["f", "f", "f", "f", "f", "f", "d", "d", "l", "ld", "x"]) };
      let name = if k == "d" { *g.pick(&["dir", ".dir", "dir.html", "dir.xhtml", "é", "x\u{f8ff}", "sub"]) } else { *g.pick(&NAMES) };
      let name = if many && g.chance(70) { format!("n{i}{name}") } else { name.to_string() };
      if files.iter().any(|f| f["p"] == p && text(&f["n"]) == name) { continue }
      let c = if k == "f" || k == "l" { *g.pick(&["good", "unclosed", "empty", "nul", "badenc", "blank", "bin", "text"]) } else { "good" };
      files.push(json!({"p": p, "n": cps(&name), "k": k, "c": c, "r": 1,
        "cat": [{"k": "n", "v": 1}], "cat2": []}));
      if k == "d" { dirs.push(files.len()) }
    }
    let ext = if g.chance(70) { json!([]) } else { json!([cps(g.pick(&[".html5", "html", ".xhtml", "", ".bak", "l", "é.html", "a.html"]))]) };
    let (mode, threads) = (*g.pick(&["seq", "seq", "one", "pair"]), g.range(1, 4));
    let mut case = json!({"mode": mode, "ext": ext, "threads": threads, "order": n, "files": files, "sched": []});
    if g.chance(15) { case["before"] = json!(true) }
    let entries = case["files"].as_array().unwrap().len();
    if mode == "seq" && g.chance(40) {
      case["gone"] = json!((1..=entries).filter(|_| g.chance(20)).collect::<Vec<_>>());
    }
    g.push(case);
  }
  // folders that vanish, among others that do not
  for n in 0..g.amount(60, 600) {
    let mut files = Vec::new();
    let folders = g.range(4, 9);
    for i in 0..folders { files.push(json!({"p": if i > 1 && g.chance(20) { i - 1 } else { 0 }, "n": cps(&format!("s{i}")), "k": "d", "c": "good", "r": 1, "cat": [{"k": "n", "v": 1}], "cat2": []})) }
    for i in 0..folders {
      for j in 0..g.range(1, 2) { files.push(json!({"p": i + 1, "n": cps(&format!("d{j}.html")), "k": "f", "c": "good", "r": 1, "cat": [{"k": "n", "v": 1}], "cat2": []})) }
    }
    let gone: Vec<usize> = (1..=files.len()).filter(|_| g.chance(25)).collect();
    g.push(json!({"mode": "seq", "ext": [], "threads": 1, "order": n, "files": files, "sched": [], "gone": gone}));
  }
}
