//! The list of resource documents (C29); it is made once per process, so each case is a process
use crate::driver::*;
use serde_json::{json, Value};
use std::path::PathBuf;

pub fn area() -> Area { Area { name: "resources", gen, exec } }

/// the process of one case: prints the list as its threads see it
pub fn child() {
  let threads: Vec<_> = (0..3).map(|_| std::thread::spawn(|| crate::util::test::RESOURCE_DOCUMENTS.iter().map(|s| cps(s)).collect::<Vec<_>>())).collect();
  let lists: Vec<Value> = threads.into_iter().map(|t| json!(t.join().ok())).collect();
  println!("{}", json!(lists));
}

fn exec(input: &Value) -> Value {
  let top = PathBuf::from(std::env::var("VP_SCRATCH").unwrap()).join("resources");
  let _ = std::fs::remove_dir_all(&top);
  let root = top.join("tests").join("resources");
  std::fs::create_dir_all(if input["root"] == true { &root } else { &top }).unwrap();
  std::fs::create_dir_all(top.join("aside")).unwrap();
  std::fs::write(top.join("aside/target.txt"), "x").unwrap();
  std::fs::write(top.join("aside/inside.html"), "x").unwrap();
  std::fs::write(top.join("tests-outside.html"), "x").unwrap();
  let mut paths: Vec<PathBuf> = vec![root];
  for f in input["files"].as_array().unwrap() {
    let path = paths[f["p"].as_u64().unwrap() as usize].join(text(&f["n"]));
    match f["k"].as_str().unwrap() {
      "d" => std::fs::create_dir(&path).unwrap(),
      "f" => std::fs::write(&path, "x").unwrap(),
      "l" => std::os::unix::fs::symlink(top.join("aside/target.txt"), &path).unwrap(),
      _ => std::os::unix::fs::symlink(top.join("aside"), &path).unwrap(),
    }
    paths.push(path);
  }
  let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("resources-child").current_dir(&top).output().unwrap();
  let lists: Value = serde_json::from_slice(&out.stdout).unwrap_or(Value::Null);
  let ok = out.status.success() && lists.as_array().map_or(false, |l| l.iter().all(|x| x.is_array()));
  json!({"status": if ok { "ok" } else { "failed" }, "lists": if ok { lists } else { json!([]) }})
}

fn gen(g: &mut Gen) {
  const NAMES: [&str; 16] = ["a.html", "b.html", "ü.html", "0903.1000.html", "a.xhtml", "a b.html", ".hidden.html", ".html", "a.htm", "html", "a.html~", "A.HTML", "sub", "sub.html", ".git", "x.html.gz"];
  for _ in 0..g.amount(250, 3000) {
    let mut files: Vec<Value> = Vec::new();
    let mut taken: Vec<(usize, String)> = Vec::new();
    for _ in 0..g.range(0, 24) {
      let mut p = 0;
      // deep nesting is likely
      for (i, f) in files.iter().enumerate() { if f["k"] == "d" && g.chance(40) { p = i + 1 } }
      let n = if g.chance(20) { format!("{}.html", g.below(50)) } else { g.pick(&NAMES).to_string() };
      if taken.contains(&(p, n.clone())) { continue }
      let document = (n.ends_with(".html") || n.ends_with(".xhtml")) && n != ".html";
      let k = match g.below(10) { 0..=5 => "f", 6 | 7 => "d", _ => if document { "l" } else { "ld" } };
      taken.push((p, n.clone()));
      files.push(json!({"p": p, "n": cps(&n), "k": k}));
    }
    // sometimes folders in folders in folders, with a document in the last one
    if g.chance(8) {
      let mut p = 0;
      for i in 0..g.range(3, 14) {
        files.push(json!({"p": p, "n": cps(&format!("deep{i}")), "k": "d"}));
        p = files.len();
        if g.chance(20) { files.push(json!({"p": p, "n": cps("between.html"), "k": "f"})) }
      }
      files.push(json!({"p": p, "n": cps(g.pick(&["last.html", "last.xhtml"])), "k": "f"}));
    }
    let root = files.is_empty() == false || g.chance(50);
    g.push(json!({"root": root, "files": files}));
  }
  // many
  for _ in 0..g.amount(2, 20) {
    let mut files = vec![json!({"p": 0, "n": cps("sub"), "k": "d"}), json!({"p": 1, "n": cps("more"), "k": "d"})];
    for i in 0..g.range(110, 320) { let (p, e) = (g.below(3), *g.pick(&["html", "html", "xhtml", "htm"])); files.push(json!({"p": p, "n": cps(&format!("{i}.{e}")), "k": "f"})) }
    g.push(json!({"root": true, "files": files}));
  }
}
