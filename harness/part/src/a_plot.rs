//! Plotting (C28): this binary also plays the plotting program, and keeps the script it is sent
use crate::driver::*;
use crate::util::plot::plot_simple;
use serde_json::{json, Value};
use std::path::PathBuf;
use std::time::{Duration, Instant};

pub fn area() -> Area { Area { name: "plot", gen, exec } }

fn scratch() -> PathBuf { PathBuf::from(std::env::var("VP_SCRATCH").unwrap()) }

/// started as `gnuplot`: keep what comes in
pub fn play_gnuplot() {
  use std::io::Read;
  if std::env::args().any(|a| a == "--version") {
    println!("gnuplot 5.4 patchlevel 2");
    return;
  }
  let mut script = Vec::new();
  std::io::stdin().read_to_end(&mut script).unwrap();
  let id = std::process::id();
  let dir = PathBuf::from(std::env::var("VP_PLOTS").unwrap());
  std::fs::write(dir.join(format!("{id}.part")), script).unwrap();
  std::fs::rename(dir.join(format!("{id}.part")), dir.join(format!("{id}.script"))).unwrap();
}

fn literal_after<'a>(line: &'a str, command: &str) -> Option<&'a str> {
  let rest = line.strip_prefix(command)?.strip_prefix('"')?;
  let mut escaped = false;
  for (i, c) in rest.char_indices() {
    if c == '"' && !escaped { return Some(&rest[..i]) }
    escaped = c == '\\' && !escaped;
  }
  None
}

/// the count whose binary logarithm is y, or -1
fn count_of(y: f64) -> i64 {
  if y == f64::NEG_INFINITY { return 0 }
  let c = y.exp2().round();
  if c >= 1.0 && ((c.log2() - y).abs() < 1e-12 || c.log2() == y) { c as i64 } else { -1 }
}

fn parse(script: &[u8], shift: u32) -> Value {
  let mut at = 0;
  let (mut path, mut xl, mut yl, mut title) = (None, None, None, None);
  let (mut terminal, mut style, mut plots, mut points) = (String::new(), String::new(), 0, Vec::new());
  while at < script.len() {
    let end = script[at..].iter().position(|b| *b == b'\n').map(|p| at + p).unwrap_or(script.len());
    let line = String::from_utf8_lossy(&script[at..end]).to_string();
    at = end + 1;
    if let Some(t) = literal_after(&line, "set output ") { path = Some(t.to_string()) }
    if let Some(t) = literal_after(&line, "set xlabel ") { xl = Some(t.to_string()) }
    if let Some(t) = literal_after(&line, "set ylabel ") { yl = Some(t.to_string()) }
    if let Some(t) = literal_after(&line, "set title ") { title = Some(t.to_string()) }
    if let Some(t) = line.strip_prefix("set terminal ") { terminal = t.trim().to_string() }
    if line.starts_with("plot ") {
      plots += 1 + line.matches(", \"-\"").count();
      style = line.split(" with ").nth(1).unwrap_or("").split(' ').next().unwrap_or("").to_string();
      let records: usize = line.split("record=").nth(1).and_then(|r| r.split(' ').next()).and_then(|r| r.parse().ok()).unwrap_or(0);
      for _ in 0..records {
        if at + 16 > script.len() { points.push(json!([-1, -1])); break }
        let x = f64::from_le_bytes(script[at..at + 8].try_into().unwrap());
        let y = f64::from_le_bytes(script[at + 8..at + 16].try_into().unwrap());
        at += 16;
        points.push(json!([x as i64, count_of(y - f64::from(shift))]));
      }
    }
  }
  let lit = |o: Option<String>| o.map(|t| cps(&t)).unwrap_or_else(|| json!([]));
  json!({"path": lit(path), "xl": lit(xl), "yl": lit(yl), "title": lit(title), "terminal": terminal, "style": style, "plots": plots, "points": points})
}

fn exec(input: &Value) -> Value {
  let bin = scratch().join("bin");
  let plots = scratch().join("plots");
  if !bin.exists() {
    std::fs::create_dir_all(&bin).unwrap();
    std::os::unix::fs::symlink(std::env::current_exe().unwrap(), bin.join("gnuplot")).unwrap();
    std::env::set_var("PATH", format!("{}:{}", bin.display(), std::env::var("PATH").unwrap_or_default()));
    std::env::set_var("VP_PLOTS", &plots);
  }
  let _ = std::fs::remove_dir_all(&plots);
  std::fs::create_dir_all(&plots).unwrap();
  // counts may be given in large units
  let shift = input.get("shift").map_or(0, |s| s.as_u64().unwrap() as u32);
  let entries: Vec<(i64, usize)> = input["entries"].as_array().unwrap().iter().map(|e| (e["k"].as_i64().unwrap(), (e["c"].as_u64().unwrap() as usize) << shift)).collect();
  let (xl, yl, title, path) = (text(&input["xl"]), text(&input["yl"]), text(&input["title"]), text(&input["path"]));
  if entries.iter().any(|e| e.0 < 0) {
    plot_simple::<i64>(&entries, &xl, &yl, &title, &path);
  } else {
    // as the examples do
    let entries: Vec<(usize, usize)> = entries.iter().map(|e| (e.0 as usize, e.1)).collect();
    plot_simple::<usize>(&entries, &xl, &yl, &title, &path);
  }
  let start = Instant::now();
  let complete = || -> Vec<Vec<u8>> {
    std::fs::read_dir(&plots).unwrap().filter_map(|f| f.ok()).filter(|f| f.path().extension().map_or(false, |e| e == "script")).map(|f| std::fs::read(f.path()).unwrap()).collect()
  };
  let mut scripts = complete();
  while scripts.is_empty() && start.elapsed() < Duration::from_secs(10) {
    std::thread::sleep(Duration::from_micros(300));
    scripts = complete();
  }
  json!({"status": "ok", "scripts": scripts.iter().map(|s| parse(s, shift)).collect::<Vec<_>>()})
}

fn gen(g: &mut Gen) {
  const CHARS: [char; 14] = ['a', 'Z', ' ', '"', '\\', '\n', '\t', 'n', 't', 'é', '\'', '_', '%', '{'];
  let words = |g: &mut Gen, n: usize| -> Value { let s: String = (0..g.range(0, n)).map(|_| *g.pick(&CHARS)).collect(); cps(&s) };
  for round in 0..g.amount(260, 3000) {
    let long = round % 40 == 0;
    let size = if long { g.range(200, 1200) } else { g.range(0, 30) };
    let negative = g.chance(30);
    let entries: Vec<Value> = (0..size).map(|i| {
      let k = match g.below(4) { 0 => i as i64, 1 => g.below(6) as i64, _ => g.below(100000) as i64 } * if negative && g.chance(50) { -1 } else { 1 };
      let c = match g.below(5) { 0 => 1 << g.below(30), 1 => g.below(4), 2 => g.below(70000), 3 => g.below(1 << 30), _ => g.range(1, 300) };
      json!({"k": k, "c": c})
    }).collect();
    let (xl, yl, title, path) = (words(g, 12), words(g, 12), words(g, 12), words(g, 20));
    let mut case = json!({"entries": entries, "xl": xl, "yl": yl, "title": title, "path": path});
    if g.chance(20) { case["shift"] = json!(*g.pick(&[1, 3, 20, 33])) }
    g.push(case);
  }
}
