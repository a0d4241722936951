//! Shared by the harness crates: runs the generated (or given) inputs through the real code and
//! records one JSON line per case.  A panic is data; a hang or a crash is noticed by the runner
//! through the side file that names the input under way.
use rand::rngs::StdRng;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value};
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

pub struct Gen {
  pub rng: StdRng,
  pub seed: u64,
  pub thorough: bool,
  pub out: Vec<Value>,
}
impl Gen {
  pub fn push(&mut self, v: Value) { self.out.push(v) }
  pub fn below(&mut self, n: usize) -> usize { self.rng.gen_range(0..n) }
  pub fn range(&mut self, a: usize, b: usize) -> usize { self.rng.gen_range(a..=b) }
  pub fn chance(&mut self, percent: usize) -> bool { self.rng.gen_range(0..100) < percent }
  pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.rng.gen_range(0..v.len())] }
  /// quick / thorough amount
  pub fn amount(&self, quick: usize, thorough: usize) -> usize { if self.thorough { thorough } else { quick } }
}

pub struct Area {
  pub name: &'static str,
  pub gen: fn(&mut Gen),
  pub exec: fn(&Value) -> Value,
}

/// text as code points
pub fn cps(s: &str) -> Value { Value::Array(s.chars().map(|c| json!(c as u32)).collect()) }
/// code points as text
pub fn text(v: &Value) -> String {
  v.as_array()
    .expect("code points")
    .iter()
    .map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap())
    .collect()
}
pub fn texts(v: &Value) -> Vec<String> { v.as_array().unwrap().iter().map(text).collect() }

static STARTED: AtomicU64 = AtomicU64::new(0);
fn now() -> u64 { SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs() }

pub fn panic_message(e: Box<dyn std::any::Any + Send>) -> String {
  if let Some(s) = e.downcast_ref::<&str>() {
    s.to_string()
  } else if let Some(s) = e.downcast_ref::<String>() {
    s.clone()
  } else {
    "panic".to_string()
  }
}

/// areas whose cases cannot run side by side
const ALONE: [&str; 4] = ["corpus", "tokenmodel", "plot", "resources"];
thread_local! { static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) } }
/// tells the threads that run cases apart
pub fn slot() -> usize { SLOT.with(|s| s.get()) }

/// runs cases again, in four threads, each in its own order; returns what came out differently
fn again(exec: fn(&Value) -> Value, done: &[(Value, Value)]) -> Vec<(Value, Value)> {
  const THREADS: usize = 4;
  let step = done.len() / 400 + 1;
  let some: Vec<&(Value, Value)> = done.iter().step_by(step).collect();
  let end = SystemTime::now() + Duration::from_secs(8);
  let others = std::sync::Mutex::new(Vec::new());
  std::thread::scope(|scope| {
    for t in 0..THREADS {
      let (some, others) = (&some, &others);
      std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(scope, move || {
        SLOT.with(|s| s.set(t + 1));
        for n in 0..some.len() {
          if SystemTime::now() > end { break }
          // two threads start at the same case, two others somewhere else, one of them backwards
          let at = match t { 0 | 1 => n, 2 => (n + some.len() / 2) % some.len(), _ => some.len() - 1 - n };
          let (input, seen) = some[at];
          STARTED.store(now(), Ordering::SeqCst);
          let obs = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exec(input)))
            .unwrap_or_else(|e| json!({"status": "panic", "message": panic_message(e)}));
          if obs != *seen {
            let mut others = others.lock().unwrap();
            if others.len() < 50 && !others.contains(&(input.clone(), obs.clone())) { others.push((input.clone(), obs)) }
          }
        }
      }).unwrap();
    }
  });
  others.into_inner().unwrap()
}

/// usage: AREA --seed N --tier quick|thorough --out FILE [--inputs FILE] [--only-inputs]
pub fn main(areas: Vec<Area>) {
  let args: Vec<String> = std::env::args().collect();
  let opt = |name: &str| args.iter().position(|a| a == name).map(|i| args[i + 1].clone());
  let area = areas.into_iter().find(|a| a.name == args[1]).unwrap_or_else(|| {
    eprintln!("unknown area {}", args[1]);
    std::process::exit(2)
  });
  let seed: u64 = opt("--seed").map(|s| s.parse().unwrap()).unwrap_or(1);
  let thorough = opt("--tier").as_deref() == Some("thorough");
  let out_path = opt("--out").expect("--out");
  let mut inputs: Vec<Value> = Vec::new();
  if let Some(path) = opt("--inputs") {
    for line in BufReader::new(File::open(path).unwrap()).lines() {
      inputs.push(serde_json::from_str(&line.unwrap()).unwrap());
    }
  }
  if !args.iter().any(|a| a == "--only-inputs") {
    let mut g = Gen { rng: StdRng::seed_from_u64(seed), seed, thorough, out: Vec::new() };
    (area.gen)(&mut g);
    inputs.append(&mut g.out);
  }
  let limit: u64 = opt("--case-limit").map(|s| s.parse().unwrap()).unwrap_or(30);
  STARTED.store(now(), Ordering::SeqCst);
  std::thread::spawn(move || loop {
    std::thread::sleep(Duration::from_millis(500));
    if now() > STARTED.load(Ordering::SeqCst) + limit {
      eprintln!("case limit exceeded");
      std::process::exit(77);
    }
  });
  std::panic::set_hook(Box::new(|_| {}));
  let mut out = BufWriter::new(File::create(&out_path).unwrap());
  let mut current = File::create(format!("{out_path}.current")).unwrap();
  let exec = area.exec;
  let alone = ALONE.contains(&area.name);
  // a generous stack, so that only unbounded recursion overflows it
  let worker = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
    use std::io::{Seek, SeekFrom};
    let mut done = Vec::new();
    for (i, input) in inputs.into_iter().enumerate() {
      let line = serde_json::to_string(&input).unwrap();
      current.set_len(0).unwrap();
      current.seek(SeekFrom::Start(0)).unwrap();
      current.write_all(line.as_bytes()).unwrap();
      STARTED.store(now(), Ordering::SeqCst);
      let obs = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exec(&input)))
        .unwrap_or_else(|e| json!({"status": "panic", "message": panic_message(e)}));
      serde_json::to_writer(&mut out, &json!({"i": i + 1, "in": input, "obs": obs})).unwrap();
      out.write_all(b"\n").unwrap();
      if !alone && line.len() < 6000 { done.push((input, obs)) }
    }
    // once more, from several threads at a time: what comes out differently is judged as well
    if let Some((input, _)) = done.first() {
      current.set_len(0).unwrap();
      current.seek(SeekFrom::Start(0)).unwrap();
      current.write_all(serde_json::to_string(input).unwrap().as_bytes()).unwrap();
    }
    for (input, obs) in again(exec, &done) {
      serde_json::to_writer(&mut out, &json!({"i": 0, "in": input, "obs": obs})).unwrap();
      out.write_all(b"\n").unwrap();
    }
    out.flush().unwrap();
    current.set_len(0).unwrap();
  });
  if worker.unwrap().join().is_err() {
    std::process::exit(3);
  }
  std::process::exit(0);
}
