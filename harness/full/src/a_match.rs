//! Pattern matching on sentences (C06) and formulas (C07)
use crate::common::*;
use crate::driver::*;
use crate::pat::*;
use libxml::readonly::RoNode;
use llamapun::dnm::{DNMRange, DNM};
use llamapun::patterns::*;
use senna::senna::{shim_script, Senna, SennaParseOptions};
use senna::sentence::PSGNode;
use serde_json::{json, Value};

pub fn area() -> Area { Area { name: "match", gen, exec } }

fn psg(t: &Value) -> PSGNode {
  if t["l"] == "" { PSGNode::Leaf(usize_of(&t["w"]) - 1) } else {
    PSGNode::parent(phrase_of(t["l"].as_str().unwrap()), t["k"].as_array().unwrap().iter().map(psg).collect())
  }
}
fn dump(m: &Match, nodes: &[RoNode]) -> Value {
  let sub: Vec<Value> = m.sub_matches.iter().map(|m| dump(m, nodes)).collect();
  let tags = |t: &[String]| t.iter().map(|t| cps(t)).collect::<Vec<_>>();
  match &m.marker {
    MarkerEnum::Text(t) => json!({"kind": "text", "name": cps(&t.marker.name), "tags": tags(&t.marker.tags), "s": t.range.start, "e": t.range.end, "node": 0, "sub": sub}),
    MarkerEnum::Math(t) => json!({"kind": "math", "name": cps(&t.marker.name), "tags": tags(&t.marker.tags), "s": 0, "e": 0,
      "node": nodes.iter().position(|n| *n == t.node).map(|i| i + 1).unwrap_or(0), "sub": sub}),
  }
}
fn exec(input: &Value) -> Value {
  let doc = document(&input["tree"]);
  let nodes: Vec<RoNode> = all_nodes(&doc).into_iter().map(|x| x.0).collect();
  let mut plain = text(&input["pre"]);
  let mut back = vec![(nodes[0], 0i32); plain.chars().count()];
  let start = back.len();
  let words = input["words"].as_array().unwrap();
  for w in words {
    for (part, node) in [("gap", 0), ("t", usize_of(&w["node"]))] {
      let t = text(&w[part]);
      for (i, _) in t.chars().enumerate() { back.push(if node == 0 { (nodes[0], i as i32) } else { (nodes[node - 1], 0) }) }
      plain.push_str(&t);
    }
  }
  let end = back.len();
  plain.push_str(" and more");
  for i in 0..9 { back.push((nodes[0], i)) }
  let dnm = DNM { back_map: back, ..text_dnm(&plain) };
  let range = DNMRange { start, end, dnm: &dnm };
  shim_script(Some(words.iter().map(|w| pos_of(&text(&w["pos"]))).collect()), Some(psg(&input["psg"])));
  let mut senna = Senna::new(String::new());
  let sentence = senna.parse(range.get_plaintext(), SennaParseOptions { pos: true, psg: true });
  shim_script(None, None);
  let got: Vec<&str> = sentence.get_words().iter().map(|w| w.get_string()).collect();
  let want: Vec<String> = words.iter().map(|w| text(&w["t"])).collect();
  if got != want { tool_error(&format!("words {want:?} are read as {got:?}")) }
  // the rules as built here, or as read from a file
  let pf = match input["xml"].as_u64().unwrap_or(0) { 0 => None, how => load_file(&input["rules"], how == 2) }.unwrap_or_else(|| build_file(&input["rules"]));
  let found = match_sentence(&pf, &sentence, &range, &text(&input["rule"]));
  drop(sentence);
  match found {
    Err(_) => json!({"status": "ok", "err": true, "matches": [], "lists": []}),
    Ok(ms) => {
      let lists: Vec<Value> = ms.iter().map(|m| Value::Array(m.get_marker_list().iter().map(|m| match m {
        MarkerEnum::Text(t) => cps(&t.marker.name),
        MarkerEnum::Math(t) => cps(&t.marker.name),
      }).collect())).collect();
      json!({"status": "ok", "err": false, "matches": ms.iter().map(|m| dump(m, &nodes)).collect::<Vec<_>>(), "lists": lists})
    },
  }
}

// ---- random cases
const WORDS: [&str; 11] = ["A", "É", "a", "b", "the", "é", "λx", "😀", "ab", ".", ","];
const TAGS: [&str; 5] = ["NN", "VB", "DT", "PRP$", "."];
struct G<'a> { g: &'a mut Gen, room: usize, marks: usize, math: bool }
impl G<'_> {
  fn mark(&mut self) -> Vec<Value> {
    self.marks += 1;
    let mut v = vec![cps(&format!("m{}", self.marks))];
    for _ in 0..self.g.below(3) { v.push(cps(*self.g.pick(&["t", "é", ""]))) }
    v
  }
  fn list(&mut self, max: usize, f: &mut dyn FnMut(&mut Self) -> Value) -> Vec<Value> {
    let n = self.g.below(max + 1);
    // now and then alternatives of one kind only
    let same = n > 1 && self.g.chance(30);
    let mut l: Vec<Value> = Vec::new();
    for _ in 0..n {
      let room = self.room;
      let mut v = f(self);
      for _ in 0..6 { if same && !l.is_empty() && v["op"] != l[0]["op"] { self.room = room; v = f(self) } }
      l.push(v);
    }
    l
  }
  fn spend(&mut self) -> bool { let r = self.room > 0; self.room = self.room.saturating_sub(1); r }
  fn pos(&mut self) -> Value {
    let go = self.spend();
    match self.g.below(10) {
      0 | 1 if go => node("pos_not", vec![], vec![self.pos()]),
      2 | 3 if go => { let l = self.list(3, &mut |x| x.pos()); node("pos_or", vec![], l) },
      4 => node("pos_ref", vec![cps("p1")], vec![]),
      _ => { let t = *self.g.pick(&TAGS); node("pos", vec![cps(t)], vec![]) },
    }
  }
  fn mtext(&mut self) -> Value {
    let go = self.spend();
    match self.g.below(10) {
      0 => node("mtext_any", vec![], vec![]),
      1 | 2 if go => node("mtext_not", vec![], vec![self.mtext()]),
      3 | 4 if go => { let l = self.list(3, &mut |x| x.mtext()); node("mtext_or", vec![], l) },
      _ => { let t = *self.g.pick(&["x", "x", "y", "∈", "", "+", "x ", " y", "X"]); node("mtext_lit", vec![cps(t)], vec![]) },
    }
  }
  /// refs only to rules after `level`, so that there is no left recursion
  fn math_p(&mut self, level: usize) -> Value {
    let go = self.spend();
    match self.g.below(20) {
      0 | 1 => node("math_any", vec![], vec![]),
      2..=6 if go => { let a = self.mark(); node("math_marker", a, vec![self.math_p(level)]) },
      7 | 8 if go => { let l = self.list(3, &mut |x| x.math_p(level)); node("math_or", vec![], l) },
      9..=12 if go => { let t = *self.g.pick(&["first", "at_least_one", "arbitrary"]); node("math_descendant", vec![cps(t)], vec![self.math_p(level)]) },
      13 | 14 if level < 3 => { let r = self.g.range(level + 1, 3); node("math_ref", vec![cps(&format!("h{r}"))], vec![]) },
      _ => {
        let args = if self.g.chance(60) { let n = *self.g.pick(&["mi", "mo", "mrow", "msub", "semantics"]); vec![cps(n)] } else { vec![] };
        let mut ch = Vec::new();
        if self.g.chance(30) { let r = *self.g.pick(&["t1", "t2"]); ch.push(node("mtext_ref", vec![cps(r)], vec![])) }
        if go && self.g.chance(50) {
          let t = *self.g.pick(&["exact", "starts_with", "ends_with", "arbitrary", "arbitrary"]);
          let n = self.g.range(1, 3);
          // below a child, any rule may be referred to
          let l = (0..n).map(|_| self.math_p(0)).collect();
          ch.push(node("math_children", vec![cps(t)], l));
        }
        node("math_node", args, ch)
      },
    }
  }
  fn word(&mut self, level: usize) -> Value {
    let go = self.spend();
    if self.math && self.g.chance(45) { return node("word_math", vec![], vec![self.math_p(0)]) }
    match self.g.below(20) {
      0..=2 => node("word_any", vec![], vec![]),
      3..=6 if go => { let a = self.mark(); node("word_marker", a, vec![self.word(level)]) },
      7 | 8 if go => { let l = self.list(3, &mut |x| x.word(level)); node("word_or", vec![], l) },
      9..=11 if go => node("word_not", vec![], vec![self.word(level)]),
      12..=14 if go => { let t = self.pos(); node("word_pos", vec![], vec![t, self.word(level)]) },
      15 | 16 if level < 3 => { let r = self.g.range(level + 1, 3); node("word_ref", vec![cps(&format!("w{r}"))], vec![]) },
      _ => { let t = *self.g.pick(&WORDS); node("word", vec![cps(t)], vec![]) },
    }
  }
  /// `eaten`: something is certainly matched before, so any rule may be referred to
  fn seq(&mut self, level: usize, eaten: bool) -> Value {
    let go = self.spend();
    match self.g.below(24) {
      0..=3 if go => { let a = self.mark(); node("seq_marker", a, vec![self.seq(level, eaten)]) },
      4..=8 if go => {
        let n = self.g.below(4);
        let mut eaten = eaten;
        let l = (0..n).map(|_| { let p = self.seq(level, eaten); eaten |= p["op"] == "seq_word"; p }).collect();
        node("seq_seq", vec![], l)
      },
      9..=13 if go => { let t = *self.g.pick(&["first", "atleastone", "any", "longest"]); let l = self.list(3, &mut |x| x.seq(level, eaten)); node("seq_or", vec![cps(t)], l) },
      14..=16 => {
        let (l, t) = (*self.g.pick(&["NP", "VP", "S"]), *self.g.pick(&["shortest", "longest"]));
        let mut ch = Vec::new();
        if go && self.g.chance(50) { let c = *self.g.pick(&["any", "lessorequal"]); ch.push(node("starts_with_seq", vec![cps(c)], vec![self.seq(level, eaten)])) }
        if go && self.g.chance(50) { ch.push(node("ends_with_seq", vec![], vec![self.seq(level, false)])) }
        node("phrase", vec![cps(l), cps(t)], ch)
      },
      17 | 18 => if eaten { let r = self.g.range(1, 3); node("seq_ref", vec![cps(&format!("s{r}"))], vec![]) }
                 else if level < 3 { let r = self.g.range(level + 1, 3); node("seq_ref", vec![cps(&format!("s{r}"))], vec![]) }
                 else { node("seq_word", vec![], vec![self.word(0)]) },
      _ => node("seq_word", vec![], vec![self.word(0)]),
    }
  }
}
// ---- patterns derived from what is there, so that many of them match
struct D<'a, 'b> { x: &'a mut G<'b>, words: &'a [Value], psg: &'a Value, tree: &'a [Value] }
fn kids_of(tree: &[Value], n: usize) -> Vec<usize> {
  let d = usize_of(&tree[n - 1]["d"]);
  let mut out = Vec::new();
  for j in n + 1..=tree.len() {
    let e = usize_of(&tree[j - 1]["d"]);
    if e <= d { break }
    if e == d + 1 && tree[j - 1]["k"] == "e" { out.push(j) }
  }
  out
}
fn spans(t: &Value, out: &mut Vec<(String, usize, usize)>) -> Option<(usize, usize)> {
  if t["l"] == "" { let w = usize_of(&t["w"]) - 1; return Some((w, w)) }
  let s: Vec<_> = t["k"].as_array().unwrap().iter().filter_map(|c| spans(c, out)).collect();
  let (a, b) = (s.first()?.0, s.last()?.1);
  out.push((t["l"].as_str().unwrap().to_string(), a, b));
  Some((a, b))
}
impl D<'_, '_> {
  fn noisy(&mut self) -> bool { self.x.g.chance(12) }
  fn word(&mut self, i: usize, depth: usize) -> Value {
    if self.noisy() { self.x.room = 2; return self.x.word(0) }
    let w = &self.words[i];
    let at = usize_of(&w["node"]);
    let c = self.x.g.below(if depth > 3 { 30 } else { 100 });
    if at > 0 && self.tree[at - 1]["n"] == "math" && self.x.g.chance(65) { return self.formula(at) }
    match c {
      0..=7 => node("word_any", vec![], vec![]),
      8..=29 => if at > 0 && self.tree[at - 1]["n"] == "math" { self.formula(at) } else { node("word", vec![w["t"].clone()], vec![]) },
      30..=54 => { let a = self.x.mark(); node("word_marker", a, vec![self.word(i, depth + 1)]) },
      55..=66 => { self.x.room = 2; let mut l = self.x.list(2, &mut |x| x.word(0)); let at = self.x.g.below(l.len() + 1); l.insert(at, self.word(i, depth + 1)); node("word_or", vec![], l) },
      67..=77 => { let t = node("pos", vec![w["pos"].clone()], vec![]); let t = if self.x.g.chance(20) { node("pos_not", vec![], vec![self.x.pos()]) } else { t }; node("word_pos", vec![], vec![t, self.word(i, depth + 1)]) },
      78..=87 => { self.x.room = 2; node("word_not", vec![], vec![self.x.word(0)]) },
      88..=93 => node("word_not", vec![], vec![node("word_not", vec![], vec![self.word(i, depth + 1)])]),
      _ => if at > 0 && self.tree[at - 1]["n"] == "math" { self.formula(at) } else { node("word", vec![w["t"].clone()], vec![]) },
    }
  }
  fn formula(&mut self, at: usize) -> Value {
    let mut f = match kids_of(self.tree, at).first() { Some(f) => *f, None => return node("word_any", vec![], vec![]) };
    if self.tree[f - 1]["n"] == "semantics" { if let Some(c) = kids_of(self.tree, f).first() { f = *c } }
    let p = if self.x.g.chance(50) { let a = self.x.mark(); node("math_marker", a, vec![self.math(f, 0)]) } else { self.math(f, 0) };
    node("word_math", vec![], vec![p])
  }
  fn math(&mut self, n: usize, depth: usize) -> Value {
    if self.noisy() { self.x.room = 2; return self.x.math_p(0) }
    let kids = kids_of(self.tree, n);
    match self.x.g.below(if depth > 4 { 12 } else { 100 }) {
      0..=11 => node("math_any", vec![], vec![]),
      12..=39 => { let a = self.x.mark(); node("math_marker", a, vec![self.math(n, depth + 1)]) },
      40..=49 => { self.x.room = 2; let mut l = self.x.list(2, &mut |x| x.math_p(0)); let at = self.x.g.below(l.len() + 1); l.insert(at, self.math(n, depth + 1)); node("math_or", vec![], l) },
      50..=64 => {
        // something at or below the node
        let mut at = n;
        while self.x.g.chance(70) { let k = kids_of(self.tree, at); if k.is_empty() { break } at = *self.x.g.pick(&k) }
        let t = *self.x.g.pick(&["first", "at_least_one", "arbitrary"]);
        let p = if self.x.g.chance(35) {
          // alternatives for two nodes of which only some are marked
          let k = kids_of(self.tree, n);
          let other = if k.is_empty() { n } else { *self.x.g.pick(&k) };
          let mut l = Vec::new();
          for m in [at, other] {
            let q = node("math_node", vec![cps(self.tree[m - 1]["n"].as_str().unwrap())], vec![]);
            l.push(if self.x.g.chance(50) { let a = self.x.mark(); node("math_marker", a, vec![q]) } else { q });
          }
          node("math_or", vec![], l)
        } else { self.math(at, depth + 1) };
        node("math_descendant", vec![cps(t)], vec![p])
      },
      _ => {
        let args = if self.x.g.chance(60) { vec![cps(self.tree[n - 1]["n"].as_str().unwrap())] } else { vec![] };
        let mut ch = Vec::new();
        if kids.is_empty() && self.x.g.chance(40) { let r = *self.x.g.pick(&["t1", "t2"]); ch.push(node("mtext_ref", vec![cps(r)], vec![])) }
        if !kids.is_empty() && self.x.g.chance(75) {
          let t = *self.x.g.pick(&["exact", "starts_with", "ends_with", "arbitrary", "arbitrary"]);
          let len = if t == "exact" { kids.len() } else { self.x.g.range(1, kids.len()) };
          let from = match t { "ends_with" => kids.len() - len, "arbitrary" => self.x.g.below(kids.len() - len + 1), _ => 0 };
          let l = (from..from + len).map(|i| self.math(kids[i], depth + 1)).collect();
          ch.push(node("math_children", vec![cps(t)], l));
        }
        node("math_node", args, ch)
      },
    }
  }
  /// matches the words a..b
  fn seq(&mut self, a: usize, b: usize, depth: usize) -> Value {
    if self.noisy() { self.x.room = 3; return self.x.seq(3, false) }
    let c = self.x.g.below(100);
    if depth > 4 || c < 20 {
      if b == a { return node("seq_seq", vec![], vec![]) }
      if b == a + 1 { return node("seq_word", vec![], vec![self.word(a, 0)]) }
    }
    match c {
      0..=39 => { let m = if b > a { self.x.g.range(a, b) } else { a }; let l = vec![self.seq(a, m, depth + 1), self.seq(m, b, depth + 1)]; node("seq_seq", vec![], l) },
      40..=62 => { let m = self.x.mark(); node("seq_marker", m, vec![self.seq(a, b, depth + 1)]) },
      63..=80 => {
        let t = *self.x.g.pick(&["first", "atleastone", "any", "longest", "longest"]);
        let mut l = vec![self.seq(a, b, depth + 1)];
        for _ in 0..self.x.g.below(3) {
          // a shorter or longer alternative, or anything
          let e = self.x.g.range(a, self.words.len());
          let q = if self.x.g.chance(70) { self.seq(a, e, depth + 2) } else { self.x.room = 2; self.x.seq(3, false) };
          let at = self.x.g.below(l.len() + 1);
          l.insert(at, q);
        }
        node("seq_or", vec![cps(t)], l)
      },
      _ => {
        let mut all = Vec::new();
        spans(self.psg, &mut all);
        let here: Vec<_> = all.into_iter().filter(|s| s.1 == a).collect();
        if here.is_empty() { return self.seq(a, b, depth + 1) }
        let (l, _, last) = self.x.g.pick(&here).clone();
        let t = *self.x.g.pick(&["shortest", "longest"]);
        let mut ch = Vec::new();
        if self.x.g.chance(50) { let e = self.x.g.range(a, (last + 2).min(self.words.len())); let c = *self.x.g.pick(&["any", "lessorequal"]); ch.push(node("starts_with_seq", vec![cps(c)], vec![self.seq(a, e, depth + 2)])) }
        if self.x.g.chance(50) { let s = self.x.g.range(a, last); ch.push(node("ends_with_seq", vec![], vec![self.seq(s, last + 1, depth + 2)])) }
        node("phrase", vec![cps(&l), cps(t)], ch)
      },
    }
  }
}
fn tree_over(g: &mut Gen, from: usize, to: usize, depth: usize) -> Value {
  // a phrase over the words from..to
  let mut k = Vec::new();
  let mut at = from;
  while at < to {
    if depth < 5 && g.chance(55) {
      let end = if g.chance(40) { to } else { g.range(at + 1, to) };
      k.push(tree_over(g, at, end, depth + 1));
      at = end;
    } else { k.push(json!({"l": "", "w": at + 1, "k": []})); at += 1 }
  }
  let l = *g.pick(&["NP", "NP", "VP", "S"]);
  json!({"l": l, "w": 0, "k": k})
}
// ---- every small pattern of a kind, each on one sentence that has all there is to tell
type Build<'a> = &'a dyn Fn(Vec<Value>) -> Value;
/// atoms, their negations (once, twice), alternatives of two and of three, negated and nested alternatives
fn small(atoms: &[Value], not: Option<Build>, or: Build) -> Vec<Value> {
  let mut lits: Vec<Value> = atoms.to_vec();
  if let Some(not) = not {
    for a in atoms { lits.push(not(vec![a.clone()])) }
    for a in &atoms[..2] { lits.push(not(vec![not(vec![a.clone()])])) }
  }
  let mut out = lits.clone();
  for l in &lits { out.push(or(vec![l.clone()])) }
  for a in &lits {
    for b in &lits {
      let both = or(vec![a.clone(), b.clone()]);
      if let Some(not) = not { out.push(not(vec![both.clone()])) }
      out.push(both);
    }
  }
  let core: Vec<&Value> = atoms[..2].iter().chain(lits[atoms.len()..].iter().take(2)).collect();
  for a in &core { for b in &core { for c in &core {
    out.push(or(vec![(*a).clone(), (*b).clone(), (*c).clone()]));
    if a != b { out.push(or(vec![or(vec![(*a).clone(), (*b).clone()]), (*c).clone()])) }
  } } }
  out
}
fn marked(op: &str, name: &str, p: Value) -> Value { node(op, vec![cps(name)], vec![p]) }
fn systematic(g: &mut Gen, math: bool) {
  let leaf = |w: usize| json!({"l": "", "w": w, "k": []});
  let phrase = |l: &str, k: Vec<Value>| json!({"l": l, "w": 0, "k": k});
  let text_of = |t: &str| node("word", vec![cps(t)], vec![]);
  let (any, pos) = (node("word_any", vec![], vec![]), |t: &str| node("pos", vec![cps(t)], vec![]));
  let rule = |kind: &str, name: &str, p: &Value| json!({"kind": kind, "name": cps(name), "p": p});
  let words = |l: &[(&str, &str, usize)]| -> Vec<Value> {
    l.iter().enumerate().map(|(i, (t, tag, n))| json!({"gap": cps(if i == 0 { "" } else { " " }), "t": cps(t), "pos": cps(tag), "node": n})).collect()
  };
  let mut cases: Vec<Value> = Vec::new();
  if !math {
    let ws = words(&[("a", "NN", 0), ("b", "VB", 0), ("é", "DT", 0), ("a", "PRP$", 0), ("b", "NN", 0), (".", ".", 0)]);
    let psg = phrase("S", vec![phrase("NP", vec![leaf(1), phrase("NP", vec![leaf(2), leaf(3)])]), phrase("VP", vec![leaf(4), phrase("NP", vec![leaf(5)])]), leaf(6)]);
    let mut case = |p: Value, extra: Vec<Value>| {
      let mut rules = vec![rule("seq", "main", &p)];
      rules.extend(extra);
      cases.push(json!({"rules": rules, "rule": cps("main"), "pre": cps("Before λ: "), "words": ws, "psg": psg, "tree": [element("p", 0, "")]}));
    };
    let p1 = rule("pos", "p1", &node("pos_or", vec![], vec![pos("NN"), pos(".")]));
    let w1 = rule("word", "w1", &marked("word_marker", "r", text_of("b")));
    // tags
    let tags = small(&[pos("NN"), pos("VB"), node("pos_ref", vec![cps("p1")], vec![])], Some(&|c| node("pos_not", vec![], c)), &|c| node("pos_or", vec![], c));
    for t in tags { case(node("seq_word", vec![], vec![marked("word_marker", "m", node("word_pos", vec![], vec![t, any.clone()]))]), vec![p1.clone()]) }
    // words
    let atoms = [text_of("a"), marked("word_marker", "n", text_of("b")), node("word_ref", vec![cps("w1")], vec![]), node("word_pos", vec![], vec![pos("NN"), text_of("b")])];
    for w in small(&atoms, Some(&|c| node("word_not", vec![], c)), &|c| node("word_or", vec![], c)) {
      case(node("seq_word", vec![], vec![marked("word_marker", "m", w)]), vec![w1.clone()]);
    }
    // sequences: of one, two or three words, or none
    let one = |t: &str| node("seq_word", vec![], vec![text_of(t)]);
    let some = node("seq_word", vec![], vec![any.clone()]);
    let seqs = [
      one("a"), marked("seq_marker", "x", some.clone()), node("seq_seq", vec![], vec![one("a"), marked("seq_marker", "y", one("b"))]),
      node("seq_seq", vec![], vec![some.clone(), some.clone(), some.clone()]), node("seq_seq", vec![], vec![]), node("seq_seq", vec![], vec![one("b"), one("é"), one("a"), one("b")]),
    ];
    for how in ["first", "atleastone", "any", "longest"] {
      for a in &seqs {
        let or = |c: Vec<Value>| node("seq_or", vec![cps(how)], c);
        case(marked("seq_marker", "m", or(vec![a.clone()])), vec![]);
        for b in &seqs {
          case(marked("seq_marker", "m", or(vec![a.clone(), b.clone()])), vec![]);
          // what follows sees where the alternatives ended
          case(node("seq_seq", vec![], vec![or(vec![a.clone(), b.clone()]), marked("seq_marker", "m", one("b"))]), vec![]);
          case(marked("seq_marker", "m", node("seq_seq", vec![], vec![a.clone(), marked("seq_marker", "z", or(vec![b.clone(), one("é")]))])), vec![]);
          for c in &seqs[..3] { case(marked("seq_marker", "m", or(vec![a.clone(), b.clone(), c.clone()])), vec![]) }
        }
      }
    }
    // phrases
    for l in ["NP", "VP", "S"] { for how in ["shortest", "longest"] {
      let ph = |ch: Vec<Value>| node("phrase", vec![cps(l), cps(how)], ch);
      let start = |how: &str, p: &Value| node("starts_with_seq", vec![cps(how)], vec![p.clone()]);
      let end = |p: &Value| node("ends_with_seq", vec![], vec![p.clone()]);
      case(marked("seq_marker", "m", ph(vec![])), vec![]);
      for a in &seqs {
        case(marked("seq_marker", "m", ph(vec![end(a)])), vec![]);
        for c in ["any", "lessorequal"] {
          case(marked("seq_marker", "m", ph(vec![start(c, a)])), vec![]);
          for b in &seqs { case(marked("seq_marker", "m", ph(vec![start(c, a), end(b)])), vec![]) }
        }
      }
    } }
  } else {
    // a formula with rows of up to three children of two sorts, below two levels
    let mut tree = vec![element("p", 0, ""), element("math", 1, ""), element("mrow", 2, "")];
    let texts = ["x", "y", "+", "", "X", "x ", " y"];
    let mut turn = 0;
    for n in 0..=3usize { for shape in 0..(1 << n) {
      tree.push(element(if n % 2 == 0 { "mrow" } else { "msub" }, 3, ""));
      for b in 0..n {
        tree.push(element(if shape >> b & 1 == 0 { "mi" } else { "mo" }, 4, ""));
        let t = texts[turn % texts.len()];
        turn += 1;
        if !t.is_empty() { tree.push(text_node(5, t)) }
      }
    } }
    let ws = words(&[("let", "VB", 0), ("mathformula", "NN", 2)]);
    let psg = phrase("S", vec![leaf(1), leaf(2)]);
    let mut case = |p: Value, extra: Vec<Value>| {
      let mut rules = vec![rule("seq", "main", &node("seq_word", vec![], vec![node("word_math", vec![], vec![p])]))];
      rules.extend(extra);
      cases.push(json!({"rules": rules, "rule": cps("main"), "pre": cps("é. "), "words": ws, "psg": psg, "tree": tree}));
    };
    let below = |how: &str, p: Value| node("math_descendant", vec![cps(how)], vec![p]);
    let named = |n: &str, ch: Vec<Value>| node("math_node", if n.is_empty() { vec![] } else { vec![cps(n)] }, ch);
    let lit = |t: &str| node("mtext_lit", vec![cps(t)], vec![]);
    let t1 = || node("mtext_ref", vec![cps("t1")], vec![]);
    for t in small(&[lit("x"), lit("y "), lit(""), lit("x "), lit(" y"), node("mtext_any", vec![], vec![])], Some(&|c| node("mtext_not", vec![], c)), &|c| node("mtext_or", vec![], c)) {
      case(below("arbitrary", marked("math_marker", "m", named("mi", vec![t1()]))), vec![rule("mtext", "t1", &t)]);
    }
    let x = rule("mtext", "t1", &node("mtext_or", vec![], vec![lit("x"), lit("+")]));
    let rows = |how: &str, l: &[&Value]| node("math_children", vec![cps(how)], l.iter().map(|v| (*v).clone()).collect());
    let kids = [marked("math_marker", "a", named("mi", vec![])), marked("math_marker", "b", named("mo", vec![])), named("", vec![t1()]), node("math_any", vec![], vec![])];
    for how in ["exact", "starts_with", "ends_with", "arbitrary"] { for a in &kids {
      case(below("arbitrary", marked("math_marker", "m", named("", vec![rows(how, &[a])]))), vec![x.clone()]);
      for b in &kids {
        case(below("arbitrary", marked("math_marker", "m", named("mrow", vec![rows(how, &[a, b])]))), vec![x.clone()]);
        case(below("at_least_one", marked("math_marker", "m", named("msub", vec![rows(how, &[a, b])]))), vec![x.clone()]);
        for c in &kids { case(below("arbitrary", marked("math_marker", "m", named("", vec![rows(how, &[a, b, c])]))), vec![x.clone()]) }
      }
    } }
    let h1 = rule("math", "h1", &marked("math_marker", "h", named("", vec![rows("starts_with", &[&kids[1]])])));
    let atoms = [named("mo", vec![]), marked("math_marker", "n", named("", vec![t1()])), node("math_ref", vec![cps("h1")], vec![]), named("mrow", vec![rows("exact", &[&kids[0], &kids[0]])])];
    for p in small(&atoms, None, &|c| node("math_or", vec![], c)) {
      for how in ["first", "at_least_one", "arbitrary"] {
        case(below(how, marked("math_marker", "m", p.clone())), vec![x.clone(), h1.clone()]);
      }
      case(named("", vec![rows("arbitrary", &[&below("first", marked("math_marker", "m", p.clone())), &below("at_least_one", kids[0].clone())])]), vec![x.clone(), h1.clone()]);
    }
  }
  for (i, mut c) in cases.into_iter().enumerate() { c["xml"] = json!(i % 3); g.push(c) }
}
fn gen(g: &mut Gen) {
  let math = prop() == "C07";
  systematic(g, math);
  for _ in 0..g.amount(2500, 25000) {
    let room = *g.pick(&[3, 6, 10]);
    let mut x = G { g, room, marks: 0, math };
    let mut rules = Vec::new();
    let mut rule = |kind: &str, name: &str, p: Value| rules.push(json!({"kind": kind, "name": cps(name), "p": p}));
    rule("seq", "main", x.seq(0, false));
    for i in 1..=3 {
      x.room = 3;
      rule("seq", &format!("s{i}"), x.seq(i, false));
      x.room = 2;
      rule("word", &format!("w{i}"), x.word(i));
      x.room = 3;
      if math { rule("math", &format!("h{i}"), x.math_p(i)); }
    }
    x.room = 2;
    rule("pos", "p1", node("pos_or", vec![], vec![node("pos", vec![cps("NN")], vec![]), node("pos", vec![cps(".")], vec![])]));
    if math { x.room = *x.g.pick(&[2, 5]); rule("mtext", "t1", x.mtext()); x.room = 2; rule("mtext", "t2", x.mtext()); }
    // the formulas
    let mut tree = vec![element("p", 0, "")];
    let mut maths = Vec::new();
    if math {
      for _ in 0..g.range(1, 2) {
        let name = if g.chance(90) { "math" } else { "mrow" };
        let els = [("mi", ""), ("mi", ""), ("mo", ""), ("mrow", ""), ("msub", ""), ("semantics", "")];
        let max = g.range(0, 9);
        let mut sub = random_tree(g, max, name, &els, &|g| g.pick(&["x", "x", "y", "∈", "+", "x ", " y", "X", "\n", "xx"]).to_string());
        for n in sub.iter_mut() { n["d"] = json!(usize_of(&n["d"]) + 1) }
        if g.chance(30) { // a wrapper
          for n in sub[1..].iter_mut() { n["d"] = json!(usize_of(&n["d"]) + 1) }
          sub.insert(1, element("semantics", 2, ""));
        }
        maths.push(tree.len() + 1);
        tree.append(&mut sub);
      }
    }
    let n = if g.chance(3) { g.range(8, 18) } else { g.range(0, 6) };
    let mut words: Vec<Value> = Vec::new();
    for i in 0..n {
      let t = if !maths.is_empty() && g.chance(60) { "mathformula" } else { *g.pick(&WORDS) };
      let is_math = t == "mathformula";
      // a word is set off by blanks
      let gap = if i == 0 { *g.pick(&["", " "]) } else { *g.pick(&[" ", "\u{2003}", "  "]) };
      let tag = *g.pick(&TAGS);
      let at = if is_math { *g.pick(&maths) } else { 0 };
      words.push(json!({"gap": cps(gap), "t": cps(t), "pos": cps(tag), "node": at}));
    }
    let t = if g.chance(2) { json!({"l": "", "w": 1, "k": []}) } else {
      let covered = if n > 0 && g.chance(10) { g.range(1, n) } else { n };
      if g.chance(15) { json!({"l": "S", "w": 0, "k": (1..=n).map(|w| json!({"l": "", "w": w, "k": []})).collect::<Vec<_>>()}) } else { tree_over(g, 0, covered, 0) }
    };
    let pre = *g.pick(&["", "é. ", "Before λ: "]);
    if n > 0 && g.chance(85) {
      let a = (0..n).find(|i| words[*i]["node"] != 0 && g.chance(60)).unwrap_or_else(|| g.below(n));
      let b = g.range(a + 1, n);
      let mut x = G { g, room: 3, marks: 100, math };
      let mut d = D { x: &mut x, words: &words, psg: &t, tree: &tree };
      // a condition on one word that is all about tags, or all about the text of symbols
      let about_tags = d.x.g.chance(12);
      let p = if about_tags {
        d.x.room = 6;
        let (t, m) = (d.x.pos(), d.x.mark());
        node("seq_word", vec![], vec![node("word_marker", m, vec![node("word_pos", vec![], vec![t, node("word_any", vec![], vec![])])])])
      } else if math && d.x.g.chance(70) { node("seq_word", vec![], vec![d.word(a, 0)]) } else { d.seq(a, b, 0) };
      rules[0]["p"] = p;
    }
    let rule = if g.chance(1) { "none" } else { "main" };
    let xml = *g.pick(&[0, 0, 1, 2]);
    g.push(json!({"rules": rules, "rule": cps(rule), "pre": cps(pre), "words": words, "psg": t, "tree": tree, "xml": xml}));
  }
}
