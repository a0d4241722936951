//! Patterns in the normal form of spec/PatternLoad.tla: {op, args, ch}
use crate::driver::*;
use llamapun::patterns::hooks::*;
use senna::phrase::Phrase;
use senna::pos::POS;
use serde_json::{json, Value};
use std::collections::HashMap;

pub fn node(op: &str, args: Vec<Value>, ch: Vec<Value>) -> Value { json!({"op": op, "args": args, "ch": ch}) }

// ---- from the library's patterns
/// the names that lead to a rule
fn name_at(map: &HashMap<String, usize>, pos: usize) -> Value {
  let names: Vec<&String> = map.iter().filter(|(_, p)| **p == pos).map(|(n, _)| n).collect();
  if names.len() == 1 { cps(names[0]) } else { cps(&format!("?{}", names.len())) }
}
fn marker(m: &PatternMarker) -> Vec<Value> { std::iter::once(cps(&m.name)).chain(m.tags.iter().map(|t| cps(t))).collect() }
pub fn dump_math(pf: &PatternFile, p: &MathPattern) -> Value {
  let all = |ps: &[MathPattern]| ps.iter().map(|p| dump_math(pf, p)).collect::<Vec<_>>();
  match p {
    MathPattern::AnyMath => node("math_any", vec![], vec![]),
    MathPattern::MathRef(r) => node("math_ref", vec![name_at(&pf.math_rule_names, *r)], vec![]),
    MathPattern::Marked(p, m) => node("math_marker", marker(m), vec![dump_math(pf, p)]),
    MathPattern::MathOr(ps) => node("math_or", vec![], all(ps)),
    MathPattern::MathDescendant(p, t) => node("math_descendant", vec![cps(match t {
      MathDescendantMatchType::First => "first",
      MathDescendantMatchType::AtLeastOne => "at_least_one",
      MathDescendantMatchType::Arbitrary => "arbitrary",
    })], vec![dump_math(pf, p)]),
    MathPattern::MathNode(name, text, children) => {
      let mut ch = Vec::new();
      if let Some(t) = text { ch.push(node("mtext_ref", vec![name_at(&pf.mtext_rule_names, *t)], vec![])) }
      if let Some((ps, t)) = children {
        ch.push(node("math_children", vec![cps(match t {
          MathChildrenMatchType::StartsWith => "starts_with",
          MathChildrenMatchType::MatchesExactly => "exact",
          MathChildrenMatchType::EndsWith => "ends_with",
          MathChildrenMatchType::Arbitrary => "arbitrary",
        })], all(ps)))
      }
      node("math_node", name.iter().map(|n| cps(n)).collect(), ch)
    },
  }
}
pub fn dump_mtext(pf: &PatternFile, p: &MTextPattern) -> Value {
  match p {
    MTextPattern::AnyMText => node("mtext_any", vec![], vec![]),
    MTextPattern::MTextOr(ps) => node("mtext_or", vec![], ps.iter().map(|p| dump_mtext(pf, p)).collect()),
    MTextPattern::MTextLit(s) => node("mtext_lit", vec![cps(s)], vec![]),
    MTextPattern::MTextNot(p) => node("mtext_not", vec![], vec![dump_mtext(pf, p)]),
    MTextPattern::MTextRef(r) => node("mtext_ref", vec![name_at(&pf.mtext_rule_names, *r)], vec![]),
  }
}
pub fn dump_pos(pf: &PatternFile, p: &PosPattern) -> Value {
  match p {
    PosPattern::Pos(p) => node("pos", vec![cps(p.to_str())], vec![]),
    PosPattern::PosNot(p) => node("pos_not", vec![], vec![dump_pos(pf, p)]),
    PosPattern::PosOr(ps) => node("pos_or", vec![], ps.iter().map(|p| dump_pos(pf, p)).collect()),
    PosPattern::PosRef(r) => node("pos_ref", vec![name_at(&pf.pos_rule_names, *r)], vec![]),
  }
}
pub fn dump_word(pf: &PatternFile, p: &WordPattern) -> Value {
  match p {
    WordPattern::WordRef(r) => node("word_ref", vec![name_at(&pf.word_rule_names, *r)], vec![]),
    WordPattern::WordOr(ps) => node("word_or", vec![], ps.iter().map(|p| dump_word(pf, p)).collect()),
    WordPattern::Word(s) => node("word", vec![cps(s)], vec![]),
    WordPattern::WordPos(t, w) => node("word_pos", vec![], vec![dump_pos(pf, t), dump_word(pf, w)]),
    WordPattern::MathWord(m) => node("word_math", vec![], vec![dump_math(pf, m)]),
    WordPattern::AnyWord => node("word_any", vec![], vec![]),
    WordPattern::WordNot(p) => node("word_not", vec![], vec![dump_word(pf, p)]),
    WordPattern::Marked(p, m) => node("word_marker", marker(m), vec![dump_word(pf, p)]),
  }
}
pub fn dump_seq(pf: &PatternFile, p: &SequencePattern) -> Value {
  match p {
    SequencePattern::SeqRef(r) => node("seq_ref", vec![name_at(&pf.sequence_rule_names, *r)], vec![]),
    SequencePattern::SeqFromWord(w) => node("seq_word", vec![], vec![dump_word(pf, w)]),
    SequencePattern::SeqOfSeq(ps) => node("seq_seq", vec![], ps.iter().map(|p| dump_seq(pf, p)).collect()),
    SequencePattern::Phrase(tag, t, start, end) => {
      let mut ch = Vec::new();
      if let Some((p, c)) = start {
        let c = match c { SequenceContainment::LessOrEqual => "lessorequal", SequenceContainment::Any => "any" };
        ch.push(node("starts_with_seq", vec![cps(c)], vec![dump_seq(pf, p)]));
      }
      if let Some(p) = end { ch.push(node("ends_with_seq", vec![], vec![dump_seq(pf, p)])) }
      let t = match t { PhraseMatchType::Shortest => "shortest", PhraseMatchType::Longest => "longest" };
      node("phrase", vec![cps(tag.to_str()), cps(t)], ch)
    },
    SequencePattern::Marked(p, m) => node("seq_marker", marker(m), vec![dump_seq(pf, p)]),
    SequencePattern::SeqOr(ps, t) => node("seq_or", vec![cps(match t {
      SequenceMatchType::First => "first",
      SequenceMatchType::AtLeastOne => "atleastone",
      SequenceMatchType::Any => "any",
      SequenceMatchType::Longest => "longest",
    })], ps.iter().map(|p| dump_seq(pf, p)).collect()),
  }
}

// ---- and back
type Names = HashMap<String, usize>;
pub struct NameMaps { pub word: Names, pub pos: Names, pub math: Names, pub mtext: Names, pub seq: Names }
fn arg(p: &Value, i: usize) -> String { text(&p["args"][i]) }
fn chs(p: &Value) -> &Vec<Value> { p["ch"].as_array().unwrap() }
fn find(m: &Names, n: &str) -> usize { *m.get(n).unwrap_or_else(|| crate::common::tool_error(&format!("no rule {n}"))) }
fn marker_of(p: &Value) -> PatternMarker {
  let v = texts(&p["args"]);
  PatternMarker { name: v[0].clone(), tags: v[1..].to_vec() }
}
pub fn build_math(n: &NameMaps, p: &Value) -> MathPattern {
  match p["op"].as_str().unwrap() {
    "math_any" => MathPattern::AnyMath,
    "math_ref" => MathPattern::MathRef(find(&n.math, &arg(p, 0))),
    "math_marker" => MathPattern::Marked(Box::new(build_math(n, &p["ch"][0])), marker_of(p)),
    "math_or" => MathPattern::MathOr(chs(p).iter().map(|p| build_math(n, p)).collect()),
    "math_descendant" => MathPattern::MathDescendant(Box::new(build_math(n, &p["ch"][0])), match arg(p, 0).as_str() {
      "first" => MathDescendantMatchType::First,
      "at_least_one" => MathDescendantMatchType::AtLeastOne,
      _ => MathDescendantMatchType::Arbitrary,
    }),
    _ => {
      let (mut t, mut c) = (None, None);
      for p in chs(p) {
        if p["op"] == "mtext_ref" { t = Some(find(&n.mtext, &arg(p, 0))) } else {
          c = Some((chs(p).iter().map(|p| build_math(n, p)).collect(), match arg(p, 0).as_str() {
            "starts_with" => MathChildrenMatchType::StartsWith,
            "exact" => MathChildrenMatchType::MatchesExactly,
            "ends_with" => MathChildrenMatchType::EndsWith,
            _ => MathChildrenMatchType::Arbitrary,
          }))
        }
      }
      MathPattern::MathNode(texts(&p["args"]).first().cloned(), t, c)
    },
  }
}
pub fn build_mtext(n: &NameMaps, p: &Value) -> MTextPattern {
  match p["op"].as_str().unwrap() {
    "mtext_any" => MTextPattern::AnyMText,
    "mtext_or" => MTextPattern::MTextOr(chs(p).iter().map(|p| build_mtext(n, p)).collect()),
    "mtext_lit" => MTextPattern::MTextLit(arg(p, 0)),
    "mtext_not" => MTextPattern::MTextNot(Box::new(build_mtext(n, &p["ch"][0]))),
    _ => MTextPattern::MTextRef(find(&n.mtext, &arg(p, 0))),
  }
}
pub fn pos_of(tag: &str) -> POS { POS::generate_str_to_pos_map().get(tag).copied().unwrap_or(POS::NOT_SET) }
pub fn build_pos(n: &NameMaps, p: &Value) -> PosPattern {
  match p["op"].as_str().unwrap() {
    "pos" => PosPattern::Pos(pos_of(&arg(p, 0))),
    "pos_not" => PosPattern::PosNot(Box::new(build_pos(n, &p["ch"][0]))),
    "pos_or" => PosPattern::PosOr(chs(p).iter().map(|p| build_pos(n, p)).collect()),
    _ => PosPattern::PosRef(find(&n.pos, &arg(p, 0))),
  }
}
pub fn build_word(n: &NameMaps, p: &Value) -> WordPattern {
  match p["op"].as_str().unwrap() {
    "word_ref" => WordPattern::WordRef(find(&n.word, &arg(p, 0))),
    "word_or" => WordPattern::WordOr(chs(p).iter().map(|p| build_word(n, p)).collect()),
    "word" => WordPattern::Word(arg(p, 0)),
    "word_pos" => WordPattern::WordPos(build_pos(n, &p["ch"][0]), Box::new(build_word(n, &p["ch"][1]))),
    "word_math" => WordPattern::MathWord(build_math(n, &p["ch"][0])),
    "word_any" => WordPattern::AnyWord,
    "word_not" => WordPattern::WordNot(Box::new(build_word(n, &p["ch"][0]))),
    _ => WordPattern::Marked(Box::new(build_word(n, &p["ch"][0])), marker_of(p)),
  }
}
pub fn phrase_of(tag: &str) -> Phrase { Phrase::generate_str_to_phrase_map()[tag] }
pub fn build_seq(n: &NameMaps, p: &Value) -> SequencePattern {
  match p["op"].as_str().unwrap() {
    "seq_ref" => SequencePattern::SeqRef(find(&n.seq, &arg(p, 0))),
    "seq_word" => SequencePattern::SeqFromWord(build_word(n, &p["ch"][0])),
    "seq_seq" => SequencePattern::SeqOfSeq(chs(p).iter().map(|p| build_seq(n, p)).collect()),
    "seq_marker" => SequencePattern::Marked(Box::new(build_seq(n, &p["ch"][0])), marker_of(p)),
    "seq_or" => SequencePattern::SeqOr(chs(p).iter().map(|p| build_seq(n, p)).collect(), match arg(p, 0).as_str() {
      "first" => SequenceMatchType::First,
      "atleastone" => SequenceMatchType::AtLeastOne,
      "any" => SequenceMatchType::Any,
      _ => SequenceMatchType::Longest,
    }),
    _ => {
      let (mut s, mut e) = (None, None);
      for c in chs(p) {
        let inner = Box::new(build_seq(n, &c["ch"][0]));
        if c["op"] == "starts_with_seq" {
          s = Some((inner, if arg(c, 0) == "any" { SequenceContainment::Any } else { SequenceContainment::LessOrEqual }));
        } else { e = Some(inner) }
      }
      SequencePattern::Phrase(phrase_of(&arg(p, 0)), if arg(p, 1) == "shortest" { PhraseMatchType::Shortest } else { PhraseMatchType::Longest }, s, e)
    },
  }
}
/// the rules {kind, name, p} as the library's own pattern file
pub fn build_file(rules: &Value) -> PatternFile {
  // a description can only be had from a loaded file
  thread_local! { static META: MetaDescription = {
    let path = std::path::Path::new(&std::env::var("VP_SCRATCH").unwrap_or_else(|_| ".".into())).join(format!("empty-patterns{}.xml", crate::driver::slot()));
    std::fs::write(&path, "<pattern_file/>").unwrap();
    PatternFile::load(path.to_str().unwrap()).unwrap_or_else(|e| crate::common::tool_error(&e)).description
  } }
  let description = META.with(|m| m.clone());
  let mut n = NameMaps { word: Names::new(), pos: Names::new(), math: Names::new(), mtext: Names::new(), seq: Names::new() };
  let rules = rules.as_array().unwrap();
  for r in rules {
    let m = match r["kind"].as_str().unwrap() { "word" => &mut n.word, "pos" => &mut n.pos, "math" => &mut n.math, "mtext" => &mut n.mtext, _ => &mut n.seq };
    let at = m.len();
    if m.insert(text(&r["name"]), at).is_some() { crate::common::tool_error("rule given twice") }
  }
  let d = || description.clone();
  let (mut word_rules, mut pos_rules, mut math_rules, mut mtext_rules, mut sequence_rules) = (vec![], vec![], vec![], vec![], vec![]);
  for r in rules {
    match r["kind"].as_str().unwrap() {
      "word" => word_rules.push(WordRule { description: d(), pattern: build_word(&n, &r["p"]) }),
      "pos" => pos_rules.push(PosRule { description: d(), pattern: build_pos(&n, &r["p"]) }),
      "math" => math_rules.push(MathRule { description: d(), pattern: build_math(&n, &r["p"]) }),
      "mtext" => mtext_rules.push(MTextRule { description: d(), pattern: build_mtext(&n, &r["p"]) }),
      _ => sequence_rules.push(SequenceRule { description: d(), pattern: build_seq(&n, &r["p"]) }),
    }
  }
  PatternFile {
    description: d(), word_rules, pos_rules, math_rules, mtext_rules, sequence_rules,
    word_rule_names: n.word, pos_rule_names: n.pos, math_rule_names: n.math, mtext_rule_names: n.mtext, sequence_rule_names: n.seq,
  }
}

// ---- the same rules as a file
/// the pattern `p` as XML; None where a file cannot say it.  `short`: leave out what is the default
fn xml(p: &Value, short: bool, out: &mut String) -> Option<()> {
  let op = p["op"].as_str().unwrap();
  let args: Vec<String> = p["args"].as_array().unwrap().iter().map(text).collect();
  if args.iter().any(|a| a.trim() != a && op != "mtext_lit") { return None }
  let mut attrs: Vec<(&str, String)> = vec![];
  let mut body = String::new();
  match op {
    "pos" => attrs.push(("tag", args[0].clone())),
    "pos_ref" | "mtext_ref" | "math_ref" | "word_ref" | "seq_ref" => attrs.push(("ref", args[0].clone())),
    "mtext_lit" => attrs.push(("str", args[0].clone())),
    "math_node" => if let Some(n) = args.first() { attrs.push(("name", n.clone())) },
    "math_children" | "math_descendant" => attrs.push(("match_type", args[0].clone())),
    "seq_or" => if !(short && args[0] == "first") { attrs.push(("match_type", args[0].clone())) },
    "starts_with_seq" => if !(short && args[0] == "any") { attrs.push(("containment", args[0].clone())) },
    "word" => { if args[0].is_empty() { return None } body.push_str(&crate::common::escape_text(&args[0])) },
    "phrase" => {
      attrs.push(("tag", args[0].clone()));
      if !(short && args[1] == "longest") { body.push_str(&format!("<match_type>{}</match_type>", args[1])) }
    },
    "math_marker" | "word_marker" | "seq_marker" => {
      attrs.push(("name", args[0].clone()));
      if args[1..].iter().any(|t| t.is_empty() || t.contains(',')) { return None }
      if args.len() > 1 { attrs.push(("tags", args[1..].join(if short { " , " } else { "," }))) }
    },
    _ => {},
  }
  for (i, c) in chs(p).iter().enumerate() {
    if op == "word_pos" && i == 0 { body.push_str("<pos>"); xml(c, short, &mut body)?; body.push_str("</pos>") } else { xml(c, short, &mut body)? }
  }
  out.push_str(&format!("<{op}"));
  for (k, v) in attrs { out.push_str(&format!(" {k}=\"{}\"", crate::common::escape(&v))) }
  out.push_str(&if body.is_empty() { "/>".to_string() } else { format!(">{body}</{op}>") });
  Some(())
}
/// the rules as the library loads them from a file; None where a file cannot say them
pub fn load_file(rules: &Value, short: bool) -> Option<PatternFile> {
  let mut out = String::from("<pattern_file>");
  for r in rules.as_array().unwrap() {
    let (kind, name) = (r["kind"].as_str().unwrap(), text(&r["name"]));
    out.push_str(&format!("<{kind}_rule name=\"{}\">", crate::common::escape(&name)));
    xml(&r["p"], short, &mut out)?;
    out.push_str(&format!("</{kind}_rule>"));
  }
  out.push_str("</pattern_file>");
  let path = std::path::Path::new(&std::env::var("VP_SCRATCH").unwrap_or_else(|_| ".".into())).join(format!("rules{}.xml", crate::driver::slot()));
  std::fs::write(&path, &out).unwrap();
  Some(PatternFile::load(path.to_str().unwrap()).unwrap_or_else(|e| panic!("{e} loading {out}")))
}
