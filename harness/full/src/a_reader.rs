//! Sentences and words of documents, paragraphs and selections, sequential and parallel (C25)
use crate::a_corpus::scratch;
use crate::a_pathwords::sentences;
use crate::a_wordnorm::inline;
use crate::common::*;
use crate::driver::*;
use llamapun::data;
use llamapun::dnm::{DNMParameters, DNMRange};
use llamapun::parallel_data as par;
use llamapun::parallel_data::XPathFilteredIterator;
use senna::pos::POS;
use serde_json::{json, Value};

pub fn area() -> Area { Area { name: "reader", gen, exec } }

fn at(r: &DNMRange) -> Value { json!([r.start, r.end, cps(r.get_plaintext())]) }
/// the sentences of one unit with their words (a sentence can be iterated once)
macro_rules! simple { ($iter:expr, $proper:ident) => {{
  let (mut ranges, mut words) = (Vec::new(), Vec::new());
  for mut sentence in $iter {
    ranges.push(at(&sentence.range));
    let (s, e) = (sentence.range.start, sentence.range.end);
    let mut ws = Vec::new();
    for w in sentence.simple_iter() {
      $proper &= w.pos == POS::NOT_SET && (w.sentence.range.start, w.sentence.range.end) == (s, e);
      ws.push(at(&w.range))
    }
    words.push(ws);
  }
  (ranges, words)
}} }
/// the same with the tagger's words and tags
macro_rules! tagged { ($iter:expr, $proper:ident) => {{
  let (mut tagged, mut tags) = (Vec::new(), Vec::new());
  for mut sentence in $iter {
    let (s, e) = (sentence.range.start, sentence.range.end);
    let (mut ws, mut ts) = (Vec::new(), Vec::new());
    for w in sentence.senna_iter() {
      $proper &= (w.sentence.range.start, w.sentence.range.end) == (s, e);
      ws.push(at(&w.range));
      ts.push(w.pos.to_str());
    }
    tagged.push(ws);
    tags.push(ts);
  }
  (tagged, tags)
}} }
fn seq_unit(text: &Value, simple: &(Vec<Value>, Vec<Vec<Value>>), tagged: &(Vec<Vec<Value>>, Vec<Vec<&str>>)) -> Value {
  json!({"text": text, "sentences": simple.0, "words": simple.1, "tagged": tagged.0, "tags": tagged.1})
}
macro_rules! par_unit { ($text:expr, $iter:expr, $allwords:expr, $alltokens:expr) => {{
  let (mut ranges, mut words, mut tokens) = (Vec::new(), Vec::new(), Vec::new());
  for mut sentence in $iter {
    ranges.push(at(&sentence.range));
    words.push(sentence.word_iter().map(|w| at(&w.range)).collect::<Vec<_>>());
  }
  for mut sentence in $iter { tokens.push(sentence.word_and_punct_iter().map(|w| at(&w.range)).collect::<Vec<_>>()) }
  json!({"text": $text, "sentences": ranges, "words": words, "tokens": tokens, "allwords": $allwords, "alltokens": $alltokens})
}} }
fn parameters(name: &str) -> DNMParameters {
  if name == "raw" { DNMParameters { normalize_white_spaces: false, ..DNMParameters::default() } } else { DNMParameters::llamapun_normalization() }
}
fn exec(input: &Value) -> Value {
  let base = scratch("reader");
  let path = if input["kind"] == "doc" {
    document(&input["tree"]);
    let p = base.join("d.xhtml");
    std::fs::write(&p, to_xml(&input["tree"])).unwrap();
    p
  } else {
    let p = base.join("d.html");
    std::fs::write(&p, "").unwrap();
    p
  };
  let path = path.to_str().unwrap().to_string();
  let poses = POS::generate_str_to_pos_map();
  let tags: Vec<POS> = input["tags"].as_array().unwrap().iter().map(|t| poses[t.as_str().unwrap()]).collect();
  senna::senna::shim_script(Some(tags), None);
  let doc = input["kind"] == "doc";
  let options = senna::senna::SennaParseOptions { pos: input["opts"]["pos"] == true, psg: input["opts"]["psg"] == true };
  senna::senna::shim_options();
  let obs = guarded(|| {
    let (mut seq, mut parallel, mut proper) = (Vec::new(), Vec::new(), true);
    let mut again: Vec<Vec<Value>> = Vec::new();
    {
      let mut corpus = data::Corpus::new(base.to_str().unwrap().to_string());
      corpus.dnm_parameters = parameters(input["whole"].as_str().unwrap());
      corpus.senna_options.set(options);
      // through the walk and by path
      let mut d = corpus.load_doc(path.clone()).unwrap();
      { let n = d.sentence_iter().count(); proper &= doc || n == 0 }
      if doc {
        let text = cps(&d.dnm.as_ref().unwrap().plaintext);
        let simple = simple!(d.sentence_iter(), proper);
        seq.push(seq_unit(&text, &simple, &tagged!(d.sentence_iter(), proper)));
      }
      again.push(d.sentence_iter().map(|s| at(&s.range)).collect());
      let mut read = Vec::new();
      for mut p in d.paragraph_iter() { read.push((cps(&p.dnm.plaintext), simple!(p.iter(), proper))) }
      for (i, mut p) in d.paragraph_iter().enumerate() { seq.push(seq_unit(&read[i].0, &read[i].1, &tagged!(p.iter(), proper))) }
    }
    {
      let mut corpus = par::Corpus::new(base.to_str().unwrap().to_string());
      corpus.dnm_parameters = parameters(input["whole"].as_str().unwrap());
      let mut d = par::Document::new(path.clone(), &corpus).unwrap();
      { let n = d.sentence_iter().count(); proper &= doc || n == 0 }
      if doc {
        let text = cps(&d.dnm.as_ref().unwrap().plaintext);
        parallel.push(par_unit!(text, d.sentence_iter(), Vec::<Value>::new(), Vec::<Value>::new()));
      }
      again.push(d.sentence_iter().map(|s| at(&s.range)).collect());
      let filter = |n: &libxml::readonly::RoNode| n.is_element_node() && n.get_name() == "p";
      let open = |which: usize| match which { 0 => d.paragraph_iter(), 1 => d.heading_iter(), _ => d.filter_iter(&filter) };
      for which in 0..3 {
        let (mut a, mut b, mut c, mut e) = (open(which), open(which), open(which), open(which));
        while let Some(mut one) = a.next() {
          let (mut other, mut third, mut fourth) = (b.next().unwrap(), c.next().unwrap(), e.next().unwrap());
          let text = cps(&one.dnm.plaintext);
          let words: Vec<Value> = third.word_iter().map(|w| at(&w.range)).collect();
          let tokens: Vec<Value> = fourth.word_and_punct_iter().map(|w| at(&w.range)).collect();
          let mut turn = [one.iter(), other.iter()].into_iter();
          parallel.push(par_unit!(text, turn.next().unwrap(), words, tokens));
        }
      }
    }
    let mut opts: Vec<Value> = senna::senna::shim_options().iter().map(|o| json!({"pos": o.pos, "psg": o.psg})).collect();
    opts.dedup();
    json!({"status": "ok", "opts": opts, "seq": seq, "par": parallel, "again": again, "proper": proper})
  });
  std::fs::remove_dir_all(&base).unwrap();
  obs
}

fn odd(g: &mut Gen) -> String { if g.chance(70) { sentences(g) } else { format!("{}{}", random_text(g, 24), g.pick(&[" ", "x", "."])) } }
fn gen(g: &mut Gen) {
  const TAGS: [&str; 9] = ["DT", "NN", "NNS", "VBZ", "PRP$", ",", ".", "NOT_SET", "CD"];
  for _ in 0..g.amount(1200, 12000) {
    let tags: Vec<&str> = (0..g.below(6)).map(|_| *g.pick(&TAGS[..7])).collect();
    let whole = *g.pick(&["raw", "llamapun", "llamapun"]);
    let opts = json!({"pos": g.chance(50), "psg": g.chance(50)});
    if g.chance(2) { g.push(json!({"kind": "rootless", "tree": [], "whole": whole, "tags": tags, "opts": opts})); continue }
    let mut tree = vec![element("html", 0, "")];
    let n = if g.chance(1) { g.range(8, 14) } else { g.range(1, 3) };
    for _ in 0..n {
      let (n, c) = *g.pick(&[("div", "ltx_para"), ("div", "ltx_para"), ("p", ""), ("h2", "ltx_title"), ("h1", "ltx_title ltx_title_document"), ("section", "")]);
      tree.push(element(n, 1, c));
      let (pieces, inner) = (g.range(0, 3), g.chance(20));
      inline(g, &mut tree, 2, pieces, &odd);
      if g.below(500) == 0 {
        // one very long sentence
        let length = g.range(66, 80);
        let long: String = (0..length).map(|_| *g.pick(&["a ", "of ", "é ", "we ", "x, "])).collect();
        tree.push(element("em", 2, ""));
        tree.push(text_node(3, &long));
      }
      if inner { tree.push(element("p", 2, "")); inline(g, &mut tree, 3, 1, &odd) }
    }
    g.push(json!({"kind": "doc", "tree": tree, "whole": whole, "tags": tags, "opts": opts}));
  }
}
