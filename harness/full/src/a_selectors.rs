//! Node selection in documents (C18)
use crate::common::*;
use crate::driver::*;
use libxml::readonly::RoNode;
use llamapun::{data, parallel_data};
use serde_json::{json, Value};

pub fn area() -> Area { Area { name: "selectors", gen, exec } }

thread_local! {
  static SEQ: data::Corpus = data::Corpus::default();
  static PAR: parallel_data::Corpus = parallel_data::Corpus::default();
}
fn exec(input: &Value) -> Value { SEQ.with(|s| PAR.with(|p| select(input, s, p))) }

fn select(input: &Value, sc: &data::Corpus, pc: &parallel_data::Corpus) -> Value {
  let doc = parallel_data::Document { dom: document(&input["tree"]), path: String::new(), corpus: pc, dnm: None };
  let mut seq = data::Document { dom: document(&input["tree"]), path: String::new(), corpus: sc, dnm: None };
  let nodes: Vec<RoNode> = all_nodes(&doc.dom).into_iter().map(|x| x.0).collect();
  let seq_nodes: Vec<RoNode> = all_nodes(&seq.dom).into_iter().map(|x| x.0).collect();
  let number = |n: &RoNode| nodes.iter().position(|m| m == n).map(|i| i + 1).unwrap_or(0);
  let list = |v: Vec<RoNode>| v.iter().map(number).collect::<Vec<_>>();
  let seq_list = |v: Vec<RoNode>| v.iter().map(|n| seq_nodes.iter().position(|m| m == n).map(|i| i + 1).unwrap_or(0)).collect::<Vec<_>>();
  guarded(|| {
    let roots = |it: parallel_data::RoNodeIterator| it.map(|i| number(&i.dnm.root_node)).collect::<Vec<_>>();
    let filtered: Vec<Vec<usize>> = input["filters"].as_array().unwrap().iter().map(|f| {
      let calls = std::cell::RefCell::new(Vec::new());
      let name = f.as_str().unwrap();
      let out = roots(doc.filter_iter(&|n: &RoNode| {
        calls.borrow_mut().push(number(n));
        match name {
          "all" => true,
          "texts" => n.is_text_node(),
          "p" => n.is_element_node() && n.get_name() == "p",
          "comments" => n.get_type() == Some(libxml::tree::NodeType::CommentNode),
          _ => false,
        }
      }));
      // every node was asked about, once, in order
      if calls.into_inner() != (1..=nodes.len()).collect::<Vec<_>>() { vec![0] } else { out }
    }).collect();
    let xs: Vec<&str> = input["xpaths"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
    let seq_paragraphs = seq_list(data::Document::paragraph_nodes(&seq.dom));
    let seq_math = seq_list(seq.get_math_nodes());
    let seq_refs = seq_list(seq.get_ref_nodes());
    let seq_iter = seq_list(seq.paragraph_iter().map(|p| p.dnm.root_node).collect());
    json!({
      "status": "ok",
      "paragraphs": list(doc.get_paragraph_nodes()), "headings": list(doc.get_heading_nodes()), "math": list(doc.get_math_nodes()),
      "refs": list(doc.get_ref_nodes()), "extended": roots(doc.extended_paragraph_iter()),
      "iter": {"paragraphs": roots(doc.paragraph_iter()), "headings": roots(doc.heading_iter())},
      "seq": {"paragraphs": seq_paragraphs, "iter": seq_iter, "math": seq_math, "refs": seq_refs},
      "filtered": filtered,
      "xpaths": xs.iter().map(|x| list(doc.get_xpath_nodes(x))).collect::<Vec<_>>(),
      "xiter": xs.iter().map(|x| roots(doc.xpath_selector_iter(x))).collect::<Vec<_>>(),
      "first": xs.iter().map(|x| doc.get_xpath_node(x).iter().map(number).collect::<Vec<_>>()).collect::<Vec<_>>(),
    })
  })
}

pub const SELECTABLE: [(&str, &str); 44] = [
  ("div", "ltx_para"), ("div", "ltx_para"), ("div", "ltx_para ltx_noindent"), ("div", "x ltx_para"), ("div", "ltx_parallel"), ("p", "ltx_para"), ("section", "ltx_para"),
  ("p", "ltx_p"), ("p", "ltx_p"), ("p", ""), ("span", "ltx_ERROR undefined"), ("span", "ltx_ERROR"), ("span", "x ltx_ERRORs"), ("span", "ltx_error"), ("div", "ltx_ERROR"),
  ("div", "ltx_abstract"), ("div", "ltx_abstract x"), ("section", "ltx_abstract"), ("div", "ltx_keywords"), ("div", "ltx_keywords"), ("div", "ltx_acknowledgement"),
  ("div", "ltx_acknowledgements"), ("figcaption", "ltx_caption"), ("figcaption", "ltx_caption ltx_centering"), ("div", "ltx_caption"), ("figcaption", ""), ("h1", "ltx_title ltx_title_document"),
  ("h2", "ltx_title ltx_title_section"), ("h6", "ltx_title ltx_title_theorem"), ("h3", "ltx_title_document"), ("h7", "ltx_title"), ("h", "ltx_title"), ("div", "ltx_title"), ("h5", "ltx_tit"),
  ("math", "ltx_Math"), ("math", ""), ("maths", ""), ("a", "ltx_ref"), ("span", "ltx_ref ltx_nolink"), ("a", "ltx_nolink ltx_ref"), ("a", "ltx_ref_tag"), ("em", "ltx_ref"), ("a", " ltx_ref"),
  ("section", "ltx_section"),
];
fn gen(g: &mut Gen) {
  const XPATHS: [&str; 15] = [
    "//*[local-name()='p']", "//text()", "//comment()", "//*", "/*", "//*[@id]", "//*[contains(@class,'ltx_title')]/*", "//*[", "", "count(//*)", "'text'", "//nosuch:p", "1 = 1", "//nosuch",
    "nofunction()",
  ];
  for _ in 0..g.amount(1500, 20000) {
    let mut tree = random_tree(g, 22, "html", &SELECTABLE, &|g: &mut Gen| (*g.pick(&["text", " ", "\n"])).to_string());
    // far below the root
    if g.chance(2) {
      let down = g.range(20, 45);
      for n in tree[1..].iter_mut() { n["d"] = json!(usize_of(&n["d"]) + down) }
      for i in (1..=down).rev() { let (n, c) = if g.chance(85) { ("div", "") } else { *g.pick(&SELECTABLE) }; tree.insert(1, element(n, i, c)) }
    }
    let mut ids = 0;
    for n in tree.iter_mut() {
      if n["k"] != "e" { continue }
      // classes and names that are nearly those that count
      if g.chance(8) {
        let c = text(&n["c"]);
        let len = c.chars().count();
        let near: String = match g.below(6) {
          0 => c.chars().take(len.saturating_sub(g.range(1, 9))).collect(),
          1 => c.chars().skip(g.range(1, 5)).collect(),
          2 => format!("{c}{}", g.pick(&["s", "_x", " x", "1"])),
          3 => format!("{}{c}", g.pick(&["x", "x ", "_"])),
          4 => c.to_uppercase(),
          _ => c.replacen('_', "-", 1),
        };
        n["c"] = cps(near.trim());
      }
      if g.chance(20) { ids += 1; n["id"] = cps(&format!("S{ids}")) }
      if g.chance(10) { n["ns"] = json!(*g.pick(&["svg", "m", "-"])) }
    }
    let xpaths: Vec<&str> = (0..3).map(|_| *g.pick(&XPATHS)).collect();
    let filters: Vec<&str> = (0..2).map(|_| *g.pick(&["all", "texts", "p", "comments", "none"])).collect();
    g.push(json!({"tree": tree, "filters": filters, "xpaths": xpaths}));
  }
}
