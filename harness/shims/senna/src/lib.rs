//! Stand-in for the `rust-senna` bindings (a wrapped C tagger that is not
//! available offline).  Same types and same conventions (offsets are *byte*
//! offsets into the parsed text); tokenization, tags and the phrase structure
//! tree are simple, deterministic and can be scripted by the caller.
pub mod pos {
  use std::collections::HashMap;
  macro_rules! poses { ($($v:ident => $s:expr),* $(,)?) => {
    #[allow(non_camel_case_types)]
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub enum POS { $($v),*, NOT_SET }
    impl POS {
      pub fn to_str(&self) -> &'static str { match *self { $(POS::$v => $s),*, POS::NOT_SET => "NOT_SET" } }
      pub fn generate_str_to_pos_map() -> HashMap<&'static str, POS> {
        let mut m = HashMap::new(); $(m.insert($s, POS::$v);)* m
      }
    }
  } }
  poses! { CC => "CC", CD => "CD", DT => "DT", EX => "EX", FW => "FW", IN => "IN", JJ => "JJ",
    JJR => "JJR", JJS => "JJS", LS => "LS", MD => "MD", NN => "NN", NNS => "NNS", NNP => "NNP",
    NNPS => "NNPS", PDT => "PDT", POS => "POS", PRP => "PRP", PRPS => "PRP$", RB => "RB",
    RBR => "RBR", RBS => "RBS", RP => "RP", SYM => "SYM", TO => "TO", UH => "UH", VB => "VB",
    VBD => "VBD", VBG => "VBG", VBN => "VBN", VBP => "VBP", VBZ => "VBZ", WDT => "WDT",
    WP => "WP", WPS => "WP$", WRB => "WRB", COMMA => ",", PERIOD => "." }
}
pub mod phrase {
  use std::collections::HashMap;
  macro_rules! phrases { ($($v:ident),* $(,)?) => {
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub enum Phrase { $($v),* }
    impl Phrase {
      pub fn to_str(&self) -> &'static str { match *self { $(Phrase::$v => stringify!($v)),* } }
      pub fn generate_str_to_phrase_map() -> HashMap<&'static str, Phrase> {
        let mut m = HashMap::new(); $(m.insert(stringify!($v), Phrase::$v);)* m
      }
    }
  } }
  phrases! { S, SBAR, SBARQ, SINV, SQ, ADJP, ADVP, CONJP, FRAG, INTJ, LST, NAC, NP, NX, PP, PRN, PRT, QP, RRC, UCP, VP, WHADJP, WHADVP, WHNP, WHPP, X }
}
pub mod sennapath { pub const SENNA_PATH: &str = "/nonexistent/senna"; }
pub mod sentence {
  use crate::{phrase::Phrase, pos::POS};
  #[derive(Clone)]
  pub struct Word<'t> { pub(crate) s: &'t str, pub(crate) pos: POS, pub(crate) start: usize, pub(crate) end: usize, pub(crate) index: usize }
  impl<'t> Word<'t> {
    pub fn get_string(&self) -> &'t str { self.s }
    pub fn get_pos(&self) -> POS { self.pos }
    pub fn get_offset_start(&self) -> usize { self.start }
    pub fn get_offset_end(&self) -> usize { self.end }
    pub fn get_index(&self) -> usize { self.index }
  }
  #[derive(Clone)]
  pub struct PSGContent { pub(crate) label: Phrase, pub(crate) children: Vec<PSGNode> }
  impl PSGContent {
    pub fn get_children(&self) -> &Vec<PSGNode> { &self.children }
    pub fn get_label(&self) -> Phrase { self.label }
  }
  #[derive(Clone)]
  pub enum PSGNode { Leaf(usize), Parent(Box<PSGContent>) }
  impl PSGNode {
    pub fn parent(label: Phrase, children: Vec<PSGNode>) -> PSGNode { PSGNode::Parent(Box::new(PSGContent { label, children })) }
  }
  #[derive(Clone)]
  pub struct Sentence<'t> { pub(crate) text: &'t str, pub(crate) words: Vec<Word<'t>>, pub(crate) psg: Option<PSGNode> }
  impl<'t> Sentence<'t> {
    pub fn get_string(&self) -> &'t str { self.text }
    pub fn get_words(&self) -> &[Word<'t>] { &self.words }
    pub fn get_psgroot(&self) -> Option<&PSGNode> { self.psg.as_ref() }
  }
}
pub mod senna {
  use crate::{phrase::Phrase, pos::POS, sentence::*};
  use std::cell::RefCell;
  #[derive(Clone, Copy, Debug, Default)]
  pub struct SennaParseOptions { pub pos: bool, pub psg: bool }
  pub struct Senna { _path: String }
  thread_local! {
    static TAGS: RefCell<Option<Vec<POS>>> = const { RefCell::new(None) };
    static TREE: RefCell<Option<PSGNode>> = const { RefCell::new(None) };
  }
  thread_local! { static SEEN: RefCell<Vec<SennaParseOptions>> = const { RefCell::new(Vec::new()) }; }
  /// the options of the parses on this thread since the last call
  pub fn shim_options() -> Vec<SennaParseOptions> { SEEN.with(|s| std::mem::take(&mut *s.borrow_mut())) }
  /// scripts the tags and the tree of the next parses on this thread
  pub fn shim_script(tags: Option<Vec<POS>>, tree: Option<PSGNode>) {
    TAGS.with(|t| *t.borrow_mut() = tags);
    TREE.with(|t| *t.borrow_mut() = tree);
  }
  impl Senna {
    pub fn new(path: String) -> Senna { Senna { _path: path } }
    pub fn parse<'t>(&mut self, text: &'t str, opts: SennaParseOptions) -> Sentence<'t> {
      SEEN.with(|s| { let mut s = s.borrow_mut(); if s.len() < 10_000 { s.push(opts) } });
      let mut words: Vec<Word<'t>> = Vec::new();
      let mut add = |s: usize, e: usize| {
        let index = words.len();
        words.push(Word { s: &text[s..e], pos: POS::NN, start: s, end: e, index });
      };
      let mut cur: Option<usize> = None;
      for (i, c) in text.char_indices() {
        let wordy = !c.is_whitespace() && !matches!(c, '.' | ',' | ';' | ':' | '!' | '?');
        if wordy {
          if cur.is_none() { cur = Some(i); }
        } else {
          if let Some(s) = cur.take() { add(s, i); }
          if !c.is_whitespace() { add(i, i + c.len_utf8()); }
        }
      }
      if let Some(s) = cur { add(s, text.len()); }
      TAGS.with(|t| if let Some(tags) = t.borrow().as_ref() {
        for (w, p) in words.iter_mut().zip(tags) { w.pos = *p; }
      });
      let n = words.len();
      let psg = TREE.with(|t| t.borrow().clone()).unwrap_or_else(|| {
        PSGNode::parent(Phrase::S, (0..n).map(PSGNode::Leaf).collect())
      });
      Sentence { text, words, psg: Some(psg) }
    }
  }
}
