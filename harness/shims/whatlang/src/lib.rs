//! Stand-in for `whatlang`.  The verdict can be scripted by a caller
//! (thread-local); by default every text is confidently English.
use std::cell::{Cell, RefCell};
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Lang { Eng, Deu, Fra }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Script { Latin, Cyrillic }
#[derive(Clone, Copy, Debug)]
pub struct Info { lang: Lang, script: Script, confidence: f64 }
impl Info {
  pub fn lang(&self) -> Lang { self.lang }
  pub fn script(&self) -> Script { self.script }
  pub fn confidence(&self) -> f64 { self.confidence }
  pub fn is_reliable(&self) -> bool { self.confidence > 0.9 }
}
thread_local! { static VERDICT: Cell<Option<Info>> = const { Cell::new(Some(Info { lang: Lang::Eng, script: Script::Latin, confidence: 1.0 })) }; }
pub fn shim_set(v: Option<(Lang, Script, f64)>) {
  VERDICT.with(|c| c.set(v.map(|(lang, script, confidence)| Info { lang, script, confidence })));
}
thread_local! { static SEEN: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) }; }
/// the texts of the detections since the last call
pub fn shim_seen() -> Vec<String> { SEEN.with(|s| std::mem::take(&mut *s.borrow_mut())) }
/// a text without letters has no verdict
pub fn detect(text: &str) -> Option<Info> {
  SEEN.with(|s| { let mut s = s.borrow_mut(); if s.len() < 64 { s.push(text.to_string()) } });
  if text.chars().any(char::is_alphabetic) { VERDICT.with(|c| c.get()) } else { None }
}
