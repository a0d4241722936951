//! Stand-in for the `rustmorpha` bindings (a wrapped C stemmer that is not
//! available offline).  Deterministic, and easy to state in a specification:
//! `stem` drops one trailing "s", `full_stem` additionally drops a trailing "ing".
/// "stem"
pub fn stem(w: &str) -> String {
  match w.strip_suffix('s') {
    Some(r) if !r.is_empty() => r.to_string(),
    _ => w.to_string(),
  }
}
/// "full stem"
pub fn full_stem(w: &str) -> String {
  let s = stem(w);
  match s.strip_suffix("ing") {
    Some(r) if !r.is_empty() => r.to_string(),
    _ => s,
  }
}
/// releases the stemmer
pub fn close() {}
