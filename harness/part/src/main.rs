#![allow(dead_code)]
#[path = "../../common/driver.rs"]
mod driver;
pub mod util {
  #[path = "/repo/src/util/plot.rs"]
  pub mod plot;
  #[path = "/repo/src/util/test.rs"]
  pub mod test;
}
pub mod dnm {
  #[path = "/repo/src/dnm/node.rs"]
  pub mod node;
  #[path = "/repo/src/dnm/parameters.rs"]
  mod parameters;
  pub use self::parameters::{DNMParameters, RuntimeParseData, SpecialTagsOption};
}
pub mod patterns {
  #[path = "/repo/src/patterns/utils.rs"]
  pub mod utils;
}
#[path = "/repo/src/ngrams.rs"]
pub mod ngrams;
#[path = "/repo/src/stopwords.rs"]
pub mod stopwords;

mod a_lexemes;
mod a_ngrams;
mod a_patternxml;
mod a_plot;
mod a_resources;
mod a_stopwords;
fn main() {
  if std::env::args().next().map_or(false, |a| a.ends_with("gnuplot")) { return a_plot::play_gnuplot() }
  if std::env::args().nth(1).as_deref() == Some("resources-child") { return a_resources::child() }
  driver::main(vec![a_resources::area(), a_patternxml::area(), a_lexemes::area(), a_ngrams::area(), a_stopwords::area(), a_plot::area()])
}
