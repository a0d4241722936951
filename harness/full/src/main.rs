#[path = "../../common/driver.rs"]
mod driver;
mod common;

mod pat;
mod a_patternload;
mod a_corpus;
mod a_selectors;
mod a_ams;
mod a_match;
mod a_language;
mod a_reader;
mod a_pathwords;
mod a_tokenmodel;
mod a_wordnorm;
mod a_plaintext;
mod a_fromstr;
mod a_c14n;
mod a_xpointer;
mod a_range;
mod a_sentences;
mod a_words;
fn main() {
  if std::env::args().nth(1).as_deref() == Some("language-child") { return a_language::child() }
  driver::main(vec![a_language::area(), a_reader::area(), a_pathwords::area(), a_tokenmodel::area(), a_wordnorm::area(), a_ams::area(), a_selectors::area(), a_corpus::area(), a_match::area(), a_patternload::area(), a_xpointer::area(), a_c14n::area(), a_fromstr::area(), a_plaintext::area(), a_sentences::area(), a_range::area(), a_words::area()])
}
