//! Stand-in for the `unidecode` crate: ASCII is kept, a small fixed table covers
//! the characters the harness generates, anything else is dropped (as the real
//! crate does for characters it has no transliteration for).
pub fn unidecode_char(c: char) -> &'static str {
  const ASCII: &str = "\u{0}\u{1}\u{2}\u{3}\u{4}\u{5}\u{6}\u{7}\u{8}\u{9}\u{a}\u{b}\u{c}\u{d}\u{e}\u{f}\u{10}\u{11}\u{12}\u{13}\u{14}\u{15}\u{16}\u{17}\u{18}\u{19}\u{1a}\u{1b}\u{1c}\u{1d}\u{1e}\u{1f} !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~\u{7f}";
  let u = c as usize;
  if u < 128 {
    return &ASCII[u..u + 1];
  }
  if c == 'İ' { rendezvous() }
  match c {
    '\u{a0}' => " ",
    'é' | 'è' => "e",
    'É' => "E",
    'ü' => "u",
    'ß' => "ss",
    'Æ' => "AE",
    'æ' => "ae",
    '\u{2013}' => "-",
    '\u{2019}' => "'",
    '\u{2026}' => "...",
    'λ' => "l",
    'İ' => "I",
    'À' | 'Á' | 'Â' | 'Ã' | 'Ä' | 'Å' | 'Ā' | 'Ă' | 'Ą' => "A",
    'Ç' | 'Ć' | 'Ĉ' | 'Ċ' | 'Č' => "C",
    'Ď' => "D",
    'È' | 'Ê' | 'Ë' | 'Ē' | 'Ĕ' | 'Ė' | 'Ę' | 'Ě' => "E",
    'Ĝ' | 'Ğ' | 'Ġ' | 'Ģ' => "G",
    'Ĥ' => "H",
    'Ì' | 'Í' | 'Î' | 'Ï' | 'Ĩ' | 'Ī' | 'Ĭ' | 'Į' => "I",
    'Ĵ' => "J",
    'Ķ' => "K",
    'Ĺ' | 'Ļ' | 'Ľ' => "L",
    'Ñ' | 'Ń' | 'Ņ' | 'Ň' => "N",
    'Ò' | 'Ó' | 'Ô' | 'Õ' | 'Ö' | 'Ō' | 'Ŏ' | 'Ő' => "O",
    'Ŕ' | 'Ŗ' | 'Ř' => "R",
    'Ś' | 'Ŝ' | 'Ş' | 'Š' => "S",
    'Ţ' | 'Ť' => "T",
    'Ù' | 'Ú' | 'Û' | 'Ü' | 'Ũ' | 'Ū' | 'Ŭ' | 'Ů' | 'Ű' | 'Ų' => "U",
    'Ŵ' => "W",
    'Ý' | 'Ŷ' | 'Ÿ' => "Y",
    'Ź' | 'Ż' | 'Ž' => "Z",
    'à' | 'á' | 'â' | 'ã' | 'ä' | 'å' | 'ā' | 'ă' | 'ą' => "a",
    'ç' | 'ć' | 'ĉ' | 'ċ' | 'č' => "c",
    'ď' => "d",
    'ê' | 'ë' | 'ē' | 'ĕ' | 'ė' | 'ę' | 'ě' => "e",
    'ĝ' | 'ğ' | 'ġ' | 'ģ' => "g",
    'ĥ' => "h",
    'ì' | 'í' | 'î' | 'ï' | 'ĩ' | 'ī' | 'ĭ' | 'į' => "i",
    'ĵ' => "j",
    'ķ' => "k",
    'ĺ' | 'ļ' | 'ľ' => "l",
    'ñ' | 'ń' | 'ņ' | 'ň' => "n",
    'ò' | 'ó' | 'ô' | 'õ' | 'ö' | 'ō' | 'ŏ' | 'ő' => "o",
    'ŕ' | 'ŗ' | 'ř' => "r",
    'ś' | 'ŝ' | 'ş' | 'š' => "s",
    'ţ' | 'ť' => "t",
    'ù' | 'ú' | 'û' | 'ũ' | 'ū' | 'ŭ' | 'ů' | 'ű' | 'ų' => "u",
    'ŵ' => "w",
    'ý' | 'ÿ' | 'ŷ' => "y",
    'ź' | 'ż' | 'ž' => "z",
    '\u{2018}' => "'",
    '\u{201c}' | '\u{201d}' => "\"",
    '\u{2014}' => "--",
    '\u{20ac}' => "EUR",
    '\u{2022}' => "*",
    'ħ' => "h",
    'ø' => "o",
    'ŧ' => "t",
    'µ' => "u",
    '\u{2200}'..='\u{22ff}' | '\u{25a0}'..='\u{25ff}' => "[?]",
    _ => "",
  }
}
pub fn unidecode(s: &str) -> String { s.chars().map(unidecode_char).collect() }

// A place in a document's text where the harness can make threads wait for each other: every thread that comes to an
// 'İ' waits until n have, so that they go on at the same moment.
struct Meeting { wanted: usize, here: usize, round: usize }
static MEETING: std::sync::Mutex<Meeting> = std::sync::Mutex::new(Meeting { wanted: 0, here: 0, round: 0 });
static ARRIVAL: std::sync::Condvar = std::sync::Condvar::new();
/// let threads meet in groups of n (0: no meetings)
pub fn shim_rendezvous(n: usize) {
  let mut m = MEETING.lock().unwrap();
  m.wanted = n;
  m.here = 0;
  m.round += 1;
  ARRIVAL.notify_all();
}
fn rendezvous() {
  let mut m = MEETING.lock().unwrap();
  if m.wanted < 2 { return }
  m.here += 1;
  if m.here == m.wanted {
    m.here = 0;
    m.round += 1;
    ARRIVAL.notify_all();
    return;
  }
  let round = m.round;
  let (mut m, late) = ARRIVAL.wait_timeout_while(m, std::time::Duration::from_millis(400), |m| m.round == round).unwrap();
  // some thread is not coming: no more meetings
  if late.timed_out() { m.wanted = 0 }
}
