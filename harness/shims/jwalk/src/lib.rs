//! Stand-in for `jwalk` 0.4 over `walkdir`: same entries, same options; with
//! `sort(false)` the order of directory entries is unspecified, and a caller can
//! choose one (`shim_order`).
use std::ffi::OsString;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
static ORDER: AtomicU64 = AtomicU64::new(0);
/// 0: as walkdir yields them; otherwise a permutation seeded with the value
pub fn shim_order(o: u64) { ORDER.store(o, Ordering::SeqCst) }
static FIRST: std::sync::Mutex<Vec<PathBuf>> = std::sync::Mutex::new(Vec::new());
/// these entries come before all others, in this order
pub fn shim_first(v: Vec<PathBuf>) { *FIRST.lock().unwrap() = v }
pub struct DirEntry { pub file_name: OsString, path: PathBuf, dir: bool }
impl DirEntry {
  pub fn path(&self) -> PathBuf { self.path.clone() }
  pub fn file_name(&self) -> &std::ffi::OsStr { &self.file_name }
  pub fn is_dir(&self) -> bool { self.dir }
}
pub struct WalkDir { root: PathBuf, skip_hidden: bool, sort: bool }
impl WalkDir {
  pub fn new<P: AsRef<Path>>(p: P) -> WalkDir { WalkDir { root: p.as_ref().to_path_buf(), skip_hidden: true, sort: false } }
  pub fn num_threads(self, _n: usize) -> Self { self }
  pub fn skip_hidden(mut self, b: bool) -> Self { self.skip_hidden = b; self }
  pub fn sort(mut self, b: bool) -> Self { self.sort = b; self }
}
impl IntoIterator for WalkDir {
  type Item = Result<DirEntry, std::io::Error>;
  type IntoIter = std::vec::IntoIter<Self::Item>;
  fn into_iter(self) -> Self::IntoIter {
    let hide = self.skip_hidden;
    let mut v: Vec<Self::Item> = walkdir::WalkDir::new(&self.root).sort_by(|a, b| a.file_name().cmp(b.file_name()))
      .into_iter()
      .filter_entry(|e| e.depth() == 0 || !hide || !e.file_name().to_string_lossy().starts_with('.'))
      .map(|r| match r {
        Ok(e) => Ok(DirEntry { file_name: e.file_name().to_os_string(), path: e.path().to_path_buf(), dir: e.file_type().is_dir() }),
        Err(e) => Err(std::io::Error::other(e.to_string())),
      }).collect();
    let mut s = ORDER.load(Ordering::SeqCst);
    if s != 0 && !self.sort {
      for i in (1..v.len()).rev() {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let j = ((s >> 33) as usize) % (i + 1);
        v.swap(i, j);
      }
    }
    let first = FIRST.lock().unwrap();
    v.sort_by_key(|r| r.as_ref().ok().and_then(|e| first.iter().position(|f| *f == e.path)).unwrap_or(usize::MAX));
    v.into_iter()
  }
}
