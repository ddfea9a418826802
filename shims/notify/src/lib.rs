//! Stand-in for `notify`: a watcher whose events the harness emits. The types used by bd-runtime-config
//! have the shapes of notify 7.
pub mod event {
  #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
  pub enum RenameMode { Any, To, From, Both, Other }
  #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
  pub enum DataChange { Any, Size, Content, Other }
  #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
  pub enum MetadataKind { Any, AccessTime, WriteTime, Permissions, Ownership, Extended, Other }
  #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
  pub enum ModifyKind { Any, Data(DataChange), Metadata(MetadataKind), Name(RenameMode), Other }
  #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
  pub enum CreateKind { Any, File, Folder, Other }
  #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
  pub enum RemoveKind { Any, File, Folder, Other }
  #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
  pub enum AccessKind { Any, Read, Other }
  #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
  pub enum EventKind { Any, Access(AccessKind), Create(CreateKind), Modify(ModifyKind), Remove(RemoveKind), Other }
  #[derive(Clone, Debug, PartialEq, Eq, Hash)]
  pub struct Event { pub kind: EventKind, pub paths: Vec<std::path::PathBuf> }
}
pub use event::{Event, EventKind};

#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("notify error") }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

pub trait EventHandler: Send + 'static {
  fn handle_event(&mut self, event: Result<Event>);
}
impl<F: FnMut(Result<Event>) + Send + 'static> EventHandler for F {
  fn handle_event(&mut self, event: Result<Event>) { (self)(event) }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RecursiveMode { Recursive, NonRecursive }

#[derive(Clone, Copy, Debug, Default)]
pub struct Config;

pub trait Watcher {
  fn watch(&mut self, path: &std::path::Path, mode: RecursiveMode) -> Result<()>;
  fn unwatch(&mut self, _path: &std::path::Path) -> Result<()> { Ok(()) }
}

// the handlers of live watchers, in the order they were made (single-threaded harnesses)
struct Live { id: u64, dir: Option<(std::path::PathBuf, RecursiveMode)>, handler: Option<Box<dyn EventHandler>> }
static mut LIVE: Vec<Live> = Vec::new();
static mut NEXT: u64 = 0;
pub static mut FAIL_WATCH: bool = false;

pub struct RecommendedWatcher { id: u64 }
impl std::fmt::Debug for RecommendedWatcher {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("RecommendedWatcher") }
}
impl Watcher for RecommendedWatcher {
  #[allow(static_mut_refs)]
  fn watch(&mut self, path: &std::path::Path, mode: RecursiveMode) -> Result<()> {
    unsafe {
      if FAIL_WATCH {
        return Err(Error);
      }
      for l in &mut LIVE {
        if l.id == self.id {
          l.dir = Some((path.to_path_buf(), mode));
        }
      }
    }
    Ok(())
  }
}
impl Drop for RecommendedWatcher {
  #[allow(static_mut_refs)]
  fn drop(&mut self) {
    unsafe {
      if let Some(i) = LIVE.iter().position(|l| l.id == self.id) {
        LIVE.remove(i);
      }
    }
  }
}
#[allow(static_mut_refs)]
pub fn recommended_watcher<F: EventHandler>(handler: F) -> Result<RecommendedWatcher> {
  unsafe {
    NEXT += 1;
    LIVE.push(Live { id: NEXT, dir: None, handler: Some(Box::new(handler)) });
    Ok(RecommendedWatcher { id: NEXT })
  }
}

/// What the harness uses.
pub mod verif {
  use super::*;
  /// Number of watchers alive.
  #[allow(static_mut_refs)]
  pub fn live() -> usize { unsafe { LIVE.len() } }
  /// The directory of the watcher with that index.
  #[allow(static_mut_refs)]
  pub fn dir(i: usize) -> Option<(std::path::PathBuf, RecursiveMode)> { unsafe { LIVE[i].dir.clone() } }
  /// An event occurs in the directory of every live watcher.
  #[allow(static_mut_refs)]
  pub fn emit(kind: EventKind) {
    unsafe {
      for l in &mut LIVE {
        if l.dir.is_some() {
          l.handler.as_mut().unwrap().handle_event(Ok(Event { kind, paths: vec![] }));
        }
      }
    }
  }
  #[allow(static_mut_refs)]
  pub fn emit_error() {
    unsafe {
      for l in &mut LIVE {
        l.handler.as_mut().unwrap().handle_event(Err(Error));
      }
    }
  }
}
