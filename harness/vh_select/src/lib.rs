//! tokio's `select!` whose first branch to look at is the checker's choice instead of a random number:
//! any of them the first time after `fresh`, the first one after that.
pub use tokio;
use std::sync::atomic::{AtomicU32, Ordering};

static LEFT: AtomicU32 = AtomicU32::new(0);

/// The next `n` rounds start anywhere.
pub fn fresh(n: u32) { LEFT.store(n, Ordering::Relaxed); }

pub fn start(branches: u32) -> u32 {
  let n = LEFT.load(Ordering::Relaxed);
  if n == 0 { return 0; }
  LEFT.store(n - 1, Ordering::Relaxed);
  vh::choose("first_branch", u64::from(branches)) as u32
}

#[macro_export]
macro_rules! select {
  (biased; $($t:tt)*) => { $crate::tokio::select!(biased; $($t)*) };
  ($($t:tt)*) => { $crate::tokio::select!(@{ start={ $crate::start(BRANCHES) }; () } $($t)*) };
}

/// `tokio::task::spawn_blocking`, done here and now while its caller waits a turn.
pub async fn spawn_blocking<T>(f: impl FnOnce() -> T) -> Result<T, std::fmt::Error> {
  let r = f();
  tokio::task::yield_now().await;
  Ok(r)
}

/// `tokio::fs`, done the same way.
pub mod fs {
  use std::io;
  use std::path::Path;

  pub async fn try_exists(path: impl AsRef<Path>) -> io::Result<bool> {
    let r = path.as_ref().try_exists();
    tokio::task::yield_now().await;
    r
  }

  pub async fn read(path: impl AsRef<Path>) -> io::Result<Vec<u8>> {
    let r = std::fs::read(path);
    tokio::task::yield_now().await;
    r
  }

  pub async fn write(path: impl AsRef<Path>, contents: impl AsRef<[u8]>) -> io::Result<()> {
    let r = std::fs::write(path, contents);
    tokio::task::yield_now().await;
    r
  }

  pub async fn remove_file(path: impl AsRef<Path>) -> io::Result<()> {
    let r = std::fs::remove_file(path);
    tokio::task::yield_now().await;
    r
  }

  pub async fn rename(from: impl AsRef<Path>, to: impl AsRef<Path>) -> io::Result<()> {
    let r = std::fs::rename(from, to);
    tokio::task::yield_now().await;
    r
  }

  pub async fn create_dir_all(path: impl AsRef<Path>) -> io::Result<()> {
    let r = std::fs::create_dir_all(path);
    tokio::task::yield_now().await;
    r
  }
}
