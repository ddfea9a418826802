//! Stand-in for fs2, which is absent from the offline cache: advisory locks always succeed.
use std::fs::File;
use std::io::Result;
pub trait FileExt {
  fn try_lock_exclusive(&self) -> Result<()>;
  fn lock_exclusive(&self) -> Result<()>;
  fn unlock(&self) -> Result<()>;
}
impl FileExt for File {
  fn try_lock_exclusive(&self) -> Result<()> { Ok(()) }
  fn lock_exclusive(&self) -> Result<()> { Ok(()) }
  fn unlock(&self) -> Result<()> { Ok(()) }
}
