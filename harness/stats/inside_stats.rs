//! The stats machinery over a directory held in memory and tickers of the caller's.
use crate::file_manager::{FileManager, FileSystem};
use crate::stats::Ticker;
use crate::{FlushHandles, Stats};
use bd_api::DataUpload;
use bd_runtime::runtime::ConfigLoader;
use bd_shutdown::ComponentShutdown;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

#[derive(Default)]
pub struct Disk {
  pub files: BTreeMap<PathBuf, Vec<u8>>,
  pub broken: bool,
}

#[derive(Clone, Default)]
pub struct Dir(pub Arc<Mutex<Disk>>);

#[async_trait::async_trait]
impl FileSystem for Dir {
  async fn read_file(&self, path: &Path) -> anyhow::Result<Vec<u8>> {
    self.0.lock().unwrap().files.get(path).cloned().ok_or_else(|| anyhow::anyhow!("absent"))
  }
  async fn write_file(&self, path: &Path, data: &[u8]) -> anyhow::Result<()> {
    let mut d = self.0.lock().unwrap();
    anyhow::ensure!(!d.broken, "full");
    d.files.insert(path.to_path_buf(), data.to_vec());
    Ok(())
  }
  async fn delete_file(&self, path: &Path) -> anyhow::Result<()> {
    self.0.lock().unwrap().files.remove(path);
    Ok(())
  }
  async fn remove_dir(&self, path: &Path) -> anyhow::Result<()> {
    self.0.lock().unwrap().files.retain(|k, _| !k.starts_with(path));
    Ok(())
  }
  async fn create_dir(&self, _: &Path) -> anyhow::Result<()> { Ok(()) }
}

#[derive(Clone, Default)]
pub struct Ticks(pub Arc<Mutex<usize>>);

#[async_trait::async_trait]
impl Ticker for Ticks {
  async fn tick(&mut self) {
    std::future::poll_fn(|_| {
      let mut n = self.0.lock().unwrap();
      if *n > 0 {
        *n -= 1;
        std::task::Poll::Ready(())
      } else {
        std::task::Poll::Pending
      }
    })
    .await;
  }
}

pub fn handles(
  stats: &Arc<Stats>,
  dir: &Dir,
  flush: &Ticks,
  upload: &Ticks,
  shutdown: ComponentShutdown,
  tx: tokio::sync::mpsc::Sender<DataUpload>,
  time: Arc<dyn bd_time::TimeProvider>,
  runtime: &ConfigLoader,
) -> FlushHandles {
  let manager = Arc::new(FileManager::new(Box::new(dir.clone()), time, runtime).unwrap());
  stats.flush_handle_helper(flush.clone(), upload.clone(), shutdown, tx, manager).unwrap()
}
