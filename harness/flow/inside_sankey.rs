use super::*;

/// The upload of recorded paths.
pub struct Uploader(Processor, Sender<SankeyPath>);

impl Uploader {
  pub fn new(tx: Sender<DataUpload>, s: &Scope) -> Self {
    let (keep, rx) = tokio::sync::mpsc::channel(1);
    Self(Processor::new(rx, tx, s), keep)
  }
  pub async fn path(&mut self, sankey: &str, path: &str, nodes: &[&str]) {
    let p = SankeyPath {
      sankey_id: sankey.to_string(),
      nodes: nodes.iter().map(|n| (*n).to_string()).collect(),
      path_id: path.to_string(),
      is_trimmed: false,
    };
    self.0.process_sankey(p).await
  }
}

/// What has been settled already, least recent first.
#[derive(Default)]
pub struct Settled(ProcessedIntents);

fn of(k: u64) -> SankeyPath {
  SankeyPath { sankey_id: "s".to_string(), nodes: vec![], path_id: k.to_string(), is_trimmed: false }
}

impl Settled {
  pub const MOST: usize = PROCESSED_INTENTS_LRU_CACHE_SIZE;
  pub fn contains(&mut self, k: u64) -> bool { self.0.contains(&of(k)) }
  pub fn insert(&mut self, k: u64) { self.0.insert(of(k)) }
}
