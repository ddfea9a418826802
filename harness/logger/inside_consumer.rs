use super::{BatchBuilder, CompleteBufferUpload, ContinuousBufferUploader, Flags};
use crate::service::{self, UploadRequest, UploadResult};
use bd_api::upload::LogBatch;
use bd_api::DataUpload;
use bd_client_stats_store::{Counter, Scope};
use bd_runtime::runtime::ConfigLoader;
use bd_shutdown::ComponentShutdown;
use tower::{Service, ServiceExt};

fn flags(l: &ConfigLoader) -> Flags {
  Flags {
    max_batch_size_logs: l.register_watch().unwrap(),
    max_match_size_bytes: l.register_watch().unwrap(),
    batch_deadline_watch: l.register_watch().unwrap(),
    upload_lookback_window_feature_flag: l.register_watch().unwrap(),
  }
}

pub struct Batch(BatchBuilder);

impl Batch {
  pub fn new(l: &ConfigLoader) -> Self { Self(BatchBuilder::new(flags(l))) }
  pub fn add(&mut self, log: Vec<u8>) { self.0.add_log(log); }
  pub fn full(&self) -> bool { self.0.limit_reached() }
  pub fn take(&mut self) -> Vec<Vec<u8>> { self.0.take() }
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Outcome {
  Success,
  Failure,
  Canceled,
}

#[derive(Clone)]
pub struct Uploads(service::Upload);

impl Uploads {
  pub fn new(tx: tokio::sync::mpsc::Sender<DataUpload>, shutdown: ComponentShutdown, l: &ConfigLoader, s: &Scope) -> Self {
    Self(service::new(tx, shutdown, l, s).unwrap())
  }

  pub async fn upload(mut self, logs: Vec<Vec<u8>>) -> Outcome {
    let r = UploadRequest::new(LogBatch { logs, buffer_id: "b".to_string() });
    let Ok(s) = self.0.ready().await;
    match s.call(r).await {
      Ok(UploadResult::Success) => Outcome::Success,
      Ok(UploadResult::Failure) => Outcome::Failure,
      Ok(UploadResult::Canceled) => Outcome::Canceled,
    }
  }

  /// A one-off upload of everything in a buffer.
  pub async fn everything(self, c: bd_buffer::Consumer, l: &ConfigLoader) -> Option<i32> {
    self.everything_counted(c, l, Counter::default()).await
  }
  pub async fn everything_counted(self, c: bd_buffer::Consumer, l: &ConfigLoader, old: Counter) -> Option<i32> {
    CompleteBufferUpload::new(c, flags(l), self.0, "b".to_string(), old).run().await.ok()
  }

  /// The continuous upload of a buffer.
  pub async fn continuous(self, c: bd_buffer::CursorConsumer, l: &ConfigLoader, s: ComponentShutdown) -> bool {
    ContinuousBufferUploader::new(c, self.0, flags(l), s, "b".to_string()).consume_continuous_logs().await.is_ok()
  }
}
