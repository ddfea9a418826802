//! The log buffer's task, with what it passes logs to and the rest of the SDK played by the harness.
use super::*;
use crate::log_replay::ProcessingPipeline;
use bd_client_stats::FlushTrigger;
pub use super::LogAttributesOverridesPreviousRunSessionID as Override;

pub type Passed = Box<dyn FnMut(Log, Option<oneshot::Sender<()>>) -> anyhow::Result<()> + Send>;
pub struct Passes(Passed);
#[async_trait::async_trait]
impl LogReplay for Passes {
  async fn replay_log(&mut self, log: Log, done: Option<oneshot::Sender<()>>, _: &mut ProcessingPipeline) -> anyhow::Result<()> { (self.0)(log, done) }
}

pub struct Parts {
  pub replayer: Passed,
  pub session: Arc<bd_session::Strategy>,
  pub metadata: Arc<dyn MetadataProvider + Send + Sync>,
  pub resources: Box<dyn bd_resource_utilization::Target + Send + Sync>,
  pub replay: Box<dyn bd_session_replay::Target + Send + Sync>,
  pub events: Box<dyn bd_events::ListenerTarget + Send + Sync>,
  pub network: Arc<dyn NetworkQualityProvider>,
  pub runtime: Arc<ConfigLoader>,
  pub scope: bd_client_stats_store::Scope,
  pub count: usize,
  pub size: usize,
  pub store: Arc<bd_key_value::Store>,
  /// without a way to flush stats
  pub no_stats: bool,
}

pub struct Queue {
  b: AsyncLogBuffer<Passes>,
  pub app: App,
  pub logger: crate::Logger,
  pub flushes: mpsc::Receiver<BuffersWithAck>,
  pub stats: mpsc::Receiver<Option<bd_completion::Sender<()>>>,
}

/// The app's side.
#[derive(Clone)]
pub struct App {
  tx: Sender<AsyncLogBufferMessage>,
  configs: mpsc::Sender<ConfigUpdate>,
}

impl App {
  /// A flush whose end is known.
  pub fn flush(&self) -> bd_completion::Receiver<()> {
    let (tx, rx) = bd_completion::Sender::new();
    assert!(self.tx.try_send(AsyncLogBufferMessage::FlushState(Some(tx))).is_ok());
    rx
  }
  pub fn configure(&self, u: crate::log_replay::verif_inside::Update) -> bool { self.configs.try_send(u.config()).is_ok() }
}

impl Queue {
  pub fn new(p: Parts) -> Self {
    // the pipeline is made but not used
    let (data_tx, _) = mpsc::channel(4);
    let (flush_tx, flushes) = mpsc::channel(1);
    let (upload_tx, _) = mpsc::channel(4);
    let (trigger, stats) = FlushTrigger::new();
    let dynamic = Arc::new(bd_client_stats::DynamicStats::new(&p.scope, &p.runtime));
    let c = UninitializedLoggingContext::new(
      std::path::Path::new("sdk"),
      &p.runtime,
      p.scope.clone(),
      dynamic,
      upload_tx,
      data_tx,
      flush_tx,
      (!p.no_stats).then_some(trigger),
      p.count,
      p.size,
    );
    let (configs, rx) = mpsc::channel(8);
    let (b, tx) = AsyncLogBuffer::new(
      c,
      Passes(p.replayer),
      p.session.clone(),
      p.metadata,
      p.resources,
      p.replay,
      p.events,
      rx,
      bd_shutdown::ComponentShutdownTrigger::default().make_handle(),
      &p.runtime,
      p.network,
    );
    let device = Arc::new(bd_device::Device::new(p.store.clone()));
    let logger = crate::Logger::new(None, p.runtime, p.scope, tx.clone(), p.session, device, "1.2.3", p.store);
    Self { b, app: App { tx, configs }, logger, flushes, stats }
  }

  pub fn run(self, shutdown: ComponentShutdown) -> Running {
    let Self { b, app, logger, flushes, stats } = self;
    let task = Box::pin(async move {
      b.run_with_shutdown(shutdown).await;
    });
    Running { task, app, logger, flushes, stats }
  }
}

pub struct Running {
  pub task: std::pin::Pin<Box<dyn std::future::Future<Output = ()> + Send>>,
  pub app: App,
  pub logger: crate::Logger,
  pub flushes: mpsc::Receiver<BuffersWithAck>,
  pub stats: mpsc::Receiver<Option<bd_completion::Sender<()>>>,
}
