//! The processing of one log after another, with buffers and the rest of the SDK played by the harness.
use super::*;
use crate::logging_state::UninitializedLoggingContext;
use bd_proto::protos::bdtail::bdtail_config::BdTailConfigurations;
use bd_proto::protos::config::v1::config::BufferConfigList;
use bd_proto::protos::filter::filter::FiltersConfiguration;
use bd_proto::protos::workflow::workflow::WorkflowsConfiguration as Workflows;

pub struct Update {
  /// name, continuous, where what is written goes
  pub buffers: Vec<(&'static str, bool, bd_buffer::Producer)>,
  pub selection: BufferConfigList,
  pub workflows: Workflows,
  pub tails: BdTailConfigurations,
  pub tail: Option<bd_buffer::Producer>,
  pub filters: FiltersConfiguration,
}

impl Update {
  pub(crate) fn config(self) -> ConfigUpdate {
    let of = |continuous: bool| self.buffers.iter().filter(|b| b.1 == continuous).map(|b| Cow::Borrowed(b.0)).collect::<BTreeSet<_>>();
    let (continuous_buffer_ids, trigger_buffer_ids) = (of(true), of(false));
    ConfigUpdate {
      buffer_producers: BufferProducers {
        buffers: self.buffers.into_iter().map(|(n, _, p)| (n.to_string(), p)).collect(),
        builder: flatbuffers::FlatBufferBuilder::new(),
        continuous_buffer_ids,
        trigger_buffer_ids,
      },
      buffer_selector: BufferSelector::new(&self.selection).unwrap(),
      workflows_configuration: bd_workflows::config::WorkflowsConfiguration::new(&self.workflows),
      tail_configs: crate::client_config::verif_inside::tails(self.tails, self.tail),
      filter_chain: FilterChain::new(self.filters).0,
    }
  }
}

pub struct Pipe {
  p: ProcessingPipeline,
  pub data: Receiver<DataUpload>,
  pub flushes: Receiver<BuffersWithAck>,
  pub stats: Receiver<Option<bd_completion::Sender<()>>>,
  pub uploads: Receiver<TriggerUpload>,
  pub shots: Receiver<()>,
}

impl Pipe {
  pub async fn new(u: Update, runtime: &Arc<ConfigLoader>, scope: &bd_client_stats_store::Scope) -> Self {
    let (data_tx, data) = tokio::sync::mpsc::channel(4);
    let (flush_tx, flushes) = tokio::sync::mpsc::channel(1);
    let (upload_tx, uploads) = tokio::sync::mpsc::channel(4);
    let (trigger, stats) = FlushTrigger::new();
    let (handler, shots) = bd_session_replay::verif_inside::handler(scope);
    let dynamic = Arc::new(bd_client_stats::DynamicStats::new(scope, runtime));
    let c = UninitializedLoggingContext::<crate::async_log_buffer::LogLine>::new(std::path::Path::new("sdk"), runtime, scope.clone(), dynamic, upload_tx, data_tx, flush_tx, Some(trigger), 1, 1);
    let (c, _) = c.updated(u.config(), handler).await;
    Self { p: c.processing_pipeline, data, flushes, stats, uploads, shots }
  }

  pub fn update(&mut self, u: Update) { self.p.update(u.config()); }

  /// Processes a log; the other ends are given back for use meanwhile.
  pub fn split(&mut self) -> (Line<'_>, &mut Receiver<BuffersWithAck>, &mut Receiver<Option<bd_completion::Sender<()>>>) {
    (Line(&mut self.p), &mut self.flushes, &mut self.stats)
  }

  pub async fn run(&mut self) { self.p.run().await }
}

pub struct Line<'a>(&'a mut ProcessingPipeline);
impl Line<'_> {
  pub async fn log(&mut self, log: Log, done: Option<oneshot::Sender<()>>) -> anyhow::Result<()> { LoggerReplay.replay_log(log, done, self.0).await }
}
