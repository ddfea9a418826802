use super::*;
use crate::actions_flush_buffers::verif_inside::Pending;

/// A workflows engine with what the SDK holds around it.
pub struct Engine {
  pub e: WorkflowsEngine,
  pub flushes: Receiver<BuffersToFlush>,
  pub uploads: Receiver<DataUpload>,
  asks: Receiver<PendingFlushBuffersAction>,
  pub dynamic: Arc<DynamicStats>,
}

pub struct Routed {
  pub to: Vec<String>,
  pub flushes: Vec<String>,
  pub actions: Vec<String>,
  pub screenshot: bool,
}

pub type Config2 = WorkflowsEngineConfig;

fn ids(v: &[&'static str]) -> BTreeSet<Cow<'static, str>> { v.iter().map(|s| Cow::Borrowed(*s)).collect() }

pub fn configuration(workflows: Vec<Config>, trigger: &[&'static str], continuous: &[&'static str]) -> WorkflowsEngineConfig {
  WorkflowsEngineConfig::new(WorkflowsConfiguration::new_with_workflow_configurations_for_test(workflows), ids(trigger), ids(continuous))
}

impl Engine {
  pub fn new(stats: &Scope, dir: &Path, runtime: &ConfigLoader) -> Self {
    let (tx, uploads) = tokio::sync::mpsc::channel(4);
    let dynamic = Arc::new(DynamicStats::new(stats, runtime));
    let (mut e, flushes) = WorkflowsEngine::new(stats, dir, runtime, tx, dynamic.clone());
    let (tx, asks) = tokio::sync::mpsc::channel(10);
    e.flush_buffers_negotiator_input_tx = tx;
    Self { e, flushes, uploads, asks, dynamic }
  }

  pub fn log(&mut self, log: &LogRef<'_>, to: &[&'static str]) -> Routed {
    let to = ids(to);
    let r = self.e.process_log(log, &to);
    Routed {
      to: r.log_destination_buffer_ids.iter().map(|s| s.to_string()).collect(),
      flushes: r.triggered_flushes_buffer_ids.iter().map(|s| s.to_string()).collect(),
      actions: r.triggered_flush_buffers_action_ids.iter().map(|s| s.to_string()).collect(),
      screenshot: r.capture_screenshot,
    }
  }

  pub fn count(&self) -> u32 { self.e.current_traversals_count }
  pub fn limit(&self) -> u32 { self.e.traversals_count_limit }
  pub fn set_limit(&mut self, n: u32) { self.e.traversals_count_limit = n; }
  pub fn traversals(&self) -> u32 { self.e.state.workflows.iter().map(Workflow::traversals_count).sum() }
  pub fn session(&self) -> &str { &self.e.state.session_id }
  pub fn pending(&self) -> Vec<Pending> { self.e.state.pending_actions.iter().cloned().map(Pending).collect() }
  /// What the negotiator is asked to clear.
  pub fn ask(&mut self) -> Option<Pending> { self.asks.try_recv().ok().map(Pending) }
  pub fn streams(&self) -> usize { self.e.state.streaming_actions.len() }
  pub fn dirty(&self) -> bool { self.e.needs_state_persistence }
  pub fn saved(&mut self) -> anyhow::Result<()> {
    self.e.needs_state_persistence = false;
    StateStore::store(&self.e.state_store.state_path, &self.e.state.optimized())
  }
  /// The state as saved, and as it is.
  pub fn bytes(&self) -> (Vec<u8>, Vec<u8>) {
    (bincode::serialize(&self.e.state.optimized()).unwrap(), bincode::serialize(&self.e.state).unwrap())
  }
}

impl Engine {
  /// Lets the negotiator's answer in: what `run_once` does with one.
  pub async fn answered(&mut self, a: Pending, yes: bool) {
    let a = a.0;
    let (tx, rx) = tokio::sync::mpsc::channel(1);
    let kept = std::mem::replace(&mut self.e.flush_buffers_negotiator_output_rx, rx);
    tx.try_send(if yes { NegotiatorOutput::UploadApproved(a) } else { NegotiatorOutput::UploadRejected(a) }).unwrap();
    self.e.run_once(false).await;
    self.e.flush_buffers_negotiator_output_rx = kept;
  }
}

pub fn state_path() -> &'static str { "sdk/workflows_state_snapshot.4.bin" }
