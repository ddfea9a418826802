use super::*;

/// An upload waiting for an answer.
#[derive(Clone, PartialEq, Eq)]
pub struct Pending(pub(crate) PendingFlushBuffersAction);

impl Pending {
  pub fn id(&self) -> &str { &self.0.id }
  pub fn buffers(&self) -> Vec<String> { self.0.trigger_buffer_ids.iter().map(|s| s.to_string()).collect() }
}

/// The negotiation of upload intents.
pub struct Talk {
  n: Negotiator,
  out: Receiver<NegotiatorOutput>,
  _in: Sender<PendingFlushBuffersAction>,
}

impl Talk {
  pub fn new(tx: Sender<DataUpload>, s: &Scope) -> Self {
    let (_in, rx) = channel(4);
    let (n, out) = Negotiator::new(rx, tx, s);
    Self { n, out, _in }
  }
  pub async fn about(&mut self, id: &str, buffers: &[&'static str]) {
    let p = PendingFlushBuffersAction {
      id: id.to_string(),
      session_id: "s".to_string(),
      trigger_buffer_ids: buffers.iter().map(|b| Cow::Borrowed(*b)).collect(),
      streaming: None,
    };
    self.n.process_pending_action(p).await
  }
  /// What came out: the action and whether it may upload.
  pub fn verdict(&mut self) -> Option<(String, bool)> {
    self.out.try_recv().ok().map(|o| match o {
      NegotiatorOutput::UploadApproved(a) => (a.id, true),
      NegotiatorOutput::UploadRejected(a) => (a.id, false),
    })
  }
}
