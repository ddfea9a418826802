//! A01: who gets which answer.
use bd_api::api::{Api, SimpleNetworkQualityProvider};
use bd_api::upload::{IntentDecision, IntentResponse, StateTracker, Tracked, UploadResponse};
use bd_api::{DataUpload, Platform, PlatformNetworkManager, PlatformNetworkStream, StreamEvent, StreamEventSender};
use bd_client_stats_store::Collector;
use bd_grpc_codec::{Decoder, Decompression, Encoder, OptimizeFor};
use bd_proto::protos::client::api::api_request::Request_type;
use bd_proto::protos::client::api::api_response::Response_type;
use bd_proto::protos::client::api::{
  log_upload_intent_response, sankey_intent_response, ApiRequest, ApiResponse, HandshakeResponse, LogUploadIntentRequest,
  LogUploadIntentResponse, LogUploadRequest, LogUploadResponse, OpaqueRequest, OpaqueResponse, SankeyIntentRequest,
  SankeyIntentResponse, SankeyPathUploadRequest, SankeyPathUploadResponse, StatsUploadRequest, StatsUploadResponse,
};
use bd_runtime::runtime::ConfigLoader;
use bd_shutdown::ComponentShutdownTrigger;
use std::collections::HashMap;
use std::future::Future;
use std::path::Path;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use tokio::sync::oneshot;
use tokio::sync::oneshot::error::TryRecvError;

enum Waiting {
  Upload(oneshot::Receiver<UploadResponse>),
  Intent(oneshot::Receiver<IntentResponse>),
}

/// What a waiter has: nothing yet, the end of the stream, or an answer.
#[derive(Debug, PartialEq, Clone, Copy)]
enum Has {
  Nothing,
  Dropped,
  Yes,
  No,
}

impl Waiting {
  fn has(&mut self, id: &str) -> Has {
    match self {
      Self::Upload(r) => match r.try_recv() {
        Ok(a) => {
          vh::check(a.uuid == id, "own_answer");
          if a.success { Has::Yes } else { Has::No }
        },
        Err(TryRecvError::Empty) => Has::Nothing,
        Err(TryRecvError::Closed) => Has::Dropped,
      },
      Self::Intent(r) => match r.try_recv() {
        Ok(a) => {
          vh::check(a.uuid == id, "own_answer");
          if matches!(a.decision, IntentDecision::UploadImmediately) { Has::Yes } else { Has::No }
        },
        Err(TryRecvError::Empty) => Has::Nothing,
        Err(TryRecvError::Closed) => Has::Dropped,
      },
    }
  }
}

struct One {
  id: String,
  waiting: Waiting,
  intent: bool,
  /// what it should have
  want: Has,
  /// whether it has been told
  told: bool,
  kind: u64,
}

fn settle(all: &mut [One]) {
  for o in all {
    let has = o.waiting.has(&o.id);
    if o.told {
      // nothing more, ever
      vh::check(has == Has::Dropped, "once");
    } else {
      vh::check(has == o.want, "answer");
      o.told = has != Has::Nothing;
    }
  }
}

// the tracker itself, with identifiers that are reused and that nobody has
vh::entry!(a01_tracker, {
  let mut t = Some(StateTracker::new());
  let mut all: Vec<One> = vec![];
  for _ in 0 .. vh::param("ops", 5) {
    let Some(tracker) = t.as_mut() else { break };
    let op = vh::choose("op", 5);
    let id = ["a", "b", ""][if op == 4 { 0 } else { vh::choose("id", 3) } as usize];
    match op {
      0 | 1 => {
        // the same identifier in use twice: the earlier one will not be answered any more
        for o in all.iter_mut() {
          if o.id == id && o.intent == (op == 1) && o.want == Has::Nothing {
            o.want = Has::Dropped;
            vh::reach("replaced");
          }
        }
        let waiting = if op == 0 {
          let (u, rx) = Tracked::new(id.to_string(), 7u8);
          vh::check(tracker.track_upload(u) == 7, "payload");
          Waiting::Upload(rx)
        } else {
          let (u, rx) = Tracked::new(id.to_string(), 9u8);
          vh::check(tracker.track_intent(u) == 9, "payload");
          Waiting::Intent(rx)
        };
        all.push(One { id: id.to_string(), waiting, intent: op == 1, want: Has::Nothing, told: false, kind: 0 });
      },
      2 | 3 => {
        let yes;
        let known = if op == 2 {
          let n = vh::choose("error", 3) as usize;
          let mut text = vec![0; n];
          vh::bytes(&mut text, "text");
          for b in &text { vh::assume(*b < 0x80); }
          yes = n == 0;
          tracker.resolve_pending_upload(id, std::str::from_utf8(&text).unwrap()).is_ok()
        } else {
          yes = vh::boolv("yes");
          let decision = if yes { IntentDecision::UploadImmediately } else { IntentDecision::Drop };
          tracker.resolve_intent(id, IntentResponse { uuid: id.to_string(), decision }).is_ok()
        };
        let mut found = false;
        for o in all.iter_mut() {
          if o.id == id && o.intent == (op == 3) && o.want == Has::Nothing {
            o.want = if yes { Has::Yes } else { Has::No };
            found = true;
          }
        }
        vh::check(known == found, "known");
        vh::reach(if found { "answered" } else { "unknown" });
      },
      _ => {
        // the stream ends
        t = None;
        for o in all.iter_mut() {
          if o.want == Has::Nothing {
            o.want = Has::Dropped;
            vh::reach("ended");
          }
        }
      },
    }
    settle(&mut all);
  }
});

#[derive(Default)]
struct Wire {
  sent: Vec<u8>,
  events: Option<StreamEventSender>,
  streams: usize,
}

#[derive(Clone, Default)]
struct Net(Arc<Mutex<Wire>>);

#[async_trait::async_trait]
impl PlatformNetworkManager<ConfigLoader> for Net {
  async fn start_stream(
    &self,
    tx: StreamEventSender,
    _: &ConfigLoader,
    _: &HashMap<&str, &str>,
  ) -> anyhow::Result<Box<dyn PlatformNetworkStream>> {
    let mut w = self.0.lock().unwrap();
    w.events = Some(tx);
    w.streams += 1;
    w.sent.clear();
    Ok(Box::new(self.clone()))
  }
}

#[async_trait::async_trait]
impl PlatformNetworkStream for Net {
  async fn send_data(&mut self, data: &[u8]) -> anyhow::Result<()> {
    self.0.lock().unwrap().sent.extend_from_slice(data);
    Ok(())
  }
}

struct Meta;
impl bd_metadata::Metadata for Meta {
  fn sdk_version(&self) -> &'static str { "1.0.0" }
  fn platform(&self) -> &Platform { &Platform::Ios }
  fn collect_inner(&self) -> HashMap<String, String> { HashMap::new() }
}

struct Client {
  net: Net,
  tx: tokio::sync::mpsc::Sender<DataUpload>,
  _triggers: tokio::sync::mpsc::Receiver<bd_api::TriggerUpload>,
  run: Pin<Box<dyn Future<Output = bool>>>,
  shutdown: ComponentShutdownTrigger,
  ended: Option<bool>,
  seen: usize,
}

impl Client {
  fn new() -> Self {
    let net = Net::default();
    let (tx, rx) = tokio::sync::mpsc::channel(8);
    let (ttx, trx) = tokio::sync::mpsc::channel(8);
    let shutdown = ComponentShutdownTrigger::default();
    let loader = ConfigLoader::new(Path::new("."));
    let api = Api::new(
      Path::new(".").to_path_buf(),
      "key".to_string(),
      Box::new(net.clone()),
      shutdown.make_shutdown(),
      rx,
      ttx,
      Arc::new(Meta),
      loader,
      vec![],
      Arc::new(bd_time::SystemTimeProvider),
      Arc::new(SimpleNetworkQualityProvider::default()),
      bd_internal_logging::NoopLogger::new(),
      &Collector::default().scope("api"),
    )
    .unwrap();
    Self { net, tx, _triggers: trx, run: Box::pin(bd_api::api::verif_inside::stream(api)), shutdown, ended: None, seen: 0 }
  }

  fn go(&mut self) {
    if self.ended.is_none() {
      self.ended = vh::poll_pinned(self.run.as_mut());
    }
  }

  fn receive(&mut self, r: Vec<Response_type>) {
    let mut encoder = Encoder::<ApiResponse>::new(None);
    let mut data = vec![];
    for t in r {
      data.extend_from_slice(&encoder.encode(&ApiResponse { response_type: Some(t), ..Default::default() }));
    }
    let events = self.net.0.lock().unwrap().events.clone().unwrap();
    let _ = events.try_send(StreamEvent::Data(data));
    self.go();
  }

  fn requests(&mut self) -> Vec<ApiRequest> {
    let sent = std::mem::take(&mut self.net.0.lock().unwrap().sent);
    let mut decoder = Decoder::<ApiRequest>::new(Some(Decompression::StatelessZlib), OptimizeFor::Cpu);
    decoder.decode_data(&sent).unwrap()
  }
}

fn upload(kind: u64, id: &str) -> (DataUpload, Waiting) {
  let u = id.to_string();
  macro_rules! make {
    ($k:ident, $w:ident, $t:ident, $f:ident) => {{
      let (t, rx) = Tracked::new(u.clone(), $t { $f: u, ..Default::default() });
      (DataUpload::$k(t), Waiting::$w(rx))
    }};
  }
  match kind {
    0 => make!(LogsUploadIntentRequest, Intent, LogUploadIntentRequest, intent_uuid),
    1 => make!(LogsUploadRequest, Upload, LogUploadRequest, upload_uuid),
    2 => make!(StatsUploadRequest, Upload, StatsUploadRequest, upload_uuid),
    3 => make!(SankeyPathUploadIntentRequest, Intent, SankeyIntentRequest, intent_uuid),
    4 => {
      let (t, rx) = Tracked::new(u, SankeyPathUploadRequest::default());
      (DataUpload::SankeyPathUpload(t), Waiting::Upload(rx))
    },
    _ => make!(OpaqueRequest, Upload, OpaqueRequest, uuid),
  }
}

fn kind_of(r: &ApiRequest) -> u64 {
  match r.request_type {
    Some(Request_type::LogUploadIntent(_)) => 0,
    Some(Request_type::LogUpload(_)) => 1,
    Some(Request_type::StatsUpload(_)) => 2,
    Some(Request_type::SankeyIntent(_)) => 3,
    Some(Request_type::SankeyPathUpload(_)) => 4,
    Some(Request_type::OpaqueUpload(_)) => 5,
    Some(Request_type::Handshake(_)) => 6,
    _ => 7,
  }
}

fn answer(kind: u64, id: &str, how: u64) -> Response_type {
  let id = id.to_string();
  let yes = how == 0;
  let error = if yes { String::new() } else { "no".to_string() };
  match kind {
    0 => Response_type::LogUploadIntent(LogUploadIntentResponse {
      intent_uuid: id,
      // no decision at all means no
      decision: match how {
        0 => Some(log_upload_intent_response::Decision::UploadImmediately(Default::default())),
        1 => Some(log_upload_intent_response::Decision::Drop(Default::default())),
        _ => None,
      },
      ..Default::default()
    }),
    1 => Response_type::LogUpload(LogUploadResponse { upload_uuid: id, error, ..Default::default() }),
    2 => Response_type::StatsUpload(StatsUploadResponse { upload_uuid: id, error, ..Default::default() }),
    3 => Response_type::SankeyIntentResponse(SankeyIntentResponse {
      intent_uuid: id,
      decision: match how {
        0 => Some(sankey_intent_response::Decision::UploadImmediately(Default::default())),
        1 => Some(sankey_intent_response::Decision::Drop(Default::default())),
        _ => None,
      },
      ..Default::default()
    }),
    4 => Response_type::SankeyDiagramUpload(SankeyPathUploadResponse { upload_uuid: id, error, ..Default::default() }),
    _ => Response_type::OpaqueUpload(OpaqueResponse { uuid: id, error: if yes && how == 0 { None } else { Some(error) }, ..Default::default() }),
  }
}

// a whole stream: requests out, responses in, in any order
vh::entry!(a01_stream, {
  let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
  let _in = rt.enter();
  vh::clock(1000, 0, 1_700_000_000, 0);
  let mut c = Client::new();
  c.go();
  let first = c.requests();
  vh::check(first.len() == 1 && kind_of(&first[0]) == 6, "handshake_first");
  let mut all: Vec<One> = vec![];
  // handed over before the stream is up, or later
  let mut up = false;
  for i in 0 .. vh::param("ops", 4) {
    let op = if i == 0 { 0 } else { vh::choose("op", 4) };
    match op {
      0 => {
        let kind = vh::choose("kind", 6);
        let id = format!("u{}", all.len());
        let (u, waiting) = upload(kind, &id);
        vh::check(c.tx.try_send(u).is_ok(), "room");
        c.go();
        all.push(One { id, waiting, intent: kind == 0 || kind == 3, want: Has::Nothing, told: false, kind });
      },
      1 => {
        if !up {
          up = true;
          c.receive(vec![Response_type::Handshake(HandshakeResponse::default())]);
          c.go();
        }
      },
      2 => {
        if !up { break; }
        // the answer to one of them
        let k = vh::choose("which", all.len() as u64) as usize;
        let o = &mut all[k];
        if o.told { break; }
        let how = vh::choose("how", if o.intent { 3 } else { 2 });
        o.want = if how == 0 { Has::Yes } else { Has::No };
        let (kind, id) = (o.kind, o.id.clone());
        c.receive(vec![answer(kind, &id, how)]);
        vh::reach("answered");
      },
      _ => {
        // the stream ends, some time after it began
        vh::clock(1061 + vh::choose("late", 2), 0, 1_700_000_061, 0);
        let events = c.net.0.lock().unwrap().events.clone().unwrap();
        let _ = events.try_send(StreamEvent::StreamClosed("gone".to_string()));
        c.go();
        if up {
          for o in &mut all {
            if o.want == Has::Nothing { o.want = Has::Dropped; }
          }
          vh::reach("ended");
        }
        settle(&mut all);
        break;
      },
    }
    vh::check(c.ended.is_none(), "keeps_running");
    if up {
      for r in c.requests() {
        let o = all.get(c.seen);
        vh::check(o.is_some_and(|o| o.kind == kind_of(&r)), "sent_in_order");
        c.seen += 1;
      }
      vh::check(c.seen == all.len(), "all_sent");
    } else {
      vh::check(c.requests().is_empty(), "nothing_before_handshake");
    }
    settle(&mut all);
  }
});
