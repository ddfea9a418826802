//! The client's end of the connection, with a network that records and two configuration pipelines that do.
use bd_api::api::{Api, SimpleNetworkQualityProvider};
use bd_api::{
  ClientConfigurationUpdate, ConfigurationUpdate, DataUpload, FromResponse, IntoRequest, Platform, PlatformNetworkManager,
  PlatformNetworkStream, RuntimeConfigurationUpdate, StreamEvent, StreamEventSender, TriggerUpload,
};
use bd_client_stats_store::Collector;
use bd_grpc_codec::{Decoder, Decompression, Encoder, OptimizeFor};
use bd_proto::protos::client::api::api_response::Response_type;
use bd_proto::protos::client::api::{
  ApiRequest, ApiResponse, ConfigurationUpdate as Configuration, ConfigurationUpdateAck, HandshakeRequest, RuntimeUpdate,
};
use bd_runtime::runtime::ConfigLoader;
use bd_shutdown::ComponentShutdownTrigger;
use std::collections::HashMap;
use std::future::Future;
use std::path::Path;
use std::pin::Pin;
use std::sync::{Arc, Mutex};

#[derive(Default)]
pub struct Wire {
  pub sent: Vec<u8>,
  pub events: Option<StreamEventSender>,
  pub streams: usize,
  pub key: String,
}

#[derive(Clone, Default)]
pub struct Net(pub Arc<Mutex<Wire>>);

#[async_trait::async_trait]
impl PlatformNetworkManager<ConfigLoader> for Net {
  async fn start_stream(
    &self,
    tx: StreamEventSender,
    _: &ConfigLoader,
    headers: &HashMap<&str, &str>,
  ) -> anyhow::Result<Box<dyn PlatformNetworkStream>> {
    let mut w = self.0.lock().unwrap();
    w.events = Some(tx);
    w.streams += 1;
    w.key = headers.get("x-bitdrift-api-key").unwrap_or(&"").to_string();
    // whatever is left over has not been accounted for
    vh::check(w.sent.is_empty(), "read");
    Ok(Box::new(self.clone()))
  }
}

#[async_trait::async_trait]
impl PlatformNetworkStream for Net {
  async fn send_data(&mut self, data: &[u8]) -> anyhow::Result<()> {
    self.0.lock().unwrap().sent.extend_from_slice(data);
    Ok(())
  }
}

struct Meta;
impl bd_metadata::Metadata for Meta {
  fn sdk_version(&self) -> &'static str { "1.0.0" }
  fn platform(&self) -> &Platform { &Platform::Ios }
  fn collect_inner(&self) -> HashMap<String, String> { HashMap::from([("app_id".to_string(), "app".to_string())]) }
}

/// What a pipeline has been told.
#[derive(Default)]
pub struct Told {
  pub nonce: String,
  pub applied: usize,
  pub available: usize,
  /// how many had been applied when it last heard that the server is there
  pub applied_then: usize,
}

pub struct Pipe {
  pub runtime: bool,
  pub told: Arc<Mutex<Told>>,
}

#[async_trait::async_trait]
impl ConfigurationUpdate for Pipe {
  async fn try_apply_config(&mut self, response: &ApiResponse) -> Option<ApiRequest> {
    let nonce = if self.runtime {
      RuntimeUpdate::from_response(response)?.version_nonce.clone()
    } else {
      Configuration::from_response(response)?.version_nonce.clone()
    };
    let mut t = self.told.lock().unwrap();
    t.nonce = nonce.clone();
    t.applied += 1;
    let ack = ConfigurationUpdateAck { last_applied_version_nonce: nonce, ..Default::default() };
    Some(if self.runtime {
      RuntimeConfigurationUpdate(ack).into_request()
    } else {
      ClientConfigurationUpdate(ack).into_request()
    })
  }

  async fn try_load_persisted_config(&mut self) {}

  fn partial_handshake(&self) -> HandshakeRequest {
    let n = self.told.lock().unwrap().nonce.clone();
    if self.runtime {
      HandshakeRequest { runtime_version_nonce: n, ..Default::default() }
    } else {
      HandshakeRequest { configuration_version_nonce: n, ..Default::default() }
    }
  }

  fn on_handshake_complete(&self) {
    let mut t = self.told.lock().unwrap();
    t.available += 1;
    t.applied_then = t.applied;
  }
}

pub struct Client {
  pub net: Net,
  pub tx: tokio::sync::mpsc::Sender<DataUpload>,
  pub triggers: tokio::sync::mpsc::Receiver<TriggerUpload>,
  pub run: Option<Pin<Box<dyn Future<Output = bool>>>>,
  pub shutdown: Option<ComponentShutdownTrigger>,
  pub ended: Option<bool>,
  pub told: [Arc<Mutex<Told>>; 2],
  pub quality: Arc<SimpleNetworkQualityProvider>,
  pub loader: Arc<ConfigLoader>,
}

impl Client {
  /// `from_start`: as the SDK starts it, otherwise from where it begins to connect.
  pub fn new(key: &str, loader: Arc<ConfigLoader>, time: Arc<dyn bd_time::TimeProvider>, from_start: bool) -> Self {
    let net = Net::default();
    let (tx, rx) = tokio::sync::mpsc::channel(8);
    let (ttx, triggers) = tokio::sync::mpsc::channel(8);
    let shutdown = ComponentShutdownTrigger::default();
    let told: [Arc<Mutex<Told>>; 2] = Default::default();
    let quality = Arc::new(SimpleNetworkQualityProvider::default());
    let api = Api::new(
      Path::new(".").to_path_buf(),
      key.to_string(),
      Box::new(net.clone()),
      shutdown.make_shutdown(),
      rx,
      ttx,
      Arc::new(Meta),
      loader.clone(),
      vec![
        Box::new(Pipe { runtime: false, told: told[0].clone() }),
        Box::new(Pipe { runtime: true, told: told[1].clone() }),
      ],
      time,
      quality.clone(),
      bd_internal_logging::NoopLogger::new(),
      &Collector::default().scope("api"),
    )
    .unwrap();
    let run: Pin<Box<dyn Future<Output = bool>>> = if from_start {
      Box::pin(async move { api.start().await.is_ok() })
    } else {
      Box::pin(bd_api::api::verif_inside::stream(api))
    };
    Self { net, tx, triggers, run: Some(run), shutdown: Some(shutdown), ended: None, told, quality, loader }
  }

  pub fn go(&mut self) {
    for _ in 0 .. 12 {
      let Some(run) = self.run.as_mut() else { return };
      self.ended = vh::poll_pinned(run.as_mut());
      if self.ended.is_some() {
        self.run = None;
      }
    }
  }

  pub fn event(&mut self, e: StreamEvent) {
    let events = self.net.0.lock().unwrap().events.clone().unwrap();
    let _ = events.try_send(e);
    self.go();
  }

  /// Hands over the frames of these, in one piece or in two.
  pub fn receive(&mut self, r: Vec<Response_type>, cut: usize) {
    let mut encoder = Encoder::<ApiResponse>::new(None);
    let mut data = vec![];
    for t in r {
      data.extend_from_slice(&encoder.encode(&ApiResponse { response_type: Some(t), ..Default::default() }));
    }
    if cut > 0 {
      let rest = data.split_off(cut.min(data.len()));
      self.event(StreamEvent::Data(data));
      vh::check(self.ended.is_none(), "waits_for_the_rest");
      vh::check(self.net.0.lock().unwrap().sent.is_empty(), "waits_for_the_rest");
      data = rest;
    }
    self.event(StreamEvent::Data(data));
  }

  pub fn requests(&mut self) -> Vec<ApiRequest> {
    let sent = std::mem::take(&mut self.net.0.lock().unwrap().sent);
    let mut decoder = Decoder::<ApiRequest>::new(Some(Decompression::StatelessZlib), OptimizeFor::Cpu);
    decoder.decode_data(&sent).unwrap()
  }

  pub fn streams(&self) -> usize { self.net.0.lock().unwrap().streams }

  /// Asks it to end, and says whether everything that was asked to had.
  pub fn stop(&mut self) -> bool {
    let Some(t) = self.shutdown.take() else { return false };
    let mut all = Box::pin(t.shutdown());
    let _ = vh::poll_pinned(all.as_mut());
    self.go();
    vh::poll_pinned(all.as_mut()).is_some()
  }
}
