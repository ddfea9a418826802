//! A02: the life of the connection.
use crate::client::Client;
use bd_api::StreamEvent;
use bd_network_quality::{NetworkQuality, NetworkQualityProvider};
use bd_proto::protos::client::api::api_request::Request_type;
use bd_proto::protos::client::api::api_response::Response_type;
use bd_proto::protos::client::api::handshake_response::StreamSettings;
use bd_proto::protos::client::api::{
  ApiRequest, ConfigurationUpdate, ErrorShutdown, FlushBuffers, HandshakeResponse, PongResponse, RuntimeUpdate,
};
use bd_proto::protos::client::runtime::runtime::{value, Value};
use bd_proto::protos::client::runtime::Runtime;
use bd_runtime::runtime::ConfigLoader;
use std::path::Path;
use std::sync::Arc;

const INITIAL: u64 = 500;
const MAX: u64 = 300_000;
const PING: u64 = 10_000;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
  /// the handshake has been sent
  Asking,
  Up,
  /// until some time from then on, and that at the latest
  Waiting(u64, u64),
  Ended(bool),
}

struct Run {
  c: Client,
  rt: &'static tokio::runtime::Runtime,
  /// all the ways to cut and combine what arrives
  vary: bool,
  now: u64,
  st: St,
  /// the latest reason for the end of a stream, not yet passed on
  reason: String,
  up_since: u64,
  /// the first attempt since it was last up
  down_since: Option<u64>,
  ping: Option<u64>,
  pings: bool,
  back: u64,
  initial: u64,
  max: u64,
  changed: Option<(u64, u64)>,
  streams: usize,
  applied: [usize; 2],
  available: usize,
  nonce: [String; 2],
}

impl Run {
  fn new(vary: bool) -> Self {
    let rt: &'static _ = Box::leak(Box::new(tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap()));
    std::mem::forget(rt.enter());
    vh::clock(1000, 0, 1_700_000_000, 0);
    let mut c = Client::new("key", ConfigLoader::new(Path::new(".")), Arc::new(bd_time::SystemTimeProvider), false);
    c.go();
    let mut r = Self {
      c,
      rt,
      vary,
      now: 0,
      st: St::Waiting(0, 0),
      reason: String::new(),
      up_since: 0,
      down_since: None,
      ping: None,
      pings: false,
      back: INITIAL,
      initial: INITIAL,
      max: MAX,
      changed: None,
      streams: 0,
      applied: [0, 0],
      available: 0,
      nonce: Default::default(),
    };
    r.connects();
    r.settle(vec![]);
    r
  }

  /// A new stream is there: it begins with the handshake, and that is all.
  fn connects(&mut self) {
    self.streams += 1;
    vh::check(self.c.streams() == self.streams, "connects");
    vh::check(self.c.net.0.lock().unwrap().key == "key", "key");
    let sent = self.c.requests();
    vh::check(sent.len() == 1, "handshake_alone");
    let Some(Request_type::Handshake(h)) = &sent[0].request_type else { vh::fail("handshake_first") };
    vh::check(h.configuration_version_nonce == self.nonce[0], "nonce");
    vh::check(h.runtime_version_nonce == self.nonce[1], "nonce");
    vh::check(h.previous_disconnect_reason == self.reason, "reason");
    vh::check(h.static_device_metadata["app_id"].string_data() == "app", "metadata");
    if !self.reason.is_empty() { vh::reach("reason"); }
    self.reason.clear();
    self.st = St::Asking;
    if let Some((initial, max)) = self.changed.take() {
      (self.initial, self.max) = (initial, max);
      self.back = initial;
      vh::reach("new_backoff");
    }
    let since = *self.down_since.get_or_insert(self.now);
    let quality = self.c.quality.get_network_quality();
    if since + 15_000 < self.now {
      vh::check(quality == NetworkQuality::Offline, "offline");
      vh::reach("offline");
    } else {
      vh::check(quality == NetworkQuality::Unknown, "not_yet_offline");
    }
  }

  fn wait(&mut self) {
    self.st = St::Waiting(self.now + self.back / 2, self.now + self.back / 2 * 3 + 2);
    self.back = (self.back / 2 * 3).min(self.max);
  }

  /// What it has done since, which is `sent` and nothing else.
  fn settle(&mut self, sent: Vec<&str>) {
    match self.st {
      St::Ended(ok) => vh::check(self.c.ended == Some(ok), if ok { "ends" } else { "gives_up" }),
      _ => vh::check(self.c.ended.is_none(), "keeps_running"),
    }
    vh::check(self.c.streams() == self.streams, "one_stream");
    let got: Vec<String> = self.c.requests().iter().map(name).collect();
    vh::check(got == sent, "sends");
    if self.st == St::Up {
      vh::check(self.c.quality.get_network_quality() == NetworkQuality::Online, "online");
    }
    for i in 0 .. 2 {
      let t = self.c.told[i].lock().unwrap();
      vh::check(t.applied == self.applied[i], "applied");
      vh::check(t.nonce == self.nonce[i], "applied_last");
      vh::check(t.available == self.available, "told_available");
    }
  }

  fn closes(&mut self, reason: &str) {
    self.reason = reason.to_string();
    if self.st == St::Up && self.now - self.up_since > 60_000 {
      // it went well for long enough: at once
      self.back = self.initial;
      self.connects();
      vh::reach("at_once");
    } else {
      self.wait();
    }
  }

  fn config(&mut self, which: usize) -> (Response_type, String) {
    self.applied[which] += 1;
    let nonce = format!("{}{}", ["a", "b"][which], self.applied[which]);
    self.nonce[which] = nonce.clone();
    let ack = format!("{}:{nonce}", ["config", "runtime"][which]);
    let r = if which == 0 {
      Response_type::ConfigurationUpdate(ConfigurationUpdate { version_nonce: nonce, ..Default::default() })
    } else {
      Response_type::RuntimeUpdate(RuntimeUpdate { version_nonce: nonce, ..Default::default() })
    };
    (r, ack)
  }

  fn handshake(&mut self) {
    let ping = vh::choose("pings", 2) == 1;
    let mut settings = StreamSettings::default();
    settings.ping_interval = Some(protobuf::well_known_types::duration::Duration {
      seconds: if ping { (PING / 1000) as i64 } else { [0, -1][self.way("no_pings", 2)] },
      ..Default::default()
    })
    .into();
    let mut h = HandshakeResponse::default();
    if ping || settings.ping_interval.seconds != 0 {
      h.stream_settings = Some(settings).into();
    }
    let mut frames = vec![Response_type::Handshake(h)];
    let mut acks = vec![];
    if self.st == St::Asking {
      self.available += 1;
      self.st = St::Up;
      self.up_since = self.now;
      self.down_since = None;
      self.pings = ping;
      self.ping = ping.then_some(self.now + PING);
      for which in 0 .. 2 {
        if self.way("with", 2) == 1 {
          let (r, ack) = self.config(which);
          frames.push(r);
          acks.push(ack);
        }
      }
      vh::reach("up");
    } else {
      self.st = St::Ended(false);
      vh::reach("spurious_handshake");
    }
    let cut = [0, 1, 6][self.way("cut", 3)];
    self.c.receive(frames, cut);
    if self.st == St::Up {
      for i in 0 .. 2 {
        // whatever came with the handshake is in place by the time they hear of it
        let t = self.c.told[i].lock().unwrap();
        vh::check(t.applied_then == self.applied[i], "available_after_config");
      }
    }
    self.settle(acks.iter().map(String::as_str).collect());
  }

  /// Something else from the server.
  fn response(&mut self, r: Response_type, sent: Vec<&str>) {
    if self.st != St::Up {
      // not before the handshake
      self.st = St::Ended(false);
      vh::reach("too_early");
    }
    let cut = [0, 3][self.way("cut", 2)];
    self.c.receive(vec![r], cut);
    self.settle(sent);
  }

  fn passes(&mut self, by: u64) {
    self.now += by;
    vh::clock(1000 + self.now / 1000, self.now % 1000 * 1_000_000, 1_700_000_000 + self.now / 1000, 0);
    self.rt.block_on(async { tokio::task::yield_now().await });
    self.c.go();
    match self.st {
      St::Waiting(from, to) => {
        if self.c.streams() > self.streams {
          vh::check(self.now >= from, "backs_off");
          self.connects();
          vh::reach("again");
        } else {
          vh::check(self.now < to, "connects_again");
        }
        self.settle(vec![]);
      },
      St::Up if self.ping.is_some_and(|p| self.now > p) => {
        self.ping = None;
        vh::reach("pings");
        self.settle(vec!["ping"]);
      },
      _ => self.settle(vec![]),
    }
  }

  fn way(&self, what: &str, n: u64) -> usize { if self.vary { vh::choose(what, n) as usize } else { 0 } }

  fn stream_there(&self) -> bool { matches!(self.st, St::Asking | St::Up) }

  /// One thing happens; false when there is no sense in it now.
  fn op(&mut self, op: u64) -> bool {
    match op {
      0 => {
        if !self.stream_there() { return false; }
        self.handshake();
      },
      1 => {
        if !self.stream_there() { return false; }
        if self.st == St::Up {
          self.ping = self.pings.then_some(self.now + PING);
        }
        self.response(Response_type::Pong(PongResponse::default()), vec![]);
      },
      2 => {
        if !self.stream_there() { return false; }
        if self.st == St::Up {
          let (r, ack) = self.config(self.way("which", 2));
          self.response(r, vec![&ack]);
        } else {
          self.response(Response_type::RuntimeUpdate(RuntimeUpdate::default()), vec![]);
        }
      },
      3 => {
        if !self.stream_there() { return false; }
        let up = self.st == St::Up;
        let ids: Vec<String> = ["x", "y"].iter().take(2 - self.way("ids", 3)).map(ToString::to_string).collect();
        self.response(
          Response_type::FlushBuffers(FlushBuffers { buffer_id_list: ids.clone(), ..Default::default() }),
          vec![],
        );
        let asked = self.c.triggers.try_recv();
        if up {
          vh::check(asked.is_ok_and(|t| t.buffer_ids == ids), "flush_passed_on");
          vh::reach("flush");
        } else {
          vh::check(asked.is_err(), "no_flush");
        }
      },
      4 => {
        if !self.stream_there() { return false; }
        let r = Response_type::ErrorShutdown(ErrorShutdown {
          grpc_status: [14, 0, 15, 17][self.way("status", 4)],
          grpc_message: "busy".to_string(),
          ..Default::default()
        });
        if self.st == St::Up {
          self.response(r, vec![]);
        } else {
          self.c.receive(vec![r], 0);
          self.closes("error shutdown: busy");
          self.settle(vec![]);
          vh::reach("refused");
        }
      },
      5 => {
        if !self.stream_there() { return false; }
        self.c.event(StreamEvent::StreamClosed("gone".to_string()));
        self.closes("gone");
        self.settle(vec![]);
      },
      6 => self.passes([200, 7_000, 16_000, 61_000][vh::choose("by", 4) as usize]),
      7 => {
        vh::check(self.c.stop(), "all_ended");
        self.st = St::Ended(true);
        self.settle(vec![]);
        vh::reach("stopped");
      },
      8 => {
        if self.changed.is_some() || self.max != MAX { return false; }
        let ms = |n| Value { type_: Some(value::Type::UintValue(n)), ..Default::default() };
        let mut r = Runtime::default();
        r.values.insert("api.initial_backoff_interval_ms".to_string(), ms(4000));
        r.values.insert("api.max_backoff_interval_ms".to_string(), ms(5000));
        self.c.loader.update_snapshot(&RuntimeUpdate { version_nonce: "r".to_string(), runtime: Some(r).into(), ..Default::default() });
        self.changed = Some((4000, 5000));
      },
      _ => {
        // bytes that are no frame at all
        if !self.stream_there() { return false; }
        self.c.event(StreamEvent::Data(vec![2, 0, 0, 0, 0]));
        self.st = St::Ended(false);
        self.settle(vec![]);
      },
    }
    true
  }
}

fn name(r: &ApiRequest) -> String {
  match &r.request_type {
    Some(Request_type::Handshake(_)) => "handshake".to_string(),
    Some(Request_type::Ping(_)) => "ping".to_string(),
    Some(Request_type::ConfigurationUpdateAck(a)) => format!("config:{}", a.last_applied_version_nonce),
    Some(Request_type::RuntimeUpdateAck(a)) => format!("runtime:{}", a.last_applied_version_nonce),
    _ => "other".to_string(),
  }
}

fn drive(r: &mut Run, ops: &[u64], n: u64) {
  for _ in 0 .. n {
    let op = ops[vh::choose("op", ops.len() as u64) as usize];
    if !r.op(op) || matches!(r.st, St::Ended(_)) { return; }
  }
}

// whatever the server does, from the start
vh::entry!(a02_any, {
  let mut r = Run::new(true);
  drive(&mut r, &[0, 1, 2, 3, 4, 5, 6, 7], vh::param("ops", 2));
});

// once it is up
vh::entry!(a02_up, {
  let mut r = Run::new(false);
  r.op(0);
  drive(&mut r, &[1, 2, 3, 4, 6, 7], vh::param("ops", 3));
});

// it goes and comes
vh::entry!(a02_again, {
  let mut r = Run::new(false);
  drive(&mut r, &[5, 6, 4], vh::param("ops", 4));
});

// it was up, and goes
vh::entry!(a02_lost, {
  let mut r = Run::new(false);
  r.op(0);
  drive(&mut r, &[8, 5, 6], vh::param("ops", 4));
  if r.stream_there() && r.op(5) {
    r.op(6);
  }
});

// what came before counts until it has been up for long enough
vh::entry!(a02_reset, {
  let mut r = Run::new(false);
  r.op(8);
  for _ in 0 .. vh::choose("refused", 4) {
    r.op(5);
    r.passes(16_000);
  }
  if !r.stream_there() { return; }
  r.handshake();
  r.passes([7_000, 61_000][vh::choose("lasts", 2) as usize]);
  r.op(5);
  if !r.stream_there() { r.passes(16_000); }
  r.op(5);
  vh::reach("lost_twice");
  for _ in 0 .. 2 {
    if matches!(r.st, St::Waiting(..)) { r.passes([2_250, 7_000][vh::choose("by", 2) as usize]); }
  }
  // and once more
  if !r.stream_there() { return; }
  r.op(5);
  r.passes([2_250, 7_000][vh::choose("by", 2) as usize]);
});
