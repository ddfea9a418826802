//! A03: a client that has been turned off stays off for that long, and no longer.
use crate::client::Client;
use bd_api::StreamEvent;
use bd_proto::protos::client::api::api_response::Response_type;
use bd_proto::protos::client::api::{ErrorShutdown, HandshakeResponse, RuntimeUpdate};
use bd_proto::protos::client::runtime::runtime::{value, Value};
use bd_proto::protos::client::runtime::Runtime;
use bd_runtime::runtime::ConfigLoader;
use std::path::Path;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use time::{Duration, OffsetDateTime};

const FILE: &str = "client_kill_until";

#[derive(Clone)]
struct Now(Arc<Mutex<OffsetDateTime>>);

impl Now {
  fn new() -> Self { Self(Arc::new(Mutex::new(OffsetDateTime::from_unix_timestamp(1_700_000_000).unwrap() + Duration::nanoseconds(5)))) }
  fn get(&self) -> OffsetDateTime { *self.0.lock().unwrap() }
  fn passes(&self, d: Duration) { *self.0.lock().unwrap() += d; }
}

#[async_trait::async_trait]
impl bd_time::TimeProvider for Now {
  fn now(&self) -> OffsetDateTime { self.get() }
  async fn sleep(&self, _: Duration) { std::future::pending().await }
}

fn enter() -> &'static tokio::runtime::Runtime {
  let rt: &'static _ = Box::leak(Box::new(tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap()));
  std::mem::forget(rt.enter());
  passes(rt, 0);
  rt
}

/// Seconds go by.
fn passes(rt: &tokio::runtime::Runtime, by: u64) {
  static PASSED: AtomicU64 = AtomicU64::new(0);
  let t = PASSED.fetch_add(by, Ordering::Relaxed) + by;
  vh::clock(1000 + t, 0, 1_700_000_000 + t, 0);
  if by > 0 { rt.block_on(async { tokio::task::yield_now().await }); }
}

/// What the client has been configured with: how long everyone is to be off, and how long those that are refused.
fn loader(generic: u32, refused: Option<u32>) -> Arc<ConfigLoader> {
  let l = ConfigLoader::new(Path::new("."));
  let ms = |n| Value { type_: Some(value::Type::UintValue(n)), ..Default::default() };
  let mut r = Runtime::default();
  if generic > 0 { r.values.insert("client_kill.generic_kill_duration_ms".to_string(), ms(generic)); }
  if let Some(n) = refused { r.values.insert("client_kill.unauthenticated_kill_duration_ms".to_string(), ms(n)); }
  l.update_snapshot(&RuntimeUpdate { version_nonce: "r".to_string(), runtime: Some(r).into(), ..Default::default() });
  l
}

fn start(key: &str, now: &Now, generic: u32, refused: Option<u32>) -> Client {
  let mut c = Client::new(key, loader(generic, refused), Arc::new(now.clone()), true);
  c.go();
  vh::check(c.ended.is_none(), "runs");
  c
}

/// It stays off, whatever happens, until it is told to end.
fn stays_off(c: &mut Client, rt: &tokio::runtime::Runtime) {
  let streams = c.streams();
  for t in [1, 3600, 200_000] {
    passes(rt, t);
    c.go();
    vh::check(c.streams() == streams, "stays_off");
    vh::check(c.requests().is_empty(), "silent");
    vh::check(c.ended.is_none(), "waits");
  }
  vh::check(c.stop() && c.ended == Some(true), "ends");
}

fn connected(c: &mut Client) {
  vh::check(c.streams() == 1, "connects");
  vh::check(c.requests().len() == 1, "handshake");
}

fn end(mut c: Client) {
  let _ = c.requests();
  vh::check(c.stop() && c.ended == Some(true), "ends");
}

fn file() -> bool { Path::new(FILE).exists() }

const DAY: u32 = 86_400_000;

fn milliseconds(n: u32) -> Duration { Duration::milliseconds(i64::from(n)) }

// refused, then started again later, maybe with another key
vh::entry!(a03_refused, {
  let rt = enter();
  let now = Now::new();
  let given = [None, Some(0), Some(1), Some(1_500), Some(u32::MAX)][vh::choose("duration", 5) as usize];
  let generic = [0, 1_000][vh::choose("generic", 2) as usize];
  let mut until = None;
  let mut by = "key";
  // three runs of it
  for i in 0 .. vh::param("runs", 3) {
    let key = ["key", "other"][if i == 0 { 0 } else { vh::choose("key", 2) as usize }];
    let off = match until {
      Some(t) if t > now.get() && key == by => true,
      Some(_) => { until = None; false },
      None if generic > 0 => {
        until = Some(now.get() + milliseconds(generic));
        by = key;
        vh::reach("off_for_everyone");
        true
      },
      None => false,
    };
    let mut c = start(key, &now, generic, given);
    vh::check(file() == until.is_some(), "file");
    if off {
      vh::check(c.streams() == 0, "off");
      stays_off(&mut c, rt);
      vh::reach("off");
    } else {
      connected(&mut c);
      match vh::choose("says", 3) {
        0 => {
          // any status: only being unauthenticated turns it off
          let status = if i == 0 { vh::u32v("status") as i32 } else { [16, 14][vh::choose("status", 2) as usize] };
          c.receive(vec![Response_type::ErrorShutdown(ErrorShutdown { grpc_status: status, grpc_message: "no".to_string(), ..Default::default() })], 0);
          if status == 16 {
            until = Some(now.get() + given.map_or(milliseconds(DAY), milliseconds));
            by = key;
            vh::check(file(), "kept");
            stays_off(&mut c, rt);
            vh::reach("refused");
          } else {
            vh::check(!file(), "not_off");
            passes(rt, 100);
            c.go();
            vh::check(c.streams() == 2, "tries_again");
            vh::reach("tries_again");
            end(c);
          }
        },
        1 => {
          c.receive(vec![Response_type::Handshake(HandshakeResponse::default())], 0);
          // too late to be refused
          c.receive(vec![Response_type::ErrorShutdown(ErrorShutdown { grpc_status: 16, ..Default::default() })], 0);
          vh::check(!file() && c.ended.is_none(), "accepted");
          vh::reach("accepted");
          end(c);
        },
        _ => {
          c.event(StreamEvent::StreamClosed("unauthenticated".to_string()));
          vh::check(!file() && c.ended.is_none(), "closed");
          end(c);
        },
      }
    }
    // just before the end of it, at the end, just after
    let d = match until {
      Some(t) => (t - now.get()) + Duration::nanoseconds(vh::choose("then", 3) as i64 - 1),
      None => Duration::SECOND,
    };
    now.passes(if d.is_negative() { Duration::ZERO } else { d });
  }
});

// any moment to start again at
vh::entry!(a03_when, {
  let rt = enter();
  let now = Now::new();
  let given = 10_000;
  let mut c = start("key", &now, 0, Some(given));
  connected(&mut c);
  c.receive(vec![Response_type::ErrorShutdown(ErrorShutdown { grpc_status: 16, ..Default::default() })], 0);
  let until = now.get() + milliseconds(given);
  vh::check(c.stop() && c.ended == Some(true), "ends");
  let s = vh::range("seconds", 0, vh::param("seconds", 20)) as i64;
  let ns = vh::range("nanos", 0, 999_999_999) as i32;
  now.passes(Duration::new(s, ns));
  let mut c = start("key", &now, 0, Some(given));
  if now.get() < until {
    vh::check(c.streams() == 0, "off");
    vh::check(file(), "file");
    stays_off(&mut c, rt);
    vh::reach("off");
  } else {
    connected(&mut c);
    vh::check(!file(), "no_file");
    end(c);
    vh::reach("on");
  }
});

// whatever has become of the file
vh::entry!(a03_damaged, {
  let rt = enter();
  let now = Now::new();
  let mut c = start("key", &now, 0, None);
  connected(&mut c);
  c.receive(vec![Response_type::ErrorShutdown(ErrorShutdown { grpc_status: 16, ..Default::default() })], 0);
  vh::check(c.stop(), "ends");
  let mut data = std::fs::read(FILE).unwrap();
  let whole = vh::choose("what", 3);
  match whole {
    0 => {
      data.truncate(vh::choose("cut", data.len() as u64) as usize);
      vh::reach("cut");
    },
    1 => {
      let at = vh::choose("at", data.len() as u64) as usize;
      let bit = vh::choose("bit", 8);
      data[at] ^= 1 << bit;
      vh::reach("flipped");
    },
    _ => {
      data = vec![0; vh::choose("n", 4) as usize];
      vh::bytes(&mut data, "data");
    },
  }
  std::fs::write(FILE, &data).unwrap();
  let generic = [0, 5_000][vh::choose("generic", 2) as usize];
  let mut c = start("key", &now, generic, None);
  if generic == 0 {
    // it is as if there were none
    connected(&mut c);
    end(c);
  } else {
    vh::check(c.streams() == 0, "off");
    stays_off(&mut c, rt);
    now.passes(milliseconds(generic) - Duration::NANOSECOND);
    let mut c = start("key", &now, 0, None);
    vh::check(c.streams() == 0, "written_anew");
    stays_off(&mut c, rt);
  }
});

// it cannot be written, or only in part
vh::entry!(a03_disk, {
  let rt = enter();
  let now = Now::new();
  let generic = [0, 5_000][vh::choose("generic", 2) as usize];
  let l = loader(generic, None);
  let n = vh::choose("room", vh::param("room", 48));
  if vh::choose("how", 2) == 0 { vh::disk_full(n) } else { vh::disk_dies(n) }
  let mut c = Client::new("key", l, Arc::new(now.clone()), true);
  c.go();
  if generic == 0 {
    connected(&mut c);
    c.receive(vec![Response_type::ErrorShutdown(ErrorShutdown { grpc_status: 16, ..Default::default() })], 0);
  } else {
    vh::check(c.streams() == 0, "off");
  }
  // all the same, for this run
  stays_off(&mut c, rt);
  vh::disk_good();
  // and then that depends on what there is now
  let whole = file() && bd_client_common::file::read_compressed_protobuf::<bd_proto::protos::client::api::ClientKillFile>(&std::fs::read(FILE).unwrap()).is_ok();
  let mut c = start("key", &now, 0, None);
  vh::check(c.streams() == usize::from(!whole), "as_written");
  vh::reach(if whole { "written" } else { "not_written" });
  if whole { stays_off(&mut c, rt) } else { end(c) }
});
