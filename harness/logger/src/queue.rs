//! L12: from the app's calls to the pipeline.
use bd_client_common::error::UnexpectedErrorHandler;
use bd_client_stats_store::Collector;
use bd_key_value::{Storage, Store};
use bd_log_primitives::{log_level, AnnotatedLogField, AnnotatedLogFields, Log, LogField, LogFieldKind};
use bd_logger::verif_inside::{Override, Parts, Queue, Running, Update};
use bd_logger::{LoggerHandle, MetadataProvider};
use bd_network_quality::{NetworkQuality, NetworkQualityProvider};
use bd_proto::flatbuffers::buffer_log::bitdrift_public::fbs::logging::v_1::LogType;
use bd_proto::protos::client::api::RuntimeUpdate;
use bd_proto::protos::client::runtime::runtime::{value, Value};
use bd_proto::protos::client::runtime::Runtime;
use bd_runtime::runtime::ConfigLoader;
use bd_shutdown::ComponentShutdownTrigger;
use std::path::Path;
use std::sync::{Arc, Mutex};
use time::{Duration, OffsetDateTime};

struct Quiet;
impl bd_client_common::error::Reporter for Quiet {
  fn report(&self, _: &str, _: &Option<String>, _: &std::collections::HashMap<std::borrow::Cow<'_, str>, std::borrow::Cow<'_, str>>) {}
}

#[derive(Clone, Default)]
struct Mem(Arc<Mutex<Vec<(String, String)>>>);
impl Storage for Mem {
  fn set_string(&self, key: &str, value: &str) -> anyhow::Result<()> {
    let mut g = self.0.lock().unwrap();
    g.retain(|(k, _)| k != key);
    g.push((key.to_string(), value.to_string()));
    Ok(())
  }
  fn get_string(&self, key: &str) -> anyhow::Result<Option<String>> { Ok(self.0.lock().unwrap().iter().find(|(k, _)| k == key).map(|(_, v)| v.clone())) }
  fn delete(&self, key: &str) -> anyhow::Result<()> {
    self.0.lock().unwrap().retain(|(k, _)| k != key);
    Ok(())
  }
}

#[derive(Default)]
struct Sessions(Mutex<u32>);
impl bd_session::fixed::Callbacks for Sessions {
  fn generate_session_id(&self) -> anyhow::Result<String> {
    let mut n = self.0.lock().unwrap();
    *n += 1;
    Ok(format!("s{n}"))
  }
}

struct Nothing;
impl bd_resource_utilization::Target for Nothing {
  fn tick(&self) {}
}
impl bd_session_replay::Target for Nothing {
  fn capture_screen(&self) {}
  fn capture_screenshot(&self) {}
}
impl bd_events::ListenerTarget for Nothing {
  fn start(&self) {}
  fn stop(&self) {}
}
impl NetworkQualityProvider for Nothing {
  fn get_network_quality(&self) -> NetworkQuality { NetworkQuality::Unknown }
  fn set_network_quality(&self, _: NetworkQuality) {}
}

/// The platform's fields and clock: one second later each time; it may fail once, and may try to use the logger.
#[derive(Default)]
struct Platform {
  asked: Mutex<u32>,
  fails: Option<u32>,
  uses: Mutex<Option<Arc<LoggerHandle>>>,
}
impl MetadataProvider for Platform {
  fn timestamp(&self) -> anyhow::Result<OffsetDateTime> {
    let mut n = self.asked.lock().unwrap();
    *n += 1;
    if self.fails == Some(*n) { anyhow::bail!("no clock"); }
    Ok(at(*n))
  }
  fn fields(&self) -> anyhow::Result<AnnotatedLogFields> {
    let uses = self.uses.lock().unwrap().clone();
    if let Some(l) = uses {
      vh::reach("used_by_the_platform");
      l.log(log_level::ERROR, LogType::Normal, "again".into(), vec![], vec![], None, true);
      l.add_log_field(field("k", "again"));
      l.remove_log_field("k");
      l.start_new_session();
    }
    Ok(vec![AnnotatedLogField { field: field("p", "platform"), kind: LogFieldKind::Ootb }])
  }
}

fn at(n: u32) -> OffsetDateTime { OffsetDateTime::UNIX_EPOCH + Duration::seconds(i64::from(n)) }
fn field(k: &str, v: &str) -> LogField { LogField { key: k.to_string(), value: v.into() } }
fn custom(k: &str, v: &str) -> AnnotatedLogField { AnnotatedLogField { field: field(k, v), kind: LogFieldKind::Custom } }

type Seen = Arc<Mutex<Vec<Log>>>;

struct World {
  // tasks and timers go nowhere
  rt: &'static tokio::runtime::Runtime,
  seen: Seen,
  platform: Arc<Platform>,
  stats: Collector,
}

fn none() -> Update { Update { buffers: vec![], selection: Default::default(), workflows: Default::default(), tails: Default::default(), tail: None, filters: Default::default() } }

impl World {
  fn new(before: bool, fails: Option<u32>, count: usize, refuses: bool, flags: &[&str]) -> (Self, Queue) {
    UnexpectedErrorHandler::set_reporter(Arc::new(Quiet));
    vh::clock(1000, 0, 1_700_000_000, 0);
    let rt: &'static _ = Box::leak(Box::new(tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap()));
    std::mem::forget(rt.enter());
    let runtime = ConfigLoader::new(Path::new("run"));
    let mut r = Runtime::default();
    for f in flags { r.values.insert((*f).to_string(), Value { type_: Some(value::Type::BoolValue(true)), ..Default::default() }); }
    runtime.update_snapshot(&RuntimeUpdate { version_nonce: "n".to_string(), runtime: Some(r).into(), ..Default::default() });
    let mem = Mem::default();
    let store = Arc::new(Store::new(Box::new(mem)));
    let callbacks = Arc::new(Sessions::default());
    let session = || Arc::new(bd_session::Strategy::Fixed(bd_session::fixed::Strategy::new(store.clone(), callbacks.clone())));
    // the process before had session s1
    if before { session().session_id(); } else { *callbacks.0.lock().unwrap() = 1; }
    let seen = Seen::default();
    let stats = Collector::default();
    let platform = Arc::new(Platform { fails, ..Default::default() });
    let to = seen.clone();
    let q = Queue::new(Parts {
      replayer: Box::new(move |l, done| {
        to.lock().unwrap().push(l);
        if refuses && vh::choose("refused", 2) == 1 {
          vh::reach("refused");
          anyhow::bail!("no");
        }
        if let Some(d) = done { let _ = d.send(()); }
        Ok(())
      }),
      session: session(),
      metadata: platform.clone(),
      resources: Box::new(Nothing),
      replay: Box::new(Nothing),
      events: Box::new(Nothing),
      network: Arc::new(Nothing),
      runtime,
      scope: stats.scope(""),
      count,
      size: 1 << 20,
      store: store.clone(),
      no_stats: false,
    });
    (Self { rt, seen, platform, stats }, q)
  }
}

#[derive(Clone, PartialEq, Debug)]
struct Said {
  message: String,
  session: String,
  at: u32,
  k: Option<String>,
  platform: bool,
  logged_at: Option<String>,
  level: u32,
  typ: LogType,
}

fn said(l: &Log) -> Said {
  let get = |k: &str| l.fields.iter().find(|f| f.key == k).map(|f| f.value.as_str().unwrap().to_string());
  Said {
    message: l.message.as_str().unwrap().to_string(),
    session: l.session_id.clone(),
    at: (l.occurred_at - OffsetDateTime::UNIX_EPOCH).whole_seconds() as u32,
    k: get("k"),
    platform: get("p").is_some(),
    logged_at: get("_logged_at"),
    level: l.log_level,
    typ: l.log_type,
  }
}

#[derive(Clone)]
enum Call {
  Log { message: String, own: Option<&'static str>, typ: LogType, level: u32, claims: Option<&'static str> },
  Add(String),
  Remove,
}

#[derive(Default)]
struct Model {
  waits: Vec<Call>,
  room: usize,
  refused: usize,
  k: Option<String>,
  /// sessions so far
  session: Option<u32>,
  sessions: u32,
  before: bool,
  fails: Option<u32>,
  asked: u32,
  configured: bool,
  pre: Vec<Said>,
  out: Vec<Said>,
}

impl Model {
  fn call(&mut self, c: Call) {
    if self.waits.len() < self.room { self.waits.push(c); } else {
      self.refused += 1;
      vh::reach("no_room");
    }
  }
  fn session(&mut self) -> String {
    if self.session.is_none() { self.new_session(); }
    format!("s{}", self.session.unwrap())
  }
  fn new_session(&mut self) {
    self.sessions += 1;
    self.session = Some(self.sessions + 1);
  }
  fn say(&mut self, s: Said) {
    if self.configured { self.out.push(s); } else if self.pre.len() < self.room { self.pre.push(s); } else { vh::reach("too_many_early"); }
  }
  fn configure(&mut self) {
    self.configured = true;
    if !self.pre.is_empty() { vh::reach("replayed"); }
    self.out.append(&mut self.pre);
  }
  fn work(&mut self) {
    for c in std::mem::take(&mut self.waits) {
      match c {
        Call::Add(v) => self.k = Some(v),
        Call::Remove => self.k = None,
        Call::Log { message, own, typ, level, claims } => {
          self.asked += 1;
          if self.fails == Some(self.asked) {
            vh::reach("no_clock");
            continue;
          }
          let n = self.asked;
          let mut s = Said {
            message,
            session: String::new(),
            at: n,
            k: own.map(ToString::to_string).or_else(|| self.k.clone()),
            platform: typ == LogType::Normal,
            logged_at: None,
            level,
            typ,
          };
          match claims {
            None => s.session = self.session(),
            Some(c) if self.before && c == "s1" => {
              vh::reach("of_the_process_before");
              s.session = c.to_string();
              s.logged_at = Some(at(n).to_string());
              s.at = 500;
            },
            Some(_) => {
              vh::reach("not_of_the_process_before");
              s.session = self.session();
              s.message = "failed to override log attributes, provided override attributes do not match expectations".to_string();
              s.level = log_level::WARNING;
              s.typ = LogType::InternalSDK;
            },
          }
          self.say(s);
        },
      }
    }
  }
}

fn check(w: &World, m: &Model) { vh::check(w.seen.lock().unwrap().iter().map(said).collect::<Vec<_>>() == m.out, "those_and_in_order"); }

vh::entry!(l12_order, {
  let count = vh::param("count", 4) as usize;
  let late = vh::param("late", 0) == 1;
  let plain = vh::param("plain", 0) == 1;
  let before = plain || vh::choose("before", 2) == 1;
  let fails = [None, Some(1), Some(2)][if plain { 0 } else { vh::choose("fails", 3) as usize }];
  let (w, q) = World::new(before, fails, count, vh::param("refuses", 0) == 1, &[]);
  let trigger = ComponentShutdownTrigger::default();
  let Running { mut task, app, logger, .. } = q.run(trigger.make_shutdown());
  let l = Arc::new(logger.new_logger_handle());
  if !plain && vh::choose("uses", 2) == 1 { *w.platform.uses.lock().unwrap() = Some(l.clone()); }
  let mut m = Model { room: count, before, fails, ..Default::default() };
  // how the two queues take turns
  vh_select::fresh(vh::param("turns", 0) as u32);
  for i in 0 .. vh::param("ops", 3) {
    let message = format!("m{i}");
    let mut log = |own: Option<&'static str>, typ, level, claims: Option<&'static str>| {
      let fields = own.map(|o| custom("k", o)).into_iter().collect();
      let o = claims.map(|c| Override { expected_previous_process_session_id: c.to_string(), occurred_at: at(500) });
      l.log(level, typ, message.as_str().into(), fields, vec![], o, false);
      m.call(Call::Log { message: message.clone(), own, typ, level, claims });
    };
    match vh::choose("op", if late { 8 } else { 9 }) {
      0 => log(None, LogType::Normal, log_level::INFO, None),
      1 => log(Some("own"), LogType::Normal, log_level::DEBUG, None),
      2 => log(None, LogType::Resource, log_level::TRACE, None),
      3 => log(None, LogType::Normal, log_level::ERROR, Some("s1")),
      4 => log(None, LogType::Normal, log_level::ERROR, Some("s2")),
      5 => {
        l.add_log_field(field("k", &message));
        m.call(Call::Add(message));
      },
      6 => {
        l.remove_log_field("k");
        m.call(Call::Remove);
      },
      7 => {
        l.start_new_session();
        m.new_session();
      },
      _ => {
        vh::check(app.configure(none()), "configured");
        m.configure();
      },
    }
    if vh::choose("turn", 2) == 1 {
      vh::check(vh::poll_pinned(task.as_mut()).is_none(), "goes_on");
      m.work();
      check(&w, &m);
    }
  }
  if late {
    vh::check(vh::poll_pinned(task.as_mut()).is_none(), "goes_on");
    m.work();
    check(&w, &m);
  }
  vh::check(app.configure(none()), "configured");
  vh::check(vh::poll_pinned(task.as_mut()).is_none(), "goes_on");
  m.configure();
  m.work();
  check(&w, &m);
  // one that no longer fits was counted
  let stats = w.stats.scope("logger").scope("async_log_buffer");
  let lost: u64 = ["log_enqueueing", "field_additions", "field_removals"]
    .iter()
    .map(|n| stats.counter_with_labels(n, bd_stats_common::labels!("result" => "failure_count_overflow")).get())
    .sum();
  vh::check(lost == m.refused as u64, "counted");
  // ends when told to
  drop(w);
  let mut end = std::pin::pin!(trigger.shutdown());
  vh::check(vh::poll_pinned(end.as_mut()).is_none(), "waits_for_it");
  vh::check(vh::poll_pinned(task.as_mut()).is_some(), "ends");
  drop(task);
  vh::check(vh::poll_pinned(end.as_mut()).is_some(), "ended");
});

// everything that is there is flushed before the answer
vh::entry!(l12_flush, {
  let (w, q) = World::new(false, None, 4, false, &[]);
  let trigger = ComponentShutdownTrigger::default();
  let Running { mut task, app, logger, mut flushes, mut stats } = q.run(trigger.make_shutdown());
  let l = logger.new_logger_handle();
  let log = |m: &str| l.log(log_level::INFO, LogType::Normal, m.into(), vec![], vec![], None, false);
  let names = || w.seen.lock().unwrap().iter().map(|l| l.message.as_str().unwrap().to_string()).collect::<Vec<_>>();
  if vh::choose("configured", 2) == 1 {
    app.configure(none());
    vh::poll_pinned(task.as_mut());
    vh::reach("configured");
  }
  log("first");
  let mut done = std::pin::pin!(app.flush().recv());
  log("second");
  let gone = [vh::choose("no_stats", 2) == 1, vh::choose("no_buffers", 2) == 1];
  if gone[0] { stats.close(); }
  if gone[1] { flushes.close(); }
  vh::poll_pinned(task.as_mut());
  if !gone[0] {
    let Ok(Some(a)) = stats.try_recv() else { vh::fail("stats_are_flushed") };
    vh::check(flushes.try_recv().is_err(), "buffers_after_stats");
    vh::check(vh::poll_pinned(done.as_mut()).is_none(), "not_yet");
    vh::poll_pinned(task.as_mut());
    vh::check(flushes.try_recv().is_err(), "buffers_after_stats");
    if vh::choose("answers", 2) == 1 { a.send(()); } else { drop(a); }
    vh::poll_pinned(task.as_mut());
  }
  if !gone[1] {
    let Ok(b) = flushes.try_recv() else { vh::fail("buffers_are_flushed") };
    let (all, a) = bd_buffer::verif_inside::open(b);
    vh::check(all.is_empty(), "all_of_them");
    vh::check(vh::poll_pinned(done.as_mut()).is_none(), "not_yet");
    vh::poll_pinned(task.as_mut());
    vh::check(vh::poll_pinned(done.as_mut()).is_none(), "not_yet");
    vh::check(!names().contains(&"second".to_string()), "nothing_else_meanwhile");
    let Some(a) = a else { vh::fail("waits_for_them") };
    if vh::choose("answers", 2) == 1 { a.send(()); } else { drop(a); }
    vh::poll_pinned(task.as_mut());
    vh::reach("waited");
  }
  vh::check(matches!(vh::poll_pinned(done.as_mut()), Some(Ok(()))), "answered");
  app.configure(none());
  vh::poll_pinned(task.as_mut());
  vh::check(names() == ["first", "second"], "logs");
});

// who waits for a log waits until it was passed on, and no longer
vh::entry!(l12_waits, {
  let fails = [None, Some(1)][vh::choose("fails", 2) as usize];
  let configured = vh::choose("configured", 2) == 1;
  let (w, q) = World::new(false, fails, 1, true, &[]);
  let trigger = ComponentShutdownTrigger::default();
  let Running { task, app, logger, flushes, stats } = q.run(trigger.make_shutdown());
  // nobody to flush anything
  drop((flushes, stats));
  if configured { app.configure(none()); }
  let l = logger.new_logger_handle();
  let both = Mutex::new((Some(task), Some(trigger)));
  vh::par(2, &|i| {
    if i == 0 {
      let task = both.lock().unwrap().0.take().unwrap();
      let _in = w.rt.enter();
      vh::block_on(task);
      return;
    }
    let trigger = both.lock().unwrap().1.take().unwrap();
    l.log(log_level::INFO, LogType::Normal, "m".into(), vec![], vec![], None, true);
    if configured && fails.is_none() {
      vh::check(w.seen.lock().unwrap().len() == 1, "passed_on");
      vh::reach("passed_on");
    } else {
      vh::check(w.seen.lock().unwrap().is_empty(), "kept");
      vh::reach("kept");
    }
    l.flush_state(true);
    vh::block_on(trigger.shutdown());
  });
});

const TYPES: [LogType; 8] = [LogType::Normal, LogType::Resource, LogType::Replay, LogType::Lifecycle, LogType::Span, LogType::InternalSDK, LogType::Device, LogType::View];
const NAMES: [&str; 7] = ["normal", "resource", "replay", "lifecycle", "network", "internal", "device"];

// a resource log says how many logs of each type there were, since the last one that did and in all
vh::entry!(l12_counted, {
  let on = vh::choose("on", 2) == 1;
  let (w, q) = World::new(false, None, 4, false, if on { &["internal_logging.periodic_logs.enabled"] } else { &[] });
  let trigger = ComponentShutdownTrigger::default();
  let Running { mut task, app, logger, .. } = q.run(trigger.make_shutdown());
  let l = logger.new_logger_handle();
  app.configure(none());
  let mut counts = [[0u32; 9]; 2];
  for _ in 0 .. vh::param("logs", 3) {
    let t = vh::choose("type", 8) as usize;
    let message = ["", "m"][vh::choose("message", 2) as usize];
    l.log(log_level::INFO, TYPES[t], message.into(), vec![], vec![], None, false);
    vh::poll_pinned(task.as_mut());
    for c in &mut counts {
      c[t] += 1;
      c[8] += 1;
    }
    let log = w.seen.lock().unwrap().pop().unwrap();
    let get = |k: String| log.fields.iter().find(|f| f.key == k).map(|f| f.value.as_str().unwrap().to_string());
    let says = on && t == 1 && message.is_empty();
    for (i, name) in NAMES.iter().map(|n| format!("{n}_")).chain([String::new()]).enumerate() {
      let i = if i == 7 { 8 } else { i };
      vh::check(get(format!("_{name}logs_count")) == says.then(|| counts[0][i].to_string()), "since_the_last");
      vh::check(get(format!("_{name}logs_total_count")) == says.then(|| counts[1][i].to_string()), "in_all");
    }
    if says {
      if counts[0] != counts[1] { vh::reach("again"); }
      counts[0] = [0; 9];
      vh::reach("says");
    }
  }
});
