//! B09: the buffers there are, and requests to flush them.
use bd_buffer::{BufferEvent, BufferEventWithResponse, BuffersWithAck, Manager};
use bd_buffer::verif_inside::Ring;
use bd_client_stats_store::Collector;
use bd_proto::protos::config::v1::config::buffer_config::{BufferSizes, Type};
use bd_proto::protos::config::v1::config::{BufferConfig, BufferConfigList};
use bd_runtime::runtime::ConfigLoader;
use std::collections::BTreeMap;
use std::path::Path;
use std::pin::pin;
use std::sync::{Arc, Mutex};
use tokio::sync::mpsc::Receiver;

const NAMES: [(&str, Type); 2] = [("a", Type::CONTINUOUS), ("b", Type::TRIGGER)];

fn file(id: &str) -> String { format!("buffers/{id}") }
fn there(id: &str) -> bool { Path::new(&file(id)).exists() }

fn buffer(id: &str, kind: Option<Type>, volatile: u32) -> BufferConfig {
  BufferConfig {
    id: id.to_string(),
    name: id.to_string(),
    type_: kind.map_or_else(|| protobuf::EnumOrUnknown::from_i32(7), Into::into),
    buffer_sizes: Some(BufferSizes { volatile_buffer_size_bytes: volatile, non_volatile_buffer_size_bytes: 160, ..Default::default() }).into(),
    ..Default::default()
  }
}

fn manager(stats: &Collector) -> (Arc<Manager>, Receiver<BufferEventWithResponse>) {
  let _ = std::fs::remove_dir_all("buffers");
  std::fs::create_dir_all("buffers").unwrap();
  Manager::new("buffers".into(), &stats.scope(""), &ConfigLoader::new(Path::new("buffers")))
}

struct Quiet;
impl bd_client_common::error::Reporter for Quiet {
  fn report(&self, _: &str, _: &Option<String>, _: &std::collections::HashMap<std::borrow::Cow<'_, str>, std::borrow::Cow<'_, str>>) {}
}

// the uploader: what it holds on to
#[derive(Default)]
struct Seen {
  holds: BTreeMap<String, Arc<Ring>>,
  events: Vec<(&'static str, String)>,
}

vh::entry!(b09_config, {
  bd_client_common::error::UnexpectedErrorHandler::set_reporter(Arc::new(Quiet));
  vh_thread::run_when_joined();
  let stats = Collector::default();
  let (m, mut events) = manager(&stats);
  let mut seen = Seen::default();
  let mut now: BTreeMap<&str, Arc<Ring>> = BTreeMap::new();
  let mut live = false;
  // what loggers write through: until they hear of the next configuration, or for longer
  let mut producers: Vec<(&str, bd_buffer::Producer)> = vec![];
  for _ in 0 .. vh::param("n", 3) {
    let mut wanted: Vec<BufferConfig> = NAMES.iter().filter(|_| vh::choose("wanted", 2) == 1).map(|(n, t)| buffer(n, Some(*t), 100)).collect();
    let ids: Vec<&str> = NAMES.iter().map(|n| n.0).filter(|n| wanted.iter().any(|w| w.id == *n)).collect();
    let bad = vh::choose("bad", 4);
    match bad {
      // a kind nobody knows
      1 => wanted.push(buffer("x", None, 100)),
      2 => wanted.insert(0, buffer("x", None, 100)),
      // more memory than disk
      3 => wanted.push(buffer("x", Some(Type::TRIGGER), 1000)),
      _ => {},
    }
    let live_now = vh::choose("live", 2) == 1;
    let list = BufferConfigList { buffer_config: wanted, ..Default::default() };
    let r = {
      let mut f = pin!(m.update_from_config(&list, live_now));
      seen.events.clear();
      let mut pending = vec![];
      let mut r = vh::poll_pinned(f.as_mut());
      while r.is_none() {
        if let Ok(e) = events.try_recv() {
          pending.push(e);
        } else {
          // all of them are out; it waits for each of them
          let Some(e) = (!pending.is_empty()).then(|| pending.remove(0)) else { vh::fail("stuck") };
          match &e.event {
            BufferEvent::ContinuousBufferCreated(n, b) => {
              seen.events.push(("continuous", n.clone()));
              vh::check(seen.holds.insert(n.clone(), b.clone()).is_none(), "created_once");
            },
            BufferEvent::TriggerBufferCreated(n, b) => {
              seen.events.push(("trigger", n.clone()));
              vh::check(seen.holds.insert(n.clone(), b.clone()).is_none(), "created_once");
            },
            BufferEvent::BufferRemoved(n) => {
              seen.events.push(("removed", n.clone()));
              vh::check(seen.holds.remove(n).is_some(), "only_what_was_created");
            },
            BufferEvent::StreamBufferAdded(_) => seen.events.push(("live", String::new())),
            BufferEvent::StreamBufferRemoved(_) => seen.events.push(("not_live", String::new())),
          }
          drop(e);
        }
        r = vh::poll_pinned(f.as_mut());
      }
      vh::check(pending.is_empty() && events.is_empty(), "told_before_it_is_over");
      r.unwrap()
    };
    let after = m.buffers();
    match r {
      Ok(stream) => {
        vh::check(bad == 0, "refused");
        let mut expected: Vec<(&str, String)> = now.keys().filter(|k| !ids.contains(k)).map(|k| ("removed", k.to_string())).collect();
        for (n, t) in NAMES {
          if ids.contains(&n) && !now.contains_key(n) { expected.push((if t == Type::CONTINUOUS { "continuous" } else { "trigger" }, n.to_string())); }
        }
        if live_now != live { expected.push((if live_now { "live" } else { "not_live" }, String::new())); }
        seen.events.sort();
        expected.sort();
        vh::check(seen.events == expected, "told_what_changed");
        vh::check(after.len() == ids.len() && ids.iter().all(|n| after.contains_key(*n)), "those_configured");
        for (n, t) in NAMES {
          let Some((kind, b)) = after.get(n) else { continue };
          vh::check(*kind == t && there(n), "as_configured");
          if let Some(old) = now.get(n) {
            vh::check(Arc::ptr_eq(old, b), "kept");
            vh::reach("kept");
          }
        }
        vh::check(stream.is_some() == live_now && m.stream_buffer().is_some() == live_now, "live");
        let gone: Vec<&str> = now.keys().copied().filter(|k| !ids.contains(k)).collect();
        now = ids.iter().map(|n| (*n, after[*n].1.clone())).collect();
        drop(after);
        live = live_now;
        for n in gone {
          vh::check(!there(n), "removed_from_disk");
          vh::reach("removed");
        }
        if vh::choose("slow", 2) == 0 { producers.clear(); }
        for (n, b) in &now {
          producers.push((*n, b.new_thread_local_producer().unwrap_or_else(|_| vh::fail("producer"))));
        }
        vh::reach("applied");
      },
      Err(_) => {
        vh::check(bad != 0, "applied");
        vh::check(seen.events.is_empty(), "nothing_told");
        vh::check(after.len() == now.len() && now.iter().all(|(n, b)| after.get(*n).map_or(false, |x| Arc::ptr_eq(&x.1, b)) && there(n)), "as_before");
        vh::check(m.stream_buffer().is_some() == live, "as_before");
        vh::reach("refused");
      },
    }
  }
});

// buffer a has a record in memory: requests to flush, some for a buffer that is not there any more
vh::entry!(b09_flush, {
  bd_client_common::error::UnexpectedErrorHandler::set_reporter(Arc::new(Quiet));
  vh_thread::run_when_joined();
  let stats = Collector::default();
  let (m, mut events) = manager(&stats);
  {
    let list = BufferConfigList { buffer_config: NAMES.iter().map(|(n, t)| buffer(n, Some(*t), 100)).collect(), ..Default::default() };
    let mut f = pin!(m.update_from_config(&list, false));
    while vh::poll_pinned(f.as_mut()).is_none() { drop(events.try_recv()); }
  }
  const ASK: [&[&str]; 6] = [&[], &["a"], &["b", "a"], &["gone", "a"], &["a", "gone"], &["gone"]];
  let first = vh::choose("first", 6) as usize;
  let mut p = m.buffers()["a"].1.new_thread_local_producer().unwrap_or_else(|_| vh::fail("producer"));
  let hold = Mutex::new(Some((m, events)));
  vh::check(p.write(b"one").is_ok(), "written");
  drop(p);
  vh::par(2, &|i| {
    if i == 0 {
      vh_thread::run_next();
      return;
    }
    let (m, _events) = hold.lock().unwrap().take().unwrap();
    let (tx, rx) = tokio::sync::mpsc::channel(4);
    {
      let mut f = pin!(m.process_flushes(rx));
      vh::check(vh::poll_pinned(f.as_mut()).is_none(), "waits");
      let mut read = false;
      for ask in [ASK[first], &["a"]] {
        let (done, answer) = bd_completion::Sender::new();
        let request = BuffersWithAck::new(ask.iter().map(|s| (*s).to_string()).collect(), Some(done));
        vh::check(tx.try_send(request).is_ok(), "taken");
        let over = vh::poll_pinned(f.as_mut()).is_some();
        vh::check(!over, "goes_on");
        let mut answer = pin!(answer.recv());
        vh::check(matches!(vh::poll_pinned(answer.as_mut()), Some(Ok(()))), "answered");
        if !read && (ask.is_empty() || ask.contains(&"a")) {
          read = true;
          let b = m.buffers()["a"].1.clone();
          let mut c = b.create_continous_consumer().unwrap_or_else(|_| vh::fail("consumer"));
          let mut r = pin!(c.read());
          let Some(Ok(data)) = vh::poll_pinned(r.as_mut()) else { vh::fail("what_was_there_before_is_on_disk") };
          vh::check(data == b"one", "what_was_there_before_is_on_disk");
          vh::reach("flushed");
        }
      }
      drop(tx);
      vh::check(matches!(vh::poll_pinned(f.as_mut()), Some(Ok(()))), "over");
    }
    if ASK[first].contains(&"gone") { vh::reach("gone"); }
  });
});
