//! R02: the cached configuration.
use bd_proto::protos::client::api::RuntimeUpdate;
use bd_proto::protos::client::runtime::runtime::{value, Value};
use bd_proto::protos::client::runtime::Runtime;
use bd_runtime::runtime::ConfigLoader;
use std::path::Path;
use std::sync::Arc;

#[derive(Default, Clone)]
struct Given {
  count: Option<u32>,
  on: Option<bool>,
  wait: Option<u32>,
}

fn value(t: value::Type) -> Value { Value { type_: Some(t), ..Default::default() } }

fn update(g: &Given, nonce: &str) -> RuntimeUpdate {
  let mut r = Runtime::default();
  if let Some(v) = g.count {
    r.values.insert("a.count".to_string(), value(value::Type::UintValue(v)));
  }
  if let Some(v) = g.on {
    r.values.insert("b.on".to_string(), value(value::Type::BoolValue(v)));
  }
  if let Some(v) = g.wait {
    r.values.insert("c.wait".to_string(), value(value::Type::UintValue(v)));
  }
  RuntimeUpdate { version_nonce: nonce.to_string(), runtime: Some(r).into(), ..Default::default() }
}

/// The permitted number of consecutive loads.
const ATTEMPTS: u32 = 6;

fn loads() -> (Arc<ConfigLoader>, bool) {
  let loader = ConfigLoader::new(Path::new("."));
  loader.handle_cached_config();
  let on = loader.snapshot().get_integer("a.count", 0) == 23;
  (loader, on)
}

// runs that receive configuration, start healthily, or crash
vh::entry!(r02_history, {
  let given = Given { count: Some(23), ..Default::default() };
  let mut cached = false;
  let mut attempts = 0;
  for _ in 0 .. vh::param("runs", 8) {
    let (loader, on) = loads();
    if !cached || attempts >= ATTEMPTS {
      vh::check(!on, "discarded");
      if cached {
        vh::reach("abandoned");
      }
      cached = false;
      attempts = 0;
    } else {
      vh::check(on, "loaded");
      attempts += 1;
      vh::reach("loaded");
    }
    match vh::choose("then", 3) {
      0 => {},
      1 => {
        loader.mark_safe();
        attempts = 0;
      },
      _ => {
        loader.update_snapshot(&update(&given, "n"));
        cached = true;
        attempts = 0;
      },
    }
  }
});

// whatever the retry counter's file holds: bounded, and never a crash of its own
vh::entry!(r02_counter, {
  let given = Given { count: Some(23), ..Default::default() };
  let loader = ConfigLoader::new(Path::new("."));
  loader.update_snapshot(&update(&given, "n"));
  drop(loader);
  let n = vh::choose("len", vh::param("len", 3) + 2) as usize;
  if n <= vh::param("len", 3) as usize {
    let mut b = vec![0u8; n];
    vh::bytes(&mut b, "counter");
    std::fs::write("runtime/retry_count", &b).unwrap();
  } else {
    let t = ["4294967295", "4294967296", "4294967294", "00000000000000000005", "+1"][vh::choose("text", 5) as usize];
    std::fs::write("runtime/retry_count", t).unwrap();
  }
  let mut on = 0;
  for _ in 0 .. ATTEMPTS + 2 {
    on += u32::from(loads().1);
  }
  vh::check(on <= ATTEMPTS, "bounded");
  vh::check(!loads().1, "abandoned");
  if on > 0 {
    vh::reach("loaded");
  } else {
    vh::reach("refused");
  }
});

// a cache of which one byte holds something else, or which was cut short: never a value that was not in it
vh::entry!(r02_damaged, {
  bd_client_common::error::UnexpectedErrorHandler::set_reporter(Arc::new(crate::errors::Quiet));
  let given = Given { count: Some(23), ..Default::default() };
  let loader = ConfigLoader::new(Path::new("."));
  loader.update_snapshot(&update(&given, "n"));
  drop(loader);
  let mut f = std::fs::read("runtime/update.pb").unwrap();
  match vh::choose("damage", 3) {
    0 => f.truncate(vh::choose("length", f.len() as u64) as usize),
    1 => {
      let i = vh::choose("at", f.len() as u64) as usize;
      let bit = 1u8 << vh::choose("bit", 8);
      f[i] ^= bit;
    },
    _ => std::fs::remove_file("runtime/retry_count").unwrap(),
  }
  std::fs::write("runtime/update.pb", &f).unwrap();
  let loader = ConfigLoader::new(Path::new("."));
  loader.handle_cached_config();
  let s = loader.snapshot();
  let v = s.get_integer("a.count", 0);
  vh::check(v == 0 || v == 23, "only_given_values");
  vh::check(s.get_integer("b.other", 0) == 0 && s.get_bool("b.on", true), "only_given_values");
  vh::reach(if v == 23 { "unharmed" } else { "damaged" });
});

// the disk is full, or the process is killed, at any point of a start or of receiving another configuration
vh::entry!(r02_disk, {
  bd_client_common::error::UnexpectedErrorHandler::set_reporter(Arc::new(crate::errors::Quiet));
  let first = Given { count: Some(23), ..Default::default() };
  let second = Given { count: Some(24), on: Some(true), wait: Some(5) };
  let loader = ConfigLoader::new(Path::new("."));
  loader.update_snapshot(&update(&first, "n1"));
  drop(loader);
  let before = [0, 1, ATTEMPTS - 1, ATTEMPTS][vh::choose("before", 4) as usize];
  for _ in 0 .. before {
    vh::check(loads().1, "loaded");
  }
  let k = vh::choose("when", vh::param("points", 110));
  let full = vh::choose("full", 2) == 1;
  if full { vh::disk_full(k) } else { vh::disk_dies(k) }
  let mut received = false;
  let mut old = before;
  if vh::choose("receive", 2) == 1 {
    let l = ConfigLoader::new(Path::new("."));
    l.update_snapshot(&update(&second, "n2"));
    vh::check(l.snapshot().get_integer("a.count", 0) == 24, "applied_without_disk");
    received = true;
  } else {
    old += u32::from(loads().1);
  }
  if !full {
    vh::disk_good();
  }
  // every start from now on kills the process
  let mut new = 0;
  for _ in 0 .. 2 * ATTEMPTS + 2 {
    let l = loads().0;
    let s = l.snapshot();
    let (a, b) = (s.get_integer("a.count", 0), s.get_bool("b.on", false));
    match a {
      23 => {
        vh::check(!b, "old_whole");
        old += 1;
      },
      24 => {
        vh::check(received && b, "new_whole");
        new += 1;
      },
      a => vh::check(a == 0 && !b, "nothing"),
    }
  }
  vh::check(old <= ATTEMPTS && new <= ATTEMPTS, "bounded");
  if new > 0 { vh::reach("new") }
  if old > before { vh::reach("old") } else { vh::reach("given_up") }
});
