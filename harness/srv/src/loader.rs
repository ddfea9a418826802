//! R04 (and R03 through a file): the loader of watched files.
use bd_runtime_config::feature_flags::{new_memory_feature_flags_loader, FeatureFlags};
use bd_runtime_config::loader::{ConfigPtr, Stats, StatsCallbacks, WatchedFileLoader};
use notify::event::*;
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};
use std::sync::Arc;

/// Counts the outcomes, and has the crate's own counters count them too.
#[derive(Clone)]
struct S(Arc<[AtomicU32; 3]>, Stats);
impl Default for S {
  fn default() -> Self { Self(Arc::default(), Stats::new(&bd_server_stats::stats::Collector::default().scope("loader"))) }
}
impl StatsCallbacks for S {
  fn on_deserialize_success(&self) {
    self.0[0].fetch_add(1, Relaxed);
    self.1.on_deserialize_success();
  }
  fn on_deserialize_failure(&self) {
    self.0[1].fetch_add(1, Relaxed);
    self.1.on_deserialize_failure();
  }
  fn on_io_failure(&self) {
    self.0[2].fetch_add(1, Relaxed);
    self.1.on_io_failure();
  }
}
impl S {
  fn get(&self) -> [u32; 3] {
    let v = [self.0[0].load(Relaxed), self.0[1].load(Relaxed), self.0[2].load(Relaxed)];
    let c = [self.1.deserialize_success.get(), self.1.deserialize_failure.get(), self.1.io_failure.get()];
    vh::check(c == v.map(u64::from), "counted");
    v
  }
}

#[derive(serde::Deserialize, Debug)]
struct C {
  foo: u64,
}

const FILE: &str = "watched.yaml";

// what is in the file: an outcome (0 loaded, 1 not deserializable, 2 unreadable) and the value
fn put(k: u64) -> (usize, u64) {
  let _ = std::fs::remove_file(FILE);
  match k {
    0 => (2, 0),
    1 => {
      std::fs::write(FILE, "foo: 7\n").unwrap();
      (0, 7)
    },
    2 => {
      std::fs::write(FILE, "foo: 23\n").unwrap();
      (0, 23)
    },
    _ => {
      std::fs::write(FILE, "foo: [\n").unwrap();
      (1, 0)
    },
  }
}

const KINDS: [EventKind; 10] = [
  EventKind::Modify(ModifyKind::Name(RenameMode::Both)),
  EventKind::Modify(ModifyKind::Name(RenameMode::From)),
  EventKind::Modify(ModifyKind::Name(RenameMode::To)),
  EventKind::Modify(ModifyKind::Data(DataChange::Any)),
  EventKind::Modify(ModifyKind::Metadata(MetadataKind::Any)),
  EventKind::Modify(ModifyKind::Any),
  EventKind::Create(CreateKind::File),
  EventKind::Remove(RemoveKind::File),
  EventKind::Access(AccessKind::Any),
  EventKind::Any,
];

fn settle(rt: &tokio::runtime::Runtime) {
  rt.block_on(async {
    for _ in 0..4 {
      tokio::task::yield_now().await;
    }
  });
}

vh::entry!(r04_history, {
  let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
  let s = S::default();
  let mut file = put(vh::choose("file", 4));
  let mut counts = [0u32; 3];
  counts[file.0] += 1;
  let guard = rt.enter();
  let l = WatchedFileLoader::new_loader(".", FILE, |c: Option<C>| -> ConfigPtr<C> { c.map(Arc::new) }, s.clone())
    .ok()
    .unwrap();
  drop(guard);
  vh::check(notify::verif::live() == 1, "watches");
  let mut w = l.snapshot_watch();
  let mut shown = file;
  let mut stopped = false;
  for _ in 0..vh::param("ops", 3) {
    match vh::choose("op", 4) {
      0 => {
        file = put(vh::choose("file", 4));
        vh::reach("file_changed");
      },
      1 => {
        let k = vh::choose("kind", 10) as usize;
        notify::verif::emit(KINDS[k]);
        settle(&rt);
        if k == 0 && !stopped {
          shown = file;
          counts[file.0] += 1;
          vh::check(w.has_changed().unwrap(), "watcher_told");
          vh::reach("reloaded");
        } else {
          vh::reach("not_a_rename");
        }
      },
      2 => {
        rt.block_on(l.shutdown());
        stopped = true;
        vh::check(notify::verif::live() == 0, "watcher_gone");
        vh::reach("shutdown");
      },
      // two renames before the loader runs: the file's state when it runs
      _ => {
        notify::verif::emit(KINDS[0]);
        notify::verif::emit(KINDS[0]);
        settle(&rt);
        if !stopped {
          shown = file;
          counts[file.0] += 2;
        }
      },
    }
    vh::check(s.get() == counts, "one_callback_per_load");
    for got in [w.borrow_and_update().clone(), l.snapshot_watch().borrow().clone()] {
      match shown.0 {
        0 => vh::check(got.as_ref().is_some_and(|c| c.foo == shown.1), "loaded_value"),
        _ => vh::check(got.is_none(), "no_value"),
      }
    }
  }
  rt.block_on(l.shutdown());
  vh::check(notify::verif::live() == 0, "watcher_gone");
  vh::reach("end");
});

// feature flags from a file: always a snapshot, defaults when the file is unusable
vh::entry!(r04_flags, {
  let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
  let k = vh::choose("file", 5);
  let _ = std::fs::remove_file(FILE);
  match k {
    0 => {},
    1 => std::fs::write(FILE, "values:\n  i: 9999\n  s: hello\n  b: true\n").unwrap(),
    2 => std::fs::write(FILE, "values:\n  i: -1\n  f: 1.5\n").unwrap(),
    3 => std::fs::write(FILE, "values: 3\n").unwrap(),
    _ => std::fs::write(FILE, "").unwrap(),
  }
  let s = S::default();
  let guard = rt.enter();
  let l = new_memory_feature_flags_loader(".", FILE, s.clone()).ok().unwrap();
  drop(guard);
  let w = l.snapshot_watch();
  vh::check(w.borrow().is_some(), "always_a_snapshot");
  let (db, di, ds) = (vh::boolv("db"), vh::u64v("di"), Arc::new("d".to_string()));
  let (b, i, t) = (w.get_bool("b", db), w.get_integer("i", di), w.get_string("s", &ds));
  if k == 1 {
    vh::check(b && i == 9999 && *t == "hello", "values_of_the_file");
    vh::check(w.get_bool("i", db) == db && w.get_integer("s", di) == di && *w.get_string("b", &ds) == "d", "other_types_are_default");
    // any draw
    let _ = w.feature_enabled("i", db);
    vh::check(w.feature_enabled("b", db) == db, "not_an_integer_is_default");
    vh::reach("loaded");
  } else {
    vh::check(b == db && i == di && *t == "d" && w.feature_enabled("i", db) == db, "defaults");
    vh::reach("defaults");
  }
  vh::check(s.get() == match k { 0 => [0, 0, 1], 1 => [1, 0, 0], _ => [0, 1, 0] }, "one_callback_per_load");
  rt.block_on(l.shutdown());
});

// a directory that cannot be watched is an error, not a loader that never reloads
vh::entry!(r04_unwatchable, {
  unsafe { notify::FAIL_WATCH = true };
  put(1);
  let s = S::default();
  let r = WatchedFileLoader::new_loader(".", FILE, |c: Option<C>| -> ConfigPtr<C> { c.map(Arc::new) }, s.clone());
  vh::check(r.is_err(), "error");
  vh::check(notify::verif::live() == 0, "watcher_gone");
  vh::reach("error");
});
