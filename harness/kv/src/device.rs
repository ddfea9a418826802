//! D01: the device identifier.
use crate::storage::{ascii, Mem};
use bd_device::Device;
use bd_key_value::{Key, Store};
use std::sync::Arc;

static STATE: Key<String> = Key::new("device.state");

vh::entry!(d01_history, {
  let m = Mem::default();
  let store = Arc::new(m.store());
  let mut devices = vec![Device::new(store.clone())];
  let mut id: Option<String> = None;
  // an installation may start with an identifier from an earlier run
  if vh::choose("stored", 2) == 1 {
    let v = ascii("id", 2);
    store.set(&STATE, &v);
    m.0.lock().sets = 0;
    id = Some(v);
    vh::reach("stored_before");
  }
  let had = id.is_some();
  for _ in 0..vh::param("ops", 4) {
    match vh::choose("op", 3) {
      // a restart
      0 => {
        devices = vec![Device::new(Arc::new(m.store()))];
        vh::reach("restart");
      },
      // a second user in the same process
      1 => devices.push(Device::new(store.clone())),
      _ => {
        let n = vh::choose("device", devices.len() as u64) as usize;
        let v = devices[n].id();
        // durable before it is returned
        let stored = Store::new(Box::new(m.clone())).get(&STATE);
        vh::check(stored.as_ref() == Some(&v), "durable_when_returned");
        match &id {
          Some(old) => {
            vh::check(*old == v, "same_identifier");
            vh::reach("again");
          },
          None => {
            vh::check(v.len() == 36, "fresh_identifier_is_uuid");
            vh::reach("created");
            id = Some(v);
          },
        }
      },
    }
    vh::check(m.sets() <= usize::from(!had), "generated_at_most_once");
  }
});

// identifiers of two installations are unrelated
vh::entry!(d01_fresh, {
  let a = Device::new(Arc::new(Mem::default().store())).id();
  let b = Device::new(Arc::new(Mem::default().store())).id();
  vh::check(a != b, "installations_differ");
  vh::check(a.as_bytes()[14] == b'4', "random_uuid");
  vh::reach("fresh");
});

// the stored identifier was damaged: a new one is created, stored and kept
vh::entry!(d01_damaged, {
  let m = Mem::default();
  m.put("device.state", &ascii("t", vh::choose("len", 5) as usize));
  let d = Device::new(Arc::new(m.store()));
  let a = d.id();
  vh::check(d.id() == a, "kept_in_memory");
  vh::check(Device::new(Arc::new(m.store())).id() == a, "kept_over_restart");
  vh::reach("replaced");
});

// storage that cannot be written: the identifier still does not change within the run
vh::entry!(d01_unwritable, {
  let m = Mem::default();
  m.0.lock().fail_set = true;
  let d = Device::new(Arc::new(m.store()));
  let a = d.id();
  vh::check(d.id() == a, "stable_in_run");
  if vh::choose("recovers", 2) == 1 {
    m.0.lock().fail_set = false;
  }
  vh::check(d.id() == a, "stable_in_run_later");
  vh::reach("unwritable");
});

// two callers at once, from an installation without an identifier (or with one)
vh::entry!(d01_threads, {
  let m = Mem::default();
  let stored = vh::choose("stored", 2) == 1;
  if stored {
    m.store().set(&STATE, &ascii("id", 2));
    m.0.lock().sets = 0;
  }
  let d = Device::new(Arc::new(m.store()));
  let got = [parking_lot::Mutex::new(None), parking_lot::Mutex::new(None)];
  vh::par(2, &|i| {
    let v = d.id();
    *got[i].lock() = Some(v);
  });
  let a = got[0].lock().take().unwrap();
  let b = got[1].lock().take().unwrap();
  vh::check(a == b, "one_identifier");
  vh::check(Device::new(Arc::new(m.store())).id() == a, "kept_over_restart");
  vh::check(m.sets() == usize::from(!stored), "generated_at_most_once");
  vh::reach("threads");
});
