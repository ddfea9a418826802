//! R01: runtime flags.
#![allow(dead_code)]
use bd_proto::protos::client::api::RuntimeUpdate;
use bd_proto::protos::client::runtime::runtime::{value, Value};
use bd_proto::protos::client::runtime::Runtime;
use bd_runtime::runtime::{ConfigLoader, FeatureFlag, Watch};
use bd_runtime::{bool_feature_flag, duration_feature_flag, int_feature_flag};
use std::path::Path;
use time::Duration;

int_feature_flag!(Count, "a.count", 17);
bool_feature_flag!(On, "b.on", true);
duration_feature_flag!(Wait, "c.wait", Duration::milliseconds(250));
bool_feature_flag!(NotCount, "a.count", false);

#[derive(Default, Clone)]
struct Given {
  count: Option<u32>,
  on: Option<bool>,
  wait: Option<u32>,
}

fn value(t: value::Type) -> Value { Value { type_: Some(t), ..Default::default() } }

fn update(g: &Given, nonce: &str) -> RuntimeUpdate {
  let mut r = Runtime::default();
  if let Some(v) = g.count {
    r.values.insert("a.count".to_string(), value(value::Type::UintValue(v)));
  }
  if let Some(v) = g.on {
    r.values.insert("b.on".to_string(), value(value::Type::BoolValue(v)));
  }
  if let Some(v) = g.wait {
    r.values.insert("c.wait".to_string(), value(value::Type::UintValue(v)));
  }
  RuntimeUpdate { version_nonce: nonce.to_string(), runtime: Some(r).into(), ..Default::default() }
}

/// A watch, the value it should give, and whether that changed since it was last looked at.
struct Seen<T, P: FeatureFlag<T>> {
  watch: Watch<T, P>,
  value: T,
  changed: bool,
}

impl<T: Copy + PartialEq, P: FeatureFlag<T>> Seen<T, P> {
  fn update(&mut self, v: T) {
    self.changed |= v != self.value;
    self.value = v;
  }
  fn look(&mut self) {
    vh::check(self.watch.read() == self.value, "latest_value");
    vh::check(self.watch.has_changed() == self.changed, "notified_exactly_on_change");
    vh::check(self.watch.read_mark_update() == self.value && !self.watch.has_changed(), "seen");
    self.changed = false;
  }
}

const NONCES: [&str; 4] = ["one", "two", "three", "four"];

/// Updates in which one flag is given or left out, with a watch from the start that looks now and then, and one
/// that is registered at the end.
fn history<T: Copy + PartialEq, P: FeatureFlag<T>>(
  register: impl Fn(&ConfigLoader) -> Watch<T, P>,
  mut set: impl FnMut(&mut Given) -> T,
  default: T,
) {
  let loader = ConfigLoader::new(Path::new("no_such_directory"));
  let mut early = Seen { watch: register(&loader), value: default, changed: false };
  early.look();
  let n = vh::param("updates", 3);
  let mut now = default;
  for i in 0 .. n {
    let mut g = Given::default();
    now = default;
    if vh::choose("given", 2) == 1 {
      now = set(&mut g);
    }
    loader.update_snapshot(&update(&g, NONCES[i as usize]));
    early.update(now);
    if i + 1 == n || vh::choose("looks", 2) == 1 {
      early.look();
    }
  }
  let late = register(&loader);
  vh::check(late.read() == now && !late.has_changed(), "late_watch_sees_the_current_value");
  let late = register(&loader);
  vh::check(late.read() == now, "late_watch_sees_the_current_value");
  vh::reach("looked");
}

vh::entry!(r01_integer, {
  history(|l| Count::register(l).unwrap(), |g| { let v = vh::u32v("count"); g.count = Some(v); v }, 17);
});
vh::entry!(r01_bool, {
  history(|l| On::register(l).unwrap(), |g| { let v = vh::boolv("on"); g.on = Some(v); v }, true);
});
vh::entry!(r01_duration, {
  history(
    |l| Wait::register(l).unwrap(),
    |g| { let v = vh::u32v("wait"); g.wait = Some(v); Duration::milliseconds(i64::from(v)) },
    Duration::milliseconds(250),
  );
});

// several flags in one configuration, and the snapshot's getters
vh::entry!(r01_several, {
  let loader = ConfigLoader::new(Path::new("no_such_directory"));
  let mut c = Seen { watch: Count::register(&loader).unwrap(), value: 17, changed: false };
  let mut o = Seen { watch: On::register(&loader).unwrap(), value: true, changed: false };
  let mut w = Seen { watch: Wait::register(&loader).unwrap(), value: Duration::milliseconds(250), changed: false };
  vh::check(NotCount::register(&loader).is_err(), "one_type_per_flag");
  for nonce in 0 .. vh::param("updates", 2) {
    let mut g = Given::default();
    if vh::choose("count_given", 2) == 1 {
      g.count = Some(vh::range("count", 0, 100) as u32);
    }
    if vh::choose("on_given", 2) == 1 {
      g.on = Some(vh::boolv("on"));
    }
    if vh::choose("wait_given", 2) == 1 {
      g.wait = Some(vh::range("wait", 128, 255) as u32);
    }
    loader.update_snapshot(&update(&g, NONCES[nonce as usize]));
    c.update(g.count.unwrap_or(17));
    o.update(g.on.unwrap_or(true));
    w.update(Duration::milliseconds(i64::from(g.wait.unwrap_or(250))));
    c.look();
    o.look();
    w.look();
    let s = loader.snapshot();
    vh::check(s.get_integer("a.count", 5) == g.count.unwrap_or(5), "snapshot_value");
    vh::check(s.get_bool("b.on", false) == g.on.unwrap_or(false), "snapshot_value");
    vh::check(s.get_bool("x", true) && s.get_integer("y", 9) == 9 && s.get_string("z", "d") == "d", "snapshot_default");
  }
  vh::reach("several");
});
