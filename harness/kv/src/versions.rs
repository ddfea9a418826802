//! L05: changes of the app version are reported exactly once.
use crate::storage::{ascii, Mem};
use bd_logger::verif_inside::{Extra, Version, Versions};
use std::sync::Arc;

#[derive(Clone)]
struct V {
  v: String,
  code: Option<i64>,
  build: String,
}
impl V {
  fn new(max: u64) -> Self {
    let n = vh::choose("vlen", max) as usize;
    let v = ascii("v", n);
    if vh::choose("kind", 2) == 0 {
      Self { v, code: Some(vh::i64v("code")), build: String::new() }
    } else {
      let n = vh::choose("blen", max) as usize;
      Self { v, code: None, build: ascii("b", n) }
    }
  }
  fn make(&self) -> Version {
    Version::new(&self.v, &match self.code {
      Some(c) => Extra::Code(c),
      None => Extra::Build(self.build.clone()),
    })
  }
  fn same(&self, o: &Self) -> bool { self.v == o.v && self.code == o.code && self.build == o.build }
  fn is(&self, v: &Version) -> bool {
    self.v == v.version()
      && match v.extra() {
        Extra::Code(c) => self.code == Some(c),
        Extra::Build(b) => self.code.is_none() && b == self.build,
      }
  }
}

fn start(m: &Mem, stored: &mut Option<V>, cur: &V, ask_first: bool, ask_after: bool) {
  let r = Versions::new(Arc::new(m.store()));
  let v = cur.make();
  let changed = stored.as_ref().is_some_and(|s| !s.same(cur));
  if ask_first {
    let h = r.has_changed(&v);
    vh::check(h == changed, "has_changed_as_model");
    vh::check(r.has_changed(&v) == changed, "asking_changes_nothing");
  }
  match r.set(&v) {
    Some(p) => {
      vh::check(changed, "event_only_on_change");
      vh::check(stored.as_ref().unwrap().is(&p), "event_carries_previous_version");
      vh::reach("event");
    },
    None => {
      vh::check(!changed, "every_change_is_reported");
      vh::reach("no_event");
    },
  }
  *stored = Some(cur.clone());
  vh::check(r.set(&v).is_none(), "reported_once");
  if ask_after { vh::check(!r.has_changed(&v), "unchanged_afterwards"); }
}

vh::entry!(l05_starts, {
  let m = Mem::default();
  let mut stored: Option<V> = None;
  let max = vh::param("len", 3);
  for i in 0..vh::param("starts", 2) {
    let v = V::new(max);
    let ask = vh::choose("ask", 2) == 1;
    start(&m, &mut stored, &v, ask, ask || i == 0);
  }
});

// only asking (never setting) on a first start initialises the baseline
vh::entry!(l05_ask_only, {
  let m = Mem::default();
  let a = V::new(2);
  let b = V::new(2);
  let r = Versions::new(Arc::new(m.store()));
  vh::check(!r.has_changed(&a.make()), "first_start_is_no_change");
  let r = Versions::new(Arc::new(m.store()));
  vh::check(r.has_changed(&b.make()) == !a.same(&b), "compared_with_baseline");
  let e = r.set(&b.make());
  vh::check(e.is_some() == !a.same(&b), "event_iff_differs");
  vh::reach("asked");
});

// back and forth: an upgrade, and a return to the earlier version, are two changes
vh::entry!(l05_back, {
  let m = Mem::default();
  let a = V { v: "1".into(), code: Some(vh::i64v("a")), build: String::new() };
  let b = V { v: "1".into(), code: Some(vh::i64v("b")), build: String::new() };
  let mut stored = None;
  for v in [&a, &b, &a, &a, &b] {
    start(&m, &mut stored, v, false, false);
  }
  vh::reach("back");
});

// what the event is labelled with identifies the version
vh::entry!(l05_labels, {
  let n = vh::range("n", 0, 999) as i64;
  let neg = vh::choose("neg", 2) == 1;
  let c = if neg { -n } else { n };
  let v = V { v: String::new(), code: Some(c), build: String::new() }.make();
  vh::check(v.extra_name() == "app_version_code", "code_name");
  let t = v.extra_text();
  let mut x: i64 = 0;
  for ch in t.bytes() {
    if ch != b'-' {
      vh::check(ch.is_ascii_digit(), "digits");
      x = x * 10 + i64::from(ch - b'0');
    }
  }
  vh::check(if t.starts_with('-') { -x } else { x } == c, "code_text");
  let b = V { v: String::new(), code: None, build: ascii("b", 2) };
  let v = b.make();
  vh::check(v.extra_name() == "build_number", "build_name");
  vh::check(v.extra_text() == b.build, "build_text");
  vh::reach("labels");
});
