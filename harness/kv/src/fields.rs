//! L04: precedence of log fields and reserved names.
use crate::storage::ascii;
use bd_log_metadata::{AnnotatedLogFields, LogFieldKind, MetadataProvider};
use bd_log_primitives::{AnnotatedLogField, LogField, LogFieldValue, LogFields};
use bd_logger::verif_inside::{Collector, LogType};
use std::sync::Arc;

const RESERVED: [&str; 11] = [
  "app_id", "app_version", "carrier", "foreground", "log_level", "log_type", "model", "network_type", "os",
  "os_version", "radio_type",
];

struct Provider(AnnotatedLogFields);
impl MetadataProvider for Provider {
  fn timestamp(&self) -> anyhow::Result<time::OffsetDateTime> { Ok(time::OffsetDateTime::UNIX_EPOCH) }
  fn fields(&self) -> anyhow::Result<AnnotatedLogFields> { Ok(self.0.clone()) }
}

fn reserved(k: &str) -> bool {
  if k.as_bytes().first() == Some(&b'_') {
    return true;
  }
  for r in RESERVED {
    if k.len() == r.len() && k == r {
      return true;
    }
  }
  false
}

// which names a custom field may have
vh::entry!(l04_names, {
  let n = vh::choose("len", vh::param("len", 14)) as usize;
  let k = ascii("k", n);
  let r = reserved(&k);
  let mut c = Collector::new(Arc::new(Provider(vec![])));
  let ok = c.add_field(LogField { key: k.clone(), value: "v".into() }).is_ok();
  vh::check(ok == !r, "reserved_refused_and_only_those");
  if r {
    vh::reach("refused");
    let m = c.collect(vec![], vec![], LogType::Normal).unwrap();
    vh::check(m.fields.is_empty(), "refused_is_absent");
  } else {
    vh::reach("accepted");
  }
});

#[derive(Clone)]
struct F {
  key: &'static str,
  ootb: bool,
  value: LogFieldValue,
}

fn field(name: &str, names: &[&'static str], i: &mut u8) -> F {
  *i += 1;
  F {
    key: names[vh::choose(name, names.len() as u64) as usize],
    ootb: vh::boolv("ootb"),
    value: if *i % 2 == 0 {
      LogFieldValue::String(ascii("v", 2))
    } else {
      let mut b = vec![0u8; 2];
      vh::bytes(&mut b, "v");
      LogFieldValue::Bytes(b)
    },
  }
}

fn annotated(f: &[F]) -> AnnotatedLogFields {
  f.iter()
    .map(|f| AnnotatedLogField {
      field: LogField { key: f.key.to_string(), value: f.value.clone() },
      kind: if f.ootb { LogFieldKind::Ootb } else { LogFieldKind::Custom },
    })
    .collect()
}

// the first field with that key in the documented order: an ordered list of (source, wants ootb)
fn expected<'a>(key: &str, order: &[(&'a [F], bool)]) -> Option<&'a LogFieldValue> {
  for (src, ootb) in order {
    for f in *src {
      if f.key == key && f.ootb == *ootb && (f.ootb || !reserved(f.key)) {
        return Some(&f.value);
      }
    }
  }
  None
}

fn compare(got: &LogFields, names: &[&'static str], order: &[(&[F], bool)], which: &str) {
  let mut n = 0;
  for k in names {
    let e = expected(k, order);
    let mut c = 0;
    for f in got {
      if f.key == *k {
        c += 1;
        vh::check(e.is_some_and(|e| *e == f.value), which);
      }
    }
    vh::check(c == usize::from(e.is_some()), which);
    n += c;
  }
  vh::check(n == got.len(), which);
}

const NAMES: [&str; 4] = ["a", "A", "_x", "os"];

fn sources(np: u64, nl: u64, nm: u64, globals: u64, names: &[&'static str], types: &[LogType]) {
  let mut i = 0;
  let p: Vec<F> = (0..np).map(|_| field("provider", names, &mut i)).collect();
  let l: Vec<F> = (0..nl).map(|_| field("log", names, &mut i)).collect();
  let m: Vec<F> = (0..nm).map(|_| field("matching", names, &mut i)).collect();
  let t = types[vh::choose("type", types.len() as u64) as usize];
  let mut c = Collector::new(Arc::new(Provider(annotated(&p))));
  let mut g: Vec<F> = vec![];
  for _ in 0..globals {
    let mut f = field("global", names, &mut i);
    f.ootb = false;
    let ok = c.add_field(LogField { key: f.key.to_string(), value: f.value.clone() }).is_ok();
    vh::check(ok == !reserved(f.key), "global_accepted_unless_reserved");
    if ok {
      // the latest value of a name replaces the earlier one
      g.retain(|o| o.key != f.key);
      g.push(f);
    }
  }
  if globals > 0 && vh::choose("remove", 2) == 1 {
    let k = names[vh::choose("removed", names.len() as u64) as usize];
    c.remove_field(k);
    g.retain(|o| o.key != k);
    vh::reach("removed");
  }
  let r = c.collect(annotated(&l), annotated(&m), t).unwrap();
  let bandwidth = t == LogType::Replay || t == LogType::Resource || t == LogType::InternalSDK;
  let (pf, pm): (&[F], &[F]) = if bandwidth { (&[], &p) } else { (&p, &[]) };
  compare(&r.fields, names, &[(pf, true), (&l, true), (&l, false), (&g, false), (pf, false)], "captured_fields");
  compare(&r.matching_fields, names, &[(pm, true), (&m, true), (&m, false), (pm, false)], "matching_fields");
  vh::reach(if bandwidth { "matching_only" } else { "captured" });
}

vh::entry!(l04_captured, { sources(2, 2, 0, 1, &NAMES, &[LogType::Normal, LogType::Replay]) });
vh::entry!(l04_globals, { sources(1, 1, 0, 2, &NAMES, &[LogType::Normal, LogType::Resource]) });
vh::entry!(l04_matching, { sources(2, 1, 2, 0, &["a", "A", "_x", "model"], &[LogType::Normal, LogType::InternalSDK]) });
vh::entry!(l04_types, {
  let all = [
    LogType::Normal, LogType::Replay, LogType::Lifecycle, LogType::Resource, LogType::InternalSDK, LogType::View,
    LogType::Device, LogType::UX, LogType::Span,
  ];
  sources(1, 1, 1, 1, &["a", "A"], &all)
});
