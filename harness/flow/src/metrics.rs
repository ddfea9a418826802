//! W07: what workflows measure.
use crate::engine::engine;
use crate::graph::*;
use bd_client_stats_store::{Collector, MetricData};
use bd_log_primitives::{log_level, FieldsRef, LogField, LogFields, LogMessage, LogRef, LogType};
use bd_proto::protos::client::metric::metric::Data;
use bd_proto::protos::workflow::workflow::workflow as wf;
use bd_workflows::config::Config;
use bd_workflows::verif_inside::engine::{configuration, Engine};
use std::collections::BTreeMap;
use wf::action::action_emit_metric::{Metric_type, Value_extractor_type};
use wf::action::tag::Tag_type;
use wf::action::{Action_type, ActionEmitMetric, Tag};

#[derive(Clone)]
struct Metric {
  id: &'static str,
  histogram: bool,
  /// a fixed value, or that of a field
  value: Result<u32, &'static str>,
  /// fixed, or those of fields
  tags: Vec<(&'static str, Result<&'static str, &'static str>)>,
}

fn extracted(field: &str) -> wf::FieldExtracted {
  wf::FieldExtracted {
    field_name: field.to_string(),
    extraction_type: Some(wf::field_extracted::Extraction_type::Exact(Default::default())),
    ..Default::default()
  }
}

fn tags(tags: &[(&'static str, Result<&'static str, &'static str>)]) -> Vec<Tag> {
  tags
    .iter()
    .map(|(name, v)| Tag {
      name: (*name).to_string(),
      tag_type: Some(match v {
        Ok(v) => Tag_type::FixedValue((*v).to_string()),
        Err(f) => Tag_type::FieldExtracted(extracted(f)),
      }),
      ..Default::default()
    })
    .collect()
}

impl Metric {
  fn action(&self) -> wf::Action {
    wf::Action {
      action_type: Some(Action_type::ActionEmitMetric(ActionEmitMetric {
        id: self.id.to_string(),
        tags: tags(&self.tags),
        metric_type: Some(if self.histogram { Metric_type::Histogram(Default::default()) } else { Metric_type::Counter(Default::default()) }),
        value_extractor_type: Some(match self.value {
          Ok(n) => Value_extractor_type::Fixed(n),
          Err(f) => Value_extractor_type::FieldExtracted(extracted(f)),
        }),
        ..Default::default()
      })),
      ..Default::default()
    }
  }
}

type Key = (String, BTreeMap<String, String>);

/// Counters, and histograms with what they were given.
#[derive(Default, PartialEq)]
struct Seen(BTreeMap<Key, (u64, Vec<u64>)>);

impl Seen {
  /// A log with the values its fields have for the metrics.
  fn logged(&mut self, metrics: &[&Metric], value: &dyn Fn(&str) -> Option<String>) {
    for m in metrics {
      let mut labels = BTreeMap::new();
      for (name, v) in &m.tags {
        let v = match v {
          Ok(v) => Some((*v).to_string()),
          Err(f) => value(f),
        };
        // one without a value is left out
        if let Some(v) = v { labels.insert((*name).to_string(), v); }
      }
      labels.insert("_id".to_string(), m.id.to_string());
      let n = match m.value {
        Ok(n) => Some(f64::from(n)),
        Err(f) => value(f).and_then(|v| v.parse::<f64>().ok()),
      };
      let Some(n) = n else {
        vh::reach("no_value");
        continue;
      };
      let name = if m.histogram { "workflows_dyn:histogram" } else { "workflows_dyn:action" };
      let e = self.0.entry((name.to_string(), labels)).or_default();
      if m.histogram {
        e.1.push(n.to_bits());
        e.1.sort_unstable();
        vh::reach("histogram");
      } else {
        // whole ones, and nothing below zero
        e.0 += n as u64;
        vh::reach("counter");
      }
    }
  }

  fn of(e: &Engine) -> Self {
    let mut s = Self::default();
    e.dynamic.collector_for_test().retain(|id, m| {
      let v = match (m, m.to_proto()) {
        (MetricData::Counter(c), _) => (c.get(), vec![]),
        (_, Data::InlineHistogramValues(h)) => {
          let mut v: Vec<u64> = h.values.iter().map(|v| v.to_bits()).collect();
          v.sort_unstable();
          (0, v)
        },
        _ => vh::fail("kind"),
      };
      s.0.insert((id.name.clone(), id.labels.clone()), v);
      true
    });
    s
  }
}

fn one(id: &str, exclusive: bool, key: &str, metrics: &[&Metric]) -> Config {
  let mut last = edge("z", key, 1, metrics.iter().map(|m| m.action()).collect());
  // an action of another kind in between
  last.actions.insert(metrics.len().min(1), flush(id, &["b"], None));
  Config::new(&flow(id, exclusive, vec![state("a", vec![last]), state("z", vec![])])).unwrap()
}

const VALUES: [Option<&str>; 11] = [
  None, Some("7"), Some("0"), Some("1.5"), Some("-3"), Some("abc"), Some(""), Some("1e3"), Some("007"), Some(" 7"), Some("4294967296"),
];

vh::entry!(w07_metrics, {
  let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
  let _in = rt.enter();
  vh::clock(1000, 0, 0, 0);
  let stats = Collector::default();
  let mut e = engine(&stats);
  let few = vh::param("few", 0) == 1;
  let n = if few { [40, u32::MAX][vh::choose("n", 2) as usize] } else { [0, 1, 40, u32::MAX][vh::choose("n", 4) as usize] };
  // one in two workflows: once per log; one with the same name and another value: another; one of the other kind
  let fixed = Metric { id: "m", histogram: false, value: Ok(n), tags: vec![("t", Err("f")), ("s", Ok("v"))] };
  let other = Metric { value: Ok(3), ..fixed.clone() };
  let field = Metric { id: "x", histogram: false, value: Err("x"), tags: vec![("level", Err("log_level")), ("type", Err("log_type")), ("_id", Ok("not this"))] };
  let histogram = Metric { id: "h", histogram: true, value: Err("x"), tags: vec![("t", Err("f"))] };
  let steady = Metric { id: "h", histogram: true, value: Ok(n), tags: vec![] };
  e.e.start(configuration(
    vec![
      one("1", true, "p", &[&fixed, &field]),
      one("2", false, "p", &[&fixed, &histogram]),
      one("3", true, "q", &[&other, &steady, &field]),
    ],
    &["b"],
    &[],
  ));
  let mut want = Seen::default();
  for i in 0 .. vh::param("logs", 1) {
    let a = answers(2);
    let x = VALUES[vh::choose("x", if few { 4 } else { 11 }) as usize];
    let f = [None, Some("A"), Some("")][vh::choose("f", if few { 2 } else { 3 }) as usize];
    let kind = if few { (i & 1) as usize } else { vh::choose("kind", 2) as usize };
    let level = [log_level::DEBUG, log_level::ERROR][kind];
    let typ = [LogType::Normal, LogType::Span][kind];
    // a field counts also when it is there for matching only
    let hidden = !few && vh::choose("hidden", 2) == 1;
    let mut fields: LogFields = vec![];
    let mut matching: LogFields = vec![];
    for (k, v) in [("p", std::str::from_utf8(&a[.. 1]).ok()), ("q", std::str::from_utf8(&a[1 ..]).ok()), ("x", x), ("f", f)] {
      let Some(v) = v else { continue };
      let l = LogField { key: k.to_string(), value: v.into() };
      if hidden && k == "x" { matching.push(l) } else { fields.push(l) }
    }
    let message = LogMessage::String("said".to_string());
    let r = LogRef {
      log_type: typ,
      log_level: level,
      message: &message,
      fields: &FieldsRef::new(&fields, &matching),
      session_id: "s",
      occurred_at: time::OffsetDateTime::UNIX_EPOCH,
    };
    e.log(&r, &[]);
    let mut now: Vec<&Metric> = vec![];
    if a[0] == b'1' { now.extend([&fixed, &field, &histogram]); }
    if a[1] == b'1' {
      now.extend([&other, &steady]);
      if a[0] != b'1' { now.push(&field); }
    }
    want.logged(&now, &|k| match k {
      "x" => x.map(ToString::to_string),
      "f" => f.map(ToString::to_string),
      "log_level" => Some(level.to_string()),
      "log_type" => Some(typ.0.to_string()),
      _ => None,
    });
    vh::check(Seen::of(&e) == want, "measured");
  }
});

vh::entry!(w07_sankey, {
  let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
  let _in = rt.enter();
  vh::clock(1000, 0, 0, 0);
  let stats = Collector::default();
  let mut e = engine(&stats);
  let mut action = sankey("one", 1);
  let Some(Action_type::ActionEmitSankeyDiagram(d)) = &mut action.action_type else { unreachable!() };
  d.tags = tags(&[("t", Err("f")), ("s", Ok("v")), ("_id", Ok("x")), ("_path_id", Ok("x"))]);
  // the same diagram twice: a path that ends in both with one log counts once
  let config = |id: &str, exclusive: bool| {
    let a = vec![node(edge("b", "p", 1, vec![]), "one", None, true)];
    let b = vec![node(edge("z", "q", 1, vec![action.clone(), metric("m")]), "one", None, false)];
    Config::new(&flow(id, exclusive, vec![state("a", a), state("b", b), state("z", vec![])])).unwrap()
  };
  let twice = vh::choose("twice", 2) == 1;
  let mut all = vec![config("1", false)];
  if twice { all.push(config("2", true)); }
  e.e.start(configuration(all, &["b"], &[]));
  // what is on its way, in either
  let mut way: [Vec<&str>; 2] = Default::default();
  let mut want: BTreeMap<((&str, &str), Option<&str>), u64> = BTreeMap::new();
  for _ in 0 .. vh::param("logs", 4) {
    let a = answers(2);
    let v = ["x", "y"][vh::choose("v", 2) as usize];
    let f = [None, Some("A")][vh::choose("f", 2) as usize];
    let mut more = vec![("v", v)];
    if let Some(f) = f { more.push(("f", f)); }
    with_more(&a, &more, "s", 1_700_000_000, |l| { e.log(l, &[]); });
    let (p, q) = (a[0] == b'1', a[1] == b'1');
    let mut done: Vec<&str> = vec![];
    for (i, w) in way.iter_mut().enumerate() {
      if i == 1 && !twice { break; }
      // the parallel one starts another as soon as none waits in its first state; the exclusive one starts over instead
      let ended: Vec<&str> = if q { std::mem::take(w) } else { vec![] };
      if p && (i == 0 || ended.is_empty()) {
        if i == 1 { w.clear(); }
        w.push(v);
      }
      done.extend(ended);
    }
    if done.len() > 1 { vh::reach("several"); }
    done.sort_unstable();
    done.dedup();
    for d in &done { *want.entry(((*d, v), f)).or_default() += 1; }
    let mut metrics: Vec<(Option<String>, u64)> = vec![];
    let mut paths = std::collections::BTreeSet::new();
    e.dynamic.collector_for_test().retain(|id, m| {
      let MetricData::Counter(c) = m else { vh::fail("kind") };
      vh::check(id.name == "workflows_dyn:action", "name");
      if id.labels.get("_id").map(String::as_str) != Some("one") { return true; }
      vh::check(id.labels.get("s").map(String::as_str) == Some("v"), "tag");
      let t = id.labels.get("t").cloned();
      vh::check(id.labels.len() == 3 + usize::from(t.is_some()), "no_other_tags");
      paths.insert(id.labels["_path_id"].clone());
      metrics.push((t, c.get()));
      true
    });
    metrics.sort_unstable();
    let mut w: Vec<(Option<String>, u64)> = want.iter().map(|(k, n)| (k.1.map(ToString::to_string), *n)).collect();
    w.sort_unstable();
    vh::check(metrics == w, "counted");
    vh::check(paths.len() == want.keys().map(|k| k.0).collect::<std::collections::BTreeSet<_>>().len(), "by_path");
    if paths.len() >= 2 { vh::reach("two_paths"); }
  }
});
