//! C01 and C02 at the level of the collectors.
use bd_client_stats::DynamicStats;
use bd_client_stats_store::{BoundedCollector, Collector, Counter, MetricData};
use bd_proto::protos::client::api::RuntimeUpdate;
use bd_proto::protos::client::runtime::runtime::{value, Value};
use bd_proto::protos::client::runtime::Runtime;
use bd_runtime::runtime::ConfigLoader;
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::Mutex;

pub fn uint(v: u32) -> Value { Value { type_: Some(value::Type::UintValue(v)), ..Default::default() } }

pub fn configure(loader: &ConfigLoader, values: &[(&str, u32)]) {
  let mut r = Runtime::default();
  for (k, v) in values {
    r.values.insert((*k).to_string(), uint(*v));
  }
  loader.update_snapshot(&RuntimeUpdate { version_nonce: "n".to_string(), runtime: Some(r).into(), ..Default::default() });
}

fn tags(k: u64) -> BTreeMap<String, String> {
  let mut t = BTreeMap::new();
  if k > 0 {
    t.insert("k".to_string(), k.to_string());
  }
  t
}

fn total(c: &BoundedCollector) -> u64 {
  let mut n = 0;
  c.retain(|_, m| {
    if let MetricData::Counter(c) = m {
      n += c.get();
    }
    true
  });
  n
}

// the limit on dynamic metrics, which can change at any time
vh::entry!(c02_limit, {
  let loader = ConfigLoader::new(Path::new("."));
  let mut limit = vh::range("limit", 0, 4) as u32;
  configure(&loader, &[("stats.max_dynamic_stats", limit)]);
  let collector = Collector::default();
  let scope = collector.scope("");
  let stats = DynamicStats::new(&scope, &loader);
  let overflow = scope.scope("stats").counter("dynamic_stats_overflow");
  let mut seen: BTreeMap<u64, u64> = BTreeMap::new();
  let mut refused = 0;
  for _ in 0 .. vh::param("ops", 5) {
    if vh::choose("op", 4) == 3 {
      limit = vh::range("limit", 0, 4) as u32;
      configure(&loader, &[("stats.max_dynamic_stats", limit)]);
      continue;
    }
    let k = vh::choose("which", 4);
    let v = u64::from(vh::u32v("by"));
    // names 0 and 1 and the tags of 2 and 3
    let name = if k == 1 { "b" } else { "a" };
    stats.record_dynamic_counter(name, tags(if k < 2 { 0 } else { k }), v);
    let n = seen.len() as u64;
    if let Some(x) = seen.get_mut(&k) {
      *x += v;
      vh::reach("existing");
    } else if n < u64::from(limit) {
      seen.insert(k, v);
      vh::reach("admitted");
    } else {
      refused += 1;
      vh::reach("refused");
    }
    let mut live = 0;
    stats.collector_for_test().retain(|_, _| { live += 1; true });
    vh::check(live == seen.len(), "distinct");
    vh::check(overflow.get() == refused, "losses_counted");
    for (k, v) in &seen {
      let c = stats.collector_for_test().find_counter(if *k == 1 { "b" } else { "a" }, tags(if *k < 2 { 0 } else { *k }));
      vh::check(c.map(|c| c.get()) == Some(*v), "kept_updating");
    }
  }
});
