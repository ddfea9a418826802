//! V01 labels and identities, V02 gauges of live guards, V03 scrapes.
use bd_server_stats::stats::{AutoGauge, Collector, CounterWrapper, GatherMetrics, StackAutoGauge};
use prometheus::proto::MetricFamily;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};
use std::sync::Arc;

const NAMES: [&str; 2] = ["x", "y"];
const VALUES: [&str; 3] = ["1", "2", "3"];
const OVERFLOW: &str = "label_overflow";

struct Model {
  limit: u64,
  seen: Vec<(usize, usize)>,
  overflows: u64,
}
impl Model {
  // label values (per name) that end up on the series
  fn track(&mut self, v: &[usize]) -> Vec<&'static str> {
    for (n, x) in v.iter().enumerate() {
      if !self.seen.contains(&(n, *x)) {
        if (self.seen.len() as u64) < self.limit {
          self.seen.push((n, *x));
        } else {
          self.overflows += 1;
          return vec![OVERFLOW; v.len()];
        }
      }
    }
    v.iter().map(|x| VALUES[*x]).collect()
  }
}

// value of the series of family `name` whose labels are exactly `want`
fn series<'a>(f: &'a [MetricFamily], name: &str, want: &[(&str, &str)]) -> Option<&'a prometheus::proto::Metric> {
  let mut found = None;
  for m in f {
    if m.get_name() != name {
      continue;
    }
    for s in m.get_metric() {
      let l = s.get_label();
      if l.len() == want.len() && want.iter().all(|(k, v)| l.iter().any(|p| p.get_name() == *k && p.get_value() == *v)) {
        vh::check(found.is_none(), "one_series_per_label_set");
        found = Some(s);
      }
    }
  }
  found
}

vh::entry!(v01_labels, {
  let limit = vh::range("limit", 0, vh::param("limit", 4));
  let c = Collector::new_with_label_limit(limit);
  let scope = c.scope("s");
  let two = scope.labeled_metric_builder(&NAMES).build_counter("two");
  let one = scope.labeled_metric_builder(&NAMES[.. 1]).build_gauge("one");
  let mut m = Model { limit, seen: vec![], overflows: 0 };
  let mut totals: Vec<(Vec<&str>, u64)> = vec![];
  let mut gauges: Vec<(Vec<&str>, i64)> = vec![];
  for i in 0..vh::param("metrics", 3) {
    let v0 = vh::choose("v0", 3) as usize;
    if vh::choose("which", 2) == 0 {
      let v1 = vh::choose("v1", 3) as usize;
      let mut k = two.new_metric();
      let got = k.get(&vec![VALUES[v0], VALUES[v1]]).clone();
      got.inc_by(10 + i);
      // later uses keep the series of the first one, whatever labels they pass
      k.get(&vec!["other", "labels"]).inc();
      let l = m.track(&[v0, v1]);
      match totals.iter_mut().find(|t| t.0 == l) {
        Some(t) => t.1 += 11 + i,
        None => totals.push((l, 11 + i)),
      }
    } else {
      let mut k = one.new_metric();
      k.get(&VALUES[v0].to_string()).add(5);
      let l = m.track(&[v0]);
      match gauges.iter_mut().find(|t| t.0 == l) {
        Some(t) => t.1 += 5,
        None => gauges.push((l, 5)),
      }
    }
  }
  let f = c.gather();
  for (l, v) in &totals {
    let want: Vec<_> = NAMES.iter().copied().zip(l.iter().copied()).collect();
    vh::check(series(&f, "s:two", &want).is_some_and(|s| s.get_counter().get_value() == *v as f64), "series_total");
    if l[0] == OVERFLOW {
      vh::reach("overflow");
    } else {
      vh::reach("admitted");
    }
  }
  for (l, v) in &gauges {
    vh::check(series(&f, "s:one", &[("x", l[0])]).is_some_and(|s| s.get_gauge().get_value() == *v as f64), "gauge_series");
  }
  // no other series exists, and what was sent to the overflow series is counted
  for fam in &f {
    match fam.get_name() {
      "s:two" => vh::check(fam.get_metric().len() == totals.len(), "no_other_series"),
      "s:one" => vh::check(fam.get_metric().len() == gauges.len(), "no_other_series"),
      "stats:label_tracker:label_overflow" => {
        vh::check(fam.get_metric()[0].get_counter().get_value() == m.overflows as f64, "overflows_counted");
      },
      _ => vh::fail("unknown_family"),
    }
  }
  vh::check(m.seen.len() as u64 <= limit, "limit");
});

// identity of metrics: the joined name and the effective labels
const PARTS: [&str; 4] = ["", "a", "b", "a:b"];
const LKEYS: [&str; 3] = ["", "k", "l"];
fn labels(n: &str) -> HashMap<String, String> {
  match vh::choose(n, 4) {
    0 => HashMap::new(),
    1 => HashMap::from([("k".to_string(), "1".to_string())]),
    2 => HashMap::from([("k".to_string(), "2".to_string())]),
    _ => HashMap::from([("l".to_string(), "1".to_string())]),
  }
}
struct Made {
  name: String,
  labels: HashMap<String, String>,
}
fn join(a: &str, b: &str) -> String { if a.is_empty() { b.to_string() } else { format!("{a}:{b}") } }

vh::entry!(v01_identity, {
  let c = Collector::default();
  let mut made: Vec<(Made, prometheus::IntCounter, u64)> = vec![];
  for i in 0..2u64 {
    let root = PARTS[vh::choose("root", 2) as usize];
    let ext = PARTS[vh::choose("extend", 3) as usize];
    let sl = labels("scope_labels");
    let s = c.scope(root).scope_with_labels(ext, sl.clone());
    let ml = labels("labels");
    let n = if ext.is_empty() { root.to_string() } else { join(root, ext) };
    let leaf = ["n", "b:n"][vh::choose("leaf", 2) as usize];
    let mut l = sl;
    l.extend(ml.clone());
    let me = Made { name: join(&n, leaf), labels: l };
    // prometheus itself wants one set of label names per metric name
    for (o, ..) in &made {
      vh::assume(o.name != me.name || (o.labels.len() == me.labels.len() && o.labels.keys().all(|k| me.labels.contains_key(k))));
    }
    let k = s.counter_with_labels(leaf, ml);
    k.inc_by(1 + i);
    match made.iter_mut().find(|(o, ..)| o.name == me.name && o.labels == me.labels) {
      Some((_, old, total)) => {
        *total += 1 + i;
        vh::check(old.get() == *total && k.get() == *total, "same_name_and_labels_is_the_same_metric");
        vh::reach("same");
      },
      None => {
        vh::check(k.get() == 1 + i, "other_metrics_are_independent");
        made.push((me, k, 1 + i));
        vh::reach("new");
      },
    }
  }
  let f = c.gather();
  for (m, k, total) in &made {
    vh::check(k.get() == *total, "independent");
    let want: Vec<(&str, &str)> = m.labels.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
    vh::check(series(&f, &m.name, &want).is_some_and(|s| s.get_counter().get_value() == *total as f64), "scraped_as_named");
  }
});

// nested scopes, gauges and histograms
vh::entry!(v01_scopes, {
  let c = Collector::default();
  let mut s = c.scope(PARTS[vh::choose("root", 2) as usize]);
  let mut name = String::new();
  let mut l: HashMap<String, String> = HashMap::new();
  if s.counter("probe").get() != 0 {
    vh::fail("fresh");
  }
  let f = c.gather();
  if f.iter().any(|f| f.get_name() == "a:probe") {
    name = "a".to_string();
  }
  for _ in 0..2 {
    let ext = PARTS[vh::choose("extend", 3) as usize];
    if vh::choose("labelled", 2) == 0 {
      s = s.scope(ext);
    } else {
      let x = labels("scope_labels");
      s = s.scope_with_labels(ext, x.clone());
      l.extend(x);
    }
    if !ext.is_empty() {
      name = join(&name, ext);
    }
  }
  let g = s.gauge("g");
  let v = vh::i64v("v");
  g.set(v);
  vh::check(s.gauge("g").get() == v, "same_gauge");
  let h = if vh::choose("buckets", 2) == 0 { s.histogram("h") } else { s.histogram_with_buckets("h", &[1.0, 2.0]) };
  h.observe(1.5);
  vh::check(s.histogram("h").get_sample_count() == 1, "same_histogram");
  let f = c.gather();
  let want: Vec<(&str, &str)> = l.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
  vh::check(series(&f, &join(&name, "g"), &want).is_some(), "gauge_named");
  vh::check(series(&f, &join(&name, "h"), &want).is_some_and(|s| s.get_histogram().get_sample_count() == 1), "histogram_named");
  vh::reach("scopes");
});

// two threads asking for metrics at once
vh::entry!(v01_threads, {
  let c = Collector::default();
  let names = [["n", "m"][vh::choose("n0", 2) as usize], "n"];
  let what = vh::choose("what", 3);
  if what == 0 && vh::choose("before", 2) == 1 {
    let _ = c.scope("s").counter("n");
  }
  let labeled = c.scope("s").labeled_metric_builder(&NAMES[.. 1]).build_counter("l");
  vh::par(2, &|i| match what {
    0 => c.scope("s").counter(names[i]).inc_by(1 + i as u64),
    1 => c.scope("s").gauge(names[i]).add(1 + i as i64),
    _ => labeled.new_metric().get(&names[i].to_string()).inc_by(1 + i as u64),
  });
  let f = c.gather();
  for (i, n) in names.iter().enumerate() {
    let total = if names[0] == names[1] { 3.0 } else { 1.0 + i as f64 };
    let name = format!("s:{n}");
    let ok = match what {
      0 => series(&f, &name, &[]).is_some_and(|s| s.get_counter().get_value() == total),
      1 => series(&f, &name, &[]).is_some_and(|s| s.get_gauge().get_value() == total),
      _ => series(&f, "s:l", &[("x", *n)]).is_some_and(|s| s.get_counter().get_value() == total),
    };
    vh::check(ok, "threads_totals");
  }
  vh::reach("threads");
});

// wrapper used by the client libraries
vh::entry!(v01_wrapper, {
  let c = Collector::default();
  let k = c.scope("s").counter("n");
  let d = CounterWrapper::make_dyn(k.clone());
  let a = vh::range("a", 0, u64::from(u32::MAX));
  d.inc();
  vh::check(k.get() == 1, "inc");
  d.inc_by(a);
  d.inc_by(0);
  vh::check(k.get() == 1 + a, "inc_by");
  vh::reach("wrapped");
});

// V02
vh::entry!(v02_guards, {
  let c = Collector::default();
  let g = c.scope("s").gauge("live");
  let base = vh::range("base", 0, (1 << 62) - 1) as i64;
  g.set(base);
  let mut stack: Vec<StackAutoGauge<'_>> = vec![];
  let mut heap: Vec<AutoGauge> = vec![];
  for _ in 0..vh::param("ops", 6) {
    match vh::choose("op", 4) {
      0 => stack.push(StackAutoGauge::new(&g)),
      1 => heap.push(AutoGauge::new(g.clone())),
      2 => {
        if !stack.is_empty() {
          let i = vh::choose("i", stack.len() as u64) as usize;
          drop(stack.remove(i));
          vh::reach("dropped");
        }
      },
      _ => {
        if !heap.is_empty() {
          let i = vh::choose("i", heap.len() as u64) as usize;
          drop(heap.remove(i));
          vh::reach("dropped");
        }
      },
    }
    vh::check(g.get() == base + (stack.len() + heap.len()) as i64, "gauge_counts_live_guards");
  }
  drop(stack);
  drop(heap);
  vh::check(g.get() == base, "all_released");
  vh::reach("released");
});

// guards created and dropped by several threads at once
vh::entry!(v02_threads, {
  let c = Collector::default();
  let g = c.scope("s").gauge("live");
  let base = vh::range("base", 0, (1 << 62) - 1) as i64;
  g.set(base);
  let kind = vh::choose("kind", 2);
  vh::par(vh::param("threads", 2) as usize, &|_| {
    if kind == 0 {
      drop(StackAutoGauge::new(&g));
    } else {
      drop(AutoGauge::new(g.clone()));
    }
  });
  vh::check(g.get() == base, "all_released_by_threads");
  vh::reach("threads");
});

// V03
struct Other(&'static str, Collector, Arc<AtomicU32>);
impl GatherMetrics for Other {
  fn gather(&self) -> Vec<MetricFamily> {
    self.2.fetch_add(1, Relaxed);
    let k = self.1.scope("").gauge(self.0);
    k.inc();
    self.1.gather().into_iter().filter(|f| f.get_name() == self.0).collect()
  }
}

vh::entry!(v03_scrape, {
  let c = Collector::default();
  let calls = Arc::new(AtomicU32::new(0));
  let chained = Arc::new(AtomicU32::new(0));
  let (mut ncb, mut nchain, mut scrapes) = (0u32, 0usize, 0u32);
  let (mut want_calls, mut want_chained) = (0u32, 0u32);
  const CH: [&str; 3] = ["c0", "c1", "c2"];
  const CB: [&str; 4] = ["g0", "g1", "g2", "g3"];
  let mut since: Vec<u32> = vec![];
  let mut chain_since: Vec<u32> = vec![];
  let on_demand = c.scope("").gauge("on_demand");
  for _ in 0..vh::param("ops", 4) {
    match vh::choose("op", 3) {
      0 if ncb < 3 => {
        let (n, g) = (calls.clone(), on_demand.clone());
        let extra = c.scope("");
        let name = CB[ncb as usize];
        c.add_gather_callback(move || {
          n.fetch_add(1, Relaxed);
          g.set(i64::from(n.load(Relaxed)));
          // a metric that first appears in a callback is part of the same scrape
          extra.gauge(name).inc();
        });
        ncb += 1;
        since.push(0);
      },
      1 if nchain < 3 => {
        c.chain(Arc::new(Other(CH[nchain], Collector::default(), chained.clone())));
        nchain += 1;
        chain_since.push(0);
      },
      _ => {
        let f = c.gather();
        scrapes += 1;
        want_calls += ncb;
        want_chained += nchain as u32;
        for s in &mut since { *s += 1; }
        for s in &mut chain_since { *s += 1; }
        vh::check(calls.load(Relaxed) == want_calls, "every_callback_runs_once_per_scrape");
        vh::check(chained.load(Relaxed) == want_chained, "every_chained_collector_gathered_once");
        vh::check(series(&f, "on_demand", &[]).is_some_and(|s| s.get_gauge().get_value() == f64::from(want_calls) || ncb == 0), "callbacks_run_before_gathering");
        for (i, s) in since.iter().enumerate() {
          vh::check(series(&f, CB[i], &[]).is_some_and(|m| m.get_gauge().get_value() == f64::from(*s)), "metrics_of_callbacks");
        }
        for (i, s) in chain_since.iter().enumerate() {
          vh::check(series(&f, CH[i], &[]).is_some_and(|m| m.get_gauge().get_value() == f64::from(*s)), "metrics_of_chained_collectors");
        }
        vh::check(f.len() == 2 + ncb as usize + nchain, "nothing_else_and_nothing_missing");
        vh::reach("scraped");
      },
    }
  }
  vh::reach(if scrapes > 1 { "scraped_again" } else { "few" });
});

// the text form shows what gather() gives
vh::entry!(v03_text, {
  let c = Collector::default();
  let g = c.scope("s").gauge("n");
  let v = vh::choose("v", 12) as i64;
  g.set(v);
  c.add_gather_callback({
    let g = g.clone();
    move || g.add(1)
  });
  let t = String::from_utf8(c.prometheus_output()).unwrap();
  let want = format!("\ns:n {}\n", v + 1);
  vh::check(t.contains(&want), "text");
  vh::reach("text");
});
