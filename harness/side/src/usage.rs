//! Y02: resource utilization ticks.
use crate::{configure, flag, uint, Paced, Task};
use bd_resource_utilization::{Reporter, Target};
use bd_runtime::runtime::ConfigLoader;
use bd_shutdown::ComponentShutdownTrigger;
use std::path::Path;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

struct Count(Arc<AtomicUsize>);
impl Target for Count {
  fn tick(&self) { self.0.fetch_add(1, Ordering::Relaxed); }
}

pub const INTERVALS: [u64; 3] = [1000, 3000, 0];

vh::entry!(y02_ticks, {
  let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
  let _in = rt.enter();
  vh::clock(1000, 0, 0, 0);
  let loader = ConfigLoader::new(Path::new("."));
  let set = |on: bool, ms: u64| configure(&loader, &[("resource_utilization.enabled", flag(on)), ("resource_utilization.reporting_interval_ms", uint(ms as u32))]);
  let intervals = vh::param("intervals", 3);
  let mut p = Paced { on: vh::choose("on", 2) == 1, interval: INTERVALS[vh::choose("interval", intervals) as usize], next: 0, calls: 0 };
  set(p.on, p.interval);
  let n = Arc::new(AtomicUsize::new(0));
  let mut r = Reporter::new(Box::new(Count(n.clone())), &loader);
  let trigger = ComponentShutdownTrigger::default();
  let shutdown = trigger.make_shutdown();
  let mut t = Task { f: Box::pin(r.run_with_shutdown(shutdown)), over: false, ms: 1_000_000 };
  if p.interval == 0 { vh::reach("zero"); }
  t.settle(&rt, 0);
  p.check(t.ms, n.load(Ordering::Relaxed), false);
  for _ in 0 .. vh::param("ops", 4) {
    let was_on = p.on;
    let op = vh::choose("op", 4);
    match op {
      0 | 3 => {
        if op == 3 { t.later(3001); }
        p.on = !p.on;
        set(p.on, p.interval);
      },
      1 => {
        let i = INTERVALS[vh::choose("interval", intervals) as usize];
        set(p.on, i);
        p.changed(t.ms, i);
      },
      _ => t.later([1000, 3000, 500][vh::choose("later", 3) as usize]),
    }
    t.settle(&rt, u32::from(op == 3));
    vh::check(!t.over, "keeps_running");
    p.check(t.ms, n.load(Ordering::Relaxed), was_on && op == 3);
  }
  let mut stop = Box::pin(trigger.shutdown());
  vh::check(vh::poll_pinned(stop.as_mut()).is_none(), "waits_for_it");
  t.settle(&rt, 0);
  vh::check(t.over, "stops");
  drop(t);
  vh::check(vh::poll_pinned(stop.as_mut()).is_some(), "stopped");
  vh::reach("stopped");
});
