//! Y03: the platform event listener is on exactly when the flag is.
use crate::{configure, flag, Task};
use bd_events::{Listener, ListenerTarget};
use bd_runtime::runtime::ConfigLoader;
use bd_shutdown::ComponentShutdownTrigger;
use std::path::Path;
use std::sync::{Arc, Mutex};

#[derive(Default)]
struct Calls(Arc<Mutex<Vec<bool>>>);
impl ListenerTarget for Calls {
  fn start(&self) { self.0.lock().unwrap().push(true); }
  fn stop(&self) { self.0.lock().unwrap().push(false); }
}

vh::entry!(y03_events, {
  let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
  let _in = rt.enter();
  vh::clock(1000, 0, 0, 0);
  let loader = ConfigLoader::new(Path::new("."));
  let set = |on: bool| configure(&loader, &[("platform_events.enabled", flag(on))]);
  let calls = Arc::new(Mutex::new(vec![]));
  let mut l = Listener::new(Box::new(Calls(calls.clone())), &loader);
  let trigger = ComponentShutdownTrigger::default();
  let shutdown = trigger.make_shutdown();
  let mut t = Task { f: Box::pin(l.run_with_shutdown(shutdown)), over: false, ms: 1_000_000 };
  let mut on = false;
  let mut seen = false; // what the target was last told
  let mut told = 0;
  if vh::choose("polled_first", 2) == 1 { t.settle(&rt, 1); }
  for _ in 0 .. vh::param("ops", 5) {
    match vh::choose("op", 3) {
      0 => {
        on = true;
        set(on);
      },
      1 => {
        on = false;
        set(on);
      },
      _ => {
        t.settle(&rt, 1);
        vh::check(!t.over, "keeps_running");
        let c = calls.lock().unwrap();
        let last = c.last().copied().unwrap_or(false);
        vh::check(last == on, "on_exactly_when_enabled");
        vh::check(c.len() <= told + 1, "told_once");
        if on && !seen { vh::reach("started"); }
        if !on && seen { vh::reach("stopped"); }
        if c.is_empty() { vh::reach("never_told"); }
        seen = on;
        told = c.len();
      },
    }
  }
  let mut stop = Box::pin(trigger.shutdown());
  vh::check(vh::poll_pinned(stop.as_mut()).is_none(), "waits_for_it");
  t.settle(&rt, 1);
  vh::check(t.over, "stops");
  drop(t);
  vh::check(vh::poll_pinned(stop.as_mut()).is_some(), "stopped");
});
