//! X03: shutdown trigger and component handles under every short order of operations.
use bd_shutdown::*;
use std::future::Future;
use std::pin::Pin;
use vh::*;

type Fut = Pin<Box<dyn Future<Output = ()>>>;
type Wait = Pin<Box<dyn Future<Output = ComponentShutdown>>>;

fn wait(mut c: ComponentShutdown) -> Wait { Box::pin(async move { c.cancelled().await; c }) }

entry!(x03_shutdown, {
  let trigger = ComponentShutdownTrigger::default();
  let handle = trigger.make_handle();
  let mut trigger = Some(trigger);
  let mut comps: Vec<ComponentShutdown> = vec![];
  let mut waits: Vec<Wait> = vec![];
  let mut shut: Option<Fut> = None;
  let mut triggered = false;
  let mut shut_done = false;
  for _ in 0..param("ops", 5) {
    match choose("op", 8) {
      0 => if let Some(t) = trigger.as_ref() { comps.push(t.make_shutdown()); },
      1 => comps.push(handle.make_shutdown()),
      2 => if let Some(c) = comps.last() { let c = c.clone(); comps.push(c); },
      3 => if let Some(c) = comps.pop() { waits.push(wait(c)); },
      4 => if !waits.is_empty() {
        let i = 0;
        match poll_pinned(waits[i].as_mut()) {
          Some(c) => { check(triggered, "cancelled_only_after_trigger"); drop(waits.remove(i)); comps.push(c); reach("cancelled"); },
          None => check(!triggered, "cancelled_once_triggered"),
        }
      },
      5 => { comps.pop(); },
      6 => if let Some(t) = trigger.take() { shut = Some(Box::pin(t.shutdown())); },
      _ => if let Some(f) = shut.as_mut() {
        let done = poll_pinned(f.as_mut()).is_some();
        triggered = true;
        check(done == (comps.is_empty() && waits.is_empty()), "waits_for_exactly_the_live_handles");
        if done { shut = None; shut_done = true; reach("done"); } else { reach("blocked"); }
      },
    }
    for c in &comps {
      let s = c.component_status();
      check((s == ComponentStatus::PendingShutdown) == triggered, "status");
    }
  }
  let _ = shut_done;
  // In the end: trigger, everybody sees it, drop all, the wait finishes.
  if let Some(t) = trigger.take() { shut = Some(Box::pin(t.shutdown())); }
  if let Some(mut f) = shut.take() {
    let live = !comps.is_empty() || !waits.is_empty();
    let done = poll_pinned(f.as_mut()).is_some();
    check(done != live, "final_wait");
    // late-created handles observe it too
    if !done { comps.push(handle.make_shutdown()); }
    for c in comps.drain(..) { waits.push(wait(c)); }
    let mut live = vec![];
    for w in &mut waits {
      match poll_pinned(w.as_mut()) {
        Some(c) => live.push(c),
        None => fail("every_handle_observes"),
      }
    }
    waits.clear();
    if !done {
      check(poll_pinned(f.as_mut()).is_none(), "not_before_all_dropped");
      while live.len() > 1 {
        live.pop();
        check(poll_pinned(f.as_mut()).is_none(), "not_before_last_dropped");
      }
      live.clear();
      check(poll_pinned(f.as_mut()).is_some(), "finishes_when_all_dropped");
      reach("finished");
    }
  }
});

entry!(x03_blocking, {
  let trigger = ComponentShutdownTrigger::default();
  let h = trigger.make_handle();
  let c = trigger.make_shutdown();
  let d = c.clone();
  drop(c);
  drop(d);
  trigger.shutdown_blocking();
  reach("blocking_done");
  let mut late = wait(h.make_shutdown());
  check(poll_pinned(late.as_mut()).is_some(), "late_handle_observes");
});

// components on threads of their own while the trigger waits on another
entry!(x03_threads, {
  use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
  let trigger = ComponentShutdownTrigger::default();
  let n = param("components", 1) as usize;
  let how = choose("how", 2);
  let clones = choose("clone", 2) == 1;
  let comps = std::sync::Mutex::new((0..n).map(|_| trigger.make_shutdown()).collect::<Vec<_>>());
  let trigger = std::sync::Mutex::new(Some(trigger));
  let (called, left) = (AtomicUsize::new(0), AtomicUsize::new(n));
  par(n + 1, &|i| {
    if i == 0 {
      let t = trigger.lock().unwrap().take().unwrap();
      called.store(1, SeqCst);
      if how == 0 { block_on(t.shutdown()); } else { t.shutdown_blocking(); }
      check(left.load(SeqCst) == 0, "threads_waits_for_all");
    } else {
      let mut c = comps.lock().unwrap().pop().unwrap();
      if clones {
        let d = c.clone();
        drop(c);
        c = d;
      }
      block_on(c.cancelled());
      check(called.load(SeqCst) == 1, "threads_not_before_trigger");
      check(c.component_status() == ComponentStatus::PendingShutdown, "threads_status");
      left.fetch_sub(1, SeqCst);
      drop(c);
    }
  });
  reach(if how == 0 { "threads_async" } else { "threads_blocking" });
});
