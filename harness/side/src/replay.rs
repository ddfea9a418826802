//! Y01: screens and screenshots.
use crate::{configure, flag, uint, Paced, Task};
use bd_client_stats_store::Collector;
use bd_log_primitives::{LogInterceptor, LogType, StringOrBytes};
use bd_runtime::runtime::ConfigLoader;
use bd_session_replay::{Recorder, Target, SESSION_REPLAY_SCREENSHOT_LOG_MESSAGE};
use bd_shutdown::ComponentShutdownTrigger;
use std::path::Path;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

struct Quiet;
impl bd_client_common::error::Reporter for Quiet {
  fn report(&self, _m: &str, _d: &Option<String>, _f: &std::collections::HashMap<std::borrow::Cow<'_, str>, std::borrow::Cow<'_, str>>) {}
}

#[derive(Clone, Default)]
struct Screen {
  screens: Arc<AtomicUsize>,
  shots: Arc<AtomicUsize>,
}
impl Target for Screen {
  fn capture_screen(&self) { self.screens.fetch_add(1, Ordering::Relaxed); }
  fn capture_screenshot(&self) { self.shots.fetch_add(1, Ordering::Relaxed); }
}

fn counter(c: &Collector, kind: &str) -> u64 {
  c.inner().find_counter("screenshots:requests_total", [("type".to_string(), kind.to_string())].into()).map_or(0, |c| c.get())
}

vh::entry!(y01_screenshots, {
  bd_client_common::error::UnexpectedErrorHandler::set_reporter(Arc::new(Quiet));
  let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
  let _in = rt.enter();
  vh::clock(1000, 0, 0, 0);
  let loader = ConfigLoader::new(Path::new("."));
  let set = |on: bool| configure(&loader, &[("session_replay.screenshots.enabled", flag(on))]);
  let mut on = vh::choose("on", 2) == 1;
  set(on);
  let s = Screen::default();
  let stats = Collector::default();
  let (mut r, handler, interceptor) = Recorder::new(Box::new(s.clone()), &loader, &stats.scope(""));
  let trigger = ComponentShutdownTrigger::default();
  let shutdown = trigger.make_shutdown();
  let mut t = Task { f: Box::pin(r.run_with_shutdown(shutdown)), over: false, ms: 1_000_000 };
  t.settle(&rt, 0);
  let (mut requests, mut taken) = (0u64, 0usize);
  let (mut waiting, mut outstanding, mut answered) = (false, false, false);
  let mut both = false; // the flag changed since it last caught up
  let message = StringOrBytes::String(SESSION_REPLAY_SCREENSHOT_LOG_MESSAGE.to_string());
  let other = StringOrBytes::String("Screen captured".to_string());
  for _ in 0 .. vh::param("ops", 5) {
    match vh::choose("op", 4) {
      0 => {
        handler.capture_screenshot();
        requests += 1;
        waiting = true;
      },
      1 => {
        // a log: the screenshot asked for, or one of another kind
        let (kind, text) = match vh::choose("log", 3) {
          0 => (LogType::Replay, &message),
          1 => (LogType::Normal, &message),
          _ => (LogType::Replay, &other),
        };
        let is = kind == LogType::Replay && std::ptr::eq(text, &message);
        vh::assume(!is || (outstanding && !answered));
        interceptor.process(2, kind, text, &mut vec![]);
        if is { answered = true; }
      },
      2 => {
        on = !on;
        set(on);
        both = true;
      },
      _ => {
        t.settle(&rt, u32::from(usize::from(waiting) + usize::from(answered) + usize::from(both) > 1));
        vh::check(!t.over, "keeps_running");
        let new = s.shots.load(Ordering::Relaxed) - taken;
        vh::check(new <= usize::from(waiting), "only_when_asked");
        if new == 1 {
          vh::check(!outstanding || answered, "not_before_the_previous_one");
          vh::check(on || both, "not_while_disabled");
          outstanding = true;
          if answered { vh::reach("next"); }
          vh::reach("taken");
        } else {
          if waiting {
            vh::check(!on || both || outstanding, "taken_when_possible");
            if !on { vh::reach("disabled"); } else if outstanding && !answered { vh::reach("not_ready"); }
          }
          if answered { outstanding = false; }
        }
        answered = false;
        waiting = false;
        both = false;
        taken += new;
        let counted = counter(&stats, "success") + counter(&stats, "channel_full") + counter(&stats, "disabled") + counter(&stats, "not_ready");
        vh::check(counted == requests, "every_request_counted_once");
        vh::check(counter(&stats, "success") == taken as u64, "success_counted");
        if counter(&stats, "channel_full") > 0 { vh::reach("full"); }
      },
    }
  }
  let mut stop = Box::pin(trigger.shutdown());
  vh::check(vh::poll_pinned(stop.as_mut()).is_none(), "waits_for_it");
  t.settle(&rt, 0);
  vh::check(t.over, "stops");
  drop(t);
  vh::check(vh::poll_pinned(stop.as_mut()).is_some(), "stopped");
});

// whatever logs come, asked for or not: at most one more screenshot than screenshot logs
vh::entry!(y01_unasked, {
  bd_client_common::error::UnexpectedErrorHandler::set_reporter(Arc::new(Quiet));
  let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
  let _in = rt.enter();
  vh::clock(1000, 0, 0, 0);
  let loader = ConfigLoader::new(Path::new("."));
  configure(&loader, &[("session_replay.screenshots.enabled", flag(true))]);
  let s = Screen::default();
  let stats = Collector::default();
  let (mut r, handler, interceptor) = Recorder::new(Box::new(s.clone()), &loader, &stats.scope(""));
  let trigger = ComponentShutdownTrigger::default();
  let shutdown = trigger.make_shutdown();
  let mut t = Task { f: Box::pin(r.run_with_shutdown(shutdown)), over: false, ms: 1_000_000 };
  let message = StringOrBytes::String(SESSION_REPLAY_SCREENSHOT_LOG_MESSAGE.to_string());
  let mut logs = 0;
  if vh::choose("one_taken", 2) == 1 {
    handler.capture_screenshot();
    t.settle(&rt, 0);
  }
  for _ in 0 .. vh::param("ops", 5) {
    match vh::choose("op", 3) {
      0 => handler.capture_screenshot(),
      1 => {
        interceptor.process(2, LogType::Replay, &message, &mut vec![]);
        logs += 1;
      },
      _ => t.settle(&rt, 1),
    }
    let n = s.shots.load(Ordering::Relaxed);
    vh::check(n <= 1 + logs, "not_before_the_previous_one");
    if n > 1 { vh::reach("several"); }
    vh::check(!t.over, "keeps_running");
  }
  // asked once more after its log, it takes one
  interceptor.process(2, LogType::Replay, &message, &mut vec![]);
  t.settle(&rt, 0);
  let n = s.shots.load(Ordering::Relaxed);
  handler.capture_screenshot();
  t.settle(&rt, 0);
  vh::check(s.shots.load(Ordering::Relaxed) == n + 1, "ready_after_its_log");
});

vh::entry!(y01_screens, {
  let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
  let _in = rt.enter();
  vh::clock(1000, 0, 0, 0);
  let loader = ConfigLoader::new(Path::new("."));
  let set = |on: bool, ms: u64| configure(&loader, &[("session_replay.screens.enabled", flag(on)), ("session_replay.screens.interval_ms", uint(ms as u32))]);
  let intervals = vh::param("intervals", 3);
  let mut p = Paced { on: vh::choose("on", 2) == 1, interval: crate::usage::INTERVALS[vh::choose("interval", intervals) as usize], next: 0, calls: 0 };
  set(p.on, p.interval);
  let s = Screen::default();
  let stats = Collector::default();
  let (mut r, _handler, _interceptor) = Recorder::new(Box::new(s.clone()), &loader, &stats.scope(""));
  let trigger = ComponentShutdownTrigger::default();
  let shutdown = trigger.make_shutdown();
  let mut t = Task { f: Box::pin(r.run_with_shutdown(shutdown)), over: false, ms: 1_000_000 };
  if p.interval == 0 { vh::reach("zero"); }
  t.settle(&rt, 0);
  p.check(t.ms, s.screens.load(Ordering::Relaxed), false);
  for _ in 0 .. vh::param("ops", 4) {
    let was_on = p.on;
    let op = vh::choose("op", 4);
    match op {
      0 | 3 => {
        if op == 3 { t.later(3001); }
        p.on = !p.on;
        set(p.on, p.interval);
      },
      1 => {
        let i = crate::usage::INTERVALS[vh::choose("interval", intervals) as usize];
        set(p.on, i);
        p.changed(t.ms, i);
      },
      _ => t.later([1000, 3000, 500][vh::choose("later", 3) as usize]),
    }
    t.settle(&rt, u32::from(op == 3));
    vh::check(!t.over, "keeps_running");
    p.check(t.ms, s.screens.load(Ordering::Relaxed), was_on && op == 3);
  }
  vh::check(s.shots.load(Ordering::Relaxed) == 0, "no_screenshots");
});
