//! X01: unexpected errors are reported at a bounded rate.
use bd_client_common::error::{
  handle_unexpected, handle_unexpected_error_with_details, handle_unexpected_or, with_handle_unexpected,
  with_handle_unexpected_or, Reporter, UnexpectedErrorHandler,
};
use bd_client_stats_store::Collector;
use std::borrow::Cow;
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Default)]
struct R(parking_lot::Mutex<Vec<(String, Option<String>)>>);
impl Reporter for R {
  fn report(&self, message: &str, details: &Option<String>, _fields: &HashMap<Cow<'_, str>, Cow<'_, str>>) {
    self.0.lock().push((message.to_string(), details.clone()));
  }
}

const LIMIT: usize = 5;

fn err(name: &str) -> anyhow::Result<u32> { Err(anyhow::anyhow!("{name}")) }

vh::entry!(x01_limit, {
  let r = Arc::new(R::default());
  let local = Arc::new(R::default());
  UnexpectedErrorHandler::set_reporter(r.clone());
  let stats = Collector::default();
  let scope = stats.scope("s");
  UnexpectedErrorHandler::register_stats(&scope);
  let dropped = scope.scope("error_reporter").counter("dropped_errors");
  let mut left = LIMIT;
  let mut errors = 0;
  let mut lost = 0;
  let mut cause = "c0".to_string();
  for i in 0 .. vh::param("ops", 8) {
    cause.clear();
    cause.push('c');
    cause.push((b'0' + i as u8) as char);
    let before = (r.0.lock().len(), local.0.lock().len());
    let mut details = None;
    let mut to_local = false;
    let mut fails = true;
    match vh::choose("op", if errors < 4 { 3 } else { 8 }) {
      0 => {
        fails = vh::choose("fails", 2) == 1;
        handle_unexpected::<u32, anyhow::Error>(if fails { err(&cause) } else { Ok(1) }, "d");
      },
      1 => {
        details = Some("more".to_string());
        handle_unexpected_error_with_details(err(&cause).unwrap_err(), "d", || Some("more".to_string()));
      },
      2 => {
        to_local = true;
        UnexpectedErrorHandler::with_reporter(local.clone(), || handle_unexpected::<u32, anyhow::Error>(err(&cause), "d"));
      },
      3 => vh::check(handle_unexpected_or(err(&cause), 7, "d") == 7, "other_value"),
      4 => with_handle_unexpected::<u32, anyhow::Error>(|| err(&cause), "d"),
      5 => vh::check(with_handle_unexpected_or(|| err(&cause), 7, "d") == 7, "other_value"),
      6 => {
        fails = false;
        vh::check(handle_unexpected_or(Ok(3), 7, "d") == 3, "value_kept");
      },
      _ => {
        fails = false;
        UnexpectedErrorHandler::disable();
        left = 0;
      },
    }
    let after = (r.0.lock().len(), local.0.lock().len());
    if fails {
      errors += 1;
    }
    if fails && left > 0 {
      left -= 1;
      let want = if to_local { (before.0, before.1 + 1) } else { (before.0 + 1, before.1) };
      vh::check(after == want, "reported_once");
      let g = if to_local { local.0.lock() } else { r.0.lock() };
      let (m, d) = &g[g.len() - 1];
      let mut text = "d: ".to_string();
      text.push_str(&cause);
      vh::check(*m == text, "context_and_cause");
      vh::check(*d == details, "details");
      vh::reach("reported");
    } else {
      vh::check(after == before, "nothing_reported");
      if fails {
        lost += 1;
        vh::reach("limited");
      }
    }
    vh::check(dropped.get() == lost, "refused_reports_counted");
  }
  vh::check(r.0.lock().len() + local.0.lock().len() <= LIMIT, "bounded");
});

vh::entry!(x01_threads, {
  let r = Arc::new(R::default());
  UnexpectedErrorHandler::set_reporter(r.clone());
  let n = vh::param("each", 3);
  vh::par(2, &|_| {
    for _ in 0 .. n {
      handle_unexpected::<u32, anyhow::Error>(err("c"), "d");
    }
  });
  let want = LIMIT.min(2 * n as usize);
  vh::check(r.0.lock().len() == want, "bounded_and_none_lost");
  vh::check(r.0.lock().iter().all(|(m, _)| m == "d: c"), "context_and_cause");
  vh::reach("threads");
});

/// Takes no notice.
pub struct Quiet;
impl Reporter for Quiet {
  fn report(&self, _: &str, _: &Option<String>, _: &HashMap<Cow<'_, str>, Cow<'_, str>>) {}
}
