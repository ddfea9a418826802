#![allow(dead_code)]
mod events;
mod replay;
mod usage;

use bd_proto::protos::client::api::RuntimeUpdate;
use bd_proto::protos::client::runtime::runtime::{value, Value};
use bd_proto::protos::client::runtime::Runtime;
use bd_runtime::runtime::ConfigLoader;
use std::future::Future;
use std::pin::Pin;

pub fn uint(v: u32) -> value::Type { value::Type::UintValue(v) }
pub fn flag(v: bool) -> value::Type { value::Type::BoolValue(v) }

pub fn configure(loader: &ConfigLoader, values: &[(&str, value::Type)]) {
  let mut r = Runtime::default();
  for (k, v) in values {
    r.values.insert((*k).to_string(), Value { type_: Some(v.clone()), ..Default::default() });
  }
  loader.update_snapshot(&RuntimeUpdate { version_nonce: "n".to_string(), runtime: Some(r).into(), ..Default::default() });
}

/// A task of its own on a runtime whose clock is the checker's.
pub struct Task<'a> {
  pub f: Pin<Box<dyn Future<Output = ()> + 'a>>,
  pub over: bool,
  pub ms: u64,
}

impl<'a> Task<'a> {
  pub fn poll(&mut self) {
    if !self.over { self.over = vh::poll_pinned(self.f.as_mut()).is_some(); }
  }
  /// Lets it do all it has to do now; the first round looks at its sources in any order.
  pub fn settle(&mut self, rt: &tokio::runtime::Runtime, orders: u32) {
    rt.block_on(async { tokio::task::yield_now().await });
    vh_select::fresh(orders);
    self.poll();
    vh_select::fresh(0);
    rt.block_on(async { tokio::task::yield_now().await });
    self.poll();
  }
  pub fn later(&mut self, ms: u64) {
    self.ms += ms;
    vh::clock(self.ms / 1000, self.ms % 1000 * 1_000_000, 0, 0);
  }
}

/// Calls that have to keep at least an interval's distance and come when it is over.
pub struct Paced {
  pub on: bool,
  pub interval: u64,
  /// no earlier than this
  pub next: u64,
  pub calls: usize,
}

impl Paced {
  /// What the calls at `now` must have been, with `calls` of them so far, all having caught up.
  pub fn check(&mut self, now: u64, calls: usize, was_on: bool) {
    let new = calls - self.calls;
    vh::check(new <= 1, "one_at_a_time");
    if new == 1 {
      vh::check(self.on || was_on, "not_while_disabled");
      vh::check(now >= self.next, "not_before_the_interval_is_over");
      vh::reach(if self.on { "called" } else { "called_before_disabled" });
      self.next = now + self.interval.max(1);
    } else if self.on {
      // timers have millisecond resolution
      vh::check(now <= self.next, "called_when_the_interval_is_over");
      vh::reach("waits");
    }
    self.calls = calls;
  }
  pub fn changed(&mut self, now: u64, interval: u64) {
    if interval != self.interval {
      self.interval = interval;
      self.next = now + interval.max(1);
    }
  }
}

