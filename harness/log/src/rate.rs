//! L03: the quota of one window, at the level of the wrapped service.
use bd_logger::ratelimit::{Rate, RateLimitLayer, RequestSized};
use bd_proto::protos::client::api::RuntimeUpdate;
use bd_proto::protos::client::runtime::runtime::{value, Value};
use bd_proto::protos::client::runtime::Runtime;
use bd_runtime::runtime::ConfigLoader;
use std::convert::Infallible;
use std::future::{ready, Ready};
use std::path::Path;
use std::task::{Context, Poll};
use tower::{Layer, Service};

struct Req(u32);

impl RequestSized for Req {
  fn per_request_size(&self) -> u32 { self.0 }
}

#[derive(Clone)]
struct Inner;

impl Service<Req> for Inner {
  type Response = u32;
  type Error = Infallible;
  type Future = Ready<Result<u32, Infallible>>;
  fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), Infallible>> { Poll::Ready(Ok(())) }
  fn call(&mut self, r: Req) -> Self::Future { ready(Ok(r.0)) }
}

fn uint(v: u32) -> Value { Value { type_: Some(value::Type::UintValue(v)), ..Default::default() } }

fn configure(loader: &ConfigLoader, quota: u32, ms: u32) {
  let mut r = Runtime::default();
  r.values.insert("upload_ratelimit.bytes_count_per_period".to_string(), uint(quota));
  r.values.insert("upload_ratelimit.period_ms".to_string(), uint(ms));
  loader.update_snapshot(&RuntimeUpdate { version_nonce: "n".to_string(), runtime: Some(r).into(), ..Default::default() });
}

vh::entry!(l03_windows, {
  let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
  let _in = rt.enter();
  let loader = ConfigLoader::new(Path::new("."));
  let quota = vh::range("quota", 0, u64::from(u32::MAX)) as u32;
  let period = [1, 250, 1000, 60_000][vh::choose("period", 4) as usize];
  configure(&loader, quota, period);
  let window = u64::from(period) * 1_000_000;
  let mut now = 1_000_000_000_000u64;
  vh::clock(now / 1_000_000_000, now % 1_000_000_000, 0, 0);
  let layer = RateLimitLayer::new(Rate::new(&loader).unwrap());
  let mut a = layer.layer(Inner);
  let mut b = layer.layer(Inner);
  // the current window: when it ends, what it admitted
  let mut end = now;
  let mut admitted = 0u64;
  for i in 0 .. vh::param("calls", 4) {
    // (not the very instant a window ends: a refused caller would spin until the clock moved on)
    let to = [now + 1, end - 1, end + 1, end + window / 2, end + 3 * window][if i == 0 { 0 } else { vh::choose("at", 5) as usize }];
    if to > now && to != end { now = to; }
    vh::clock(now / 1_000_000_000, now % 1_000_000_000, 0, 0);
    let size = vh::u32v("size");
    let f = if i % 2 == 0 { a.call(Req(size)) } else { b.call(Req(size)) };
    let done = vh::poll_n(f, 1);
    if now > end {
      end = now + window;
      admitted = 0;
    }
    match done {
      Some(r) => {
        vh::check(r == Ok(size), "passed_on");
        // (a quota of nothing still lets the one request that crosses it through)
        vh::check(admitted < u64::from(quota) || admitted == 0, "within_quota");
        admitted += u64::from(size);
        vh::reach("admitted");
      },
      None => {
        vh::check(admitted >= u64::from(quota), "refused_only_when_used_up");
        vh::reach("refused");
      },
    }
  }
});
