//! L07: one upload through the retrying service, against the answers it gets.
use bd_api::upload::{TrackedLogBatch, UploadResponse};
use bd_api::DataUpload;
use bd_client_stats_store::Collector;
use bd_logger::verif_inside::{Outcome, Uploads};
use bd_proto::protos::client::api::RuntimeUpdate;
use bd_proto::protos::client::runtime::runtime::{value, Value};
use bd_proto::protos::client::runtime::Runtime;
use bd_runtime::runtime::ConfigLoader;
use bd_shutdown::ComponentShutdownTrigger;
use std::path::Path;
use tokio::sync::mpsc::{channel, Receiver};

pub fn uint(v: u32) -> Value { Value { type_: Some(value::Type::UintValue(v)), ..Default::default() } }

pub fn configure(loader: &ConfigLoader, values: &[(&str, u32)]) {
  let mut r = Runtime::default();
  for (k, v) in values {
    r.values.insert((*k).to_string(), uint(*v));
  }
  loader.update_snapshot(&RuntimeUpdate { version_nonce: "n".to_string(), runtime: Some(r).into(), ..Default::default() });
}

pub fn counter(c: &Collector, name: &str, labels: &[(&str, &str)]) -> u64 {
  let labels = labels.iter().map(|(k, v)| ((*k).to_string(), (*v).to_string())).collect();
  c.inner().find_counter(name, labels).map_or(0, |c| c.get())
}

pub fn next(rx: &mut Receiver<DataUpload>) -> Option<TrackedLogBatch> {
  match rx.try_recv() {
    Ok(DataUpload::LogsUploadRequest(u)) => Some(u),
    Ok(_) => vh::fail("only_logs"),
    Err(_) => None,
  }
}

pub fn answer(u: TrackedLogBatch, success: bool) {
  let uuid = u.uuid.clone();
  let _ = u.response_tx.send(UploadResponse { success, uuid });
}

fn limits(loader: &ConfigLoader, retries: u32) {
  configure(loader, &[
    ("log_uploader.retry_count", retries),
    ("log_uploader.initial_retry_backoff_ms", 0),
    ("log_uploader.max_retry_backoff_ms", 0),
    ("upload_ratelimit.bytes_count_per_period", u32::MAX),
  ]);
}

vh::entry!(l07_retry, {
  let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
  let _in = rt.enter();
  vh::clock(1000, 0, 0, 0);
  log::set_max_level(log::LevelFilter::Trace);
  let loader = ConfigLoader::new(Path::new("."));
  let most = vh::param("retries", 2) as u32;
  let mut limit = vh::choose("limit", u64::from(most) + 1) as u32;
  limits(&loader, limit);
  let stats = Collector::default();
  let scope = stats.scope("");
  let mut trigger = Some(ComponentShutdownTrigger::default());
  let (tx, rx) = channel(1);
  let mut rx = Some(rx);
  let uploads = Uploads::new(tx, trigger.as_ref().unwrap().make_shutdown(), &loader, &scope);
  let logs: Vec<Vec<u8>> = (0 .. vh::choose("logs", 3)).map(|i| vec![vh::u8v("log"); i as usize + 1]).collect();
  let mut f = Box::pin(uploads.clone().upload(logs.clone()));
  let mut uuid: Option<String> = None;
  let (mut attempts, mut failures) = (0u64, 0u64);
  let mut shutdown = None;
  let end = loop {
    if let Some(r) = vh::poll_pinned(f.as_mut()) { break r; }
    if shutdown.is_some() { vh::fail("stops_at_shutdown"); }
    let Some(u) = rx.as_mut().and_then(next) else { vh::fail("attempted") };
    attempts += 1;
    vh::check(attempts <= u64::from(most) + 1, "bounded");
    // every attempt is the same upload
    if let Some(x) = &uuid { vh::check(*x == u.uuid, "same_identifier"); }
    vh::check(u.uuid == u.payload.upload_uuid, "identifier_sent");
    uuid = Some(u.uuid.clone());
    vh::check(u.payload.logs == logs, "same_logs");
    vh::check(u.payload.buffer_uuid == "b", "same_buffer");
    let how = vh::choose("answer", 6);
    match how {
      0 => {
        answer(u, true);
        let r = vh::poll_pinned(f.as_mut());
        vh::check(r == Some(Outcome::Success), "success_ends_it");
        vh::reach("success");
        break Outcome::Success;
      },
      1 | 2 | 5 => {
        if how == 5 {
          limit = vh::choose("limit", u64::from(most) + 1) as u32;
          limits(&loader, limit);
        }
        failures += 1;
        // an explicit no, or the stream going away before an answer
        if how == 1 { answer(u, false); } else { drop(u); }
        if failures > u64::from(limit) {
          let r = vh::poll_pinned(f.as_mut());
          vh::check(r == Some(Outcome::Failure), "gives_up");
          vh::reach("gave_up");
          break Outcome::Failure;
        }
        vh::reach("retried");
      },
      3 => {
        shutdown = Some(Box::pin(trigger.take().unwrap().shutdown()));
        let _ = vh::poll_pinned(shutdown.as_mut().unwrap().as_mut());
        let r = vh::poll_pinned(f.as_mut());
        vh::check(r == Some(Outcome::Canceled), "canceled_by_shutdown");
        vh::reach("canceled");
        break Outcome::Canceled;
      },
      _ => {
        rx = None;
        failures += 1;
        drop(u);
        let r = vh::poll_pinned(f.as_mut());
        // nobody there for the next attempt
        vh::check(r == Some(if failures > u64::from(limit) { Outcome::Failure } else { Outcome::Canceled }), "nobody_there");
        attempts += u64::from(r == Some(Outcome::Canceled));
        vh::reach("nobody");
        break r.unwrap();
      },
    }
  };
  let gave_up = end == Outcome::Failure;
  vh::check(counter(&stats, "uploader:retry_limit_exceeded", &[]) == u64::from(gave_up), "giving_up_counted");
  vh::check(counter(&stats, "uploader:retry_limit_exceeded_dropped_logs", &[]) == if gave_up { logs.len() as u64 } else { 0 }, "dropped_logs_counted");
  vh::check(counter(&stats, "uploader:log_upload_attempt", &[("buffer_id", "b")]) == attempts, "attempts_counted");
  vh::check(counter(&stats, "uploader:log_upload_failure", &[("buffer_id", "b")]) == failures, "failures_counted");
  // the next upload is another one, with all of its attempts
  if let (Some(mut rx), None) = (rx, &shutdown) {
    let mut f = Box::pin(uploads.upload(logs.clone()));
    vh::check(vh::poll_pinned(f.as_mut()).is_none(), "next_started");
    for i in 0 ..= limit {
      let Some(u) = next(&mut rx) else { vh::fail("next_attempted") };
      vh::check(Some(&u.uuid) != uuid.as_ref(), "another_identifier");
      answer(u, false);
      let r = vh::poll_pinned(f.as_mut());
      vh::check(r == if i == limit { Some(Outcome::Failure) } else { None }, "next_retries");
    }
  }
});
