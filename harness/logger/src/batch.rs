//! L06: batches, alone and as the buffer uploaders fill them.
use crate::retry::{answer, configure, next};
use bd_buffer::buffer::RingBufferCursorConsumer;
use bd_buffer::verif_inside::{consumer, cursor};
use bd_buffer::{AbslCode, Error, RingBufferConsumer};
use bd_client_common::fb::make_log;
use bd_client_stats_store::Collector;
use bd_log_primitives::StringOrBytes;
use bd_proto::flatbuffers::buffer_log::bitdrift_public::fbs::logging::v_1::LogType;
use flatbuffers::FlatBufferBuilder;
use bd_logger::verif_inside::{Batch, Uploads};
use bd_runtime::runtime::ConfigLoader;
use bd_shutdown::ComponentShutdownTrigger;
use std::path::Path;
use std::sync::{Arc, Mutex};
use tokio::sync::mpsc::channel;

fn limits(loader: &ConfigLoader, logs: u32, bytes: u32, lookback: u32) {
  configure(loader, &[
    ("log_uploader.batch_size", logs),
    ("log_uploader.batch_size_bytes", bytes),
    ("log_uploader.batch_deadline_ms", 1000),
    ("log_uploader.retry_count", 0),
    ("log_uploader.initial_retry_backoff_ms", 0),
    ("log_uploader.max_retry_backoff_ms", 0),
    ("upload_ratelimit.bytes_count_per_period", u32::MAX),
    ("workflows.flush_buffer_lookback_ms", lookback),
  ]);
}

const SIZES: [usize; 4] = [0, 1, 3, 7];

vh::entry!(l06_batch, {
  let loader = ConfigLoader::new(Path::new("."));
  let limit = |n| vh::range(n, 0, 64) as u32;
  let (mut logs, mut bytes) = (limit("logs"), limit("bytes"));
  limits(&loader, logs, bytes, 0);
  let mut b = Batch::new(&loader);
  let mut held: Vec<Vec<u8>> = vec![];
  for _ in 0 .. vh::param("ops", 4) {
    match vh::choose("op", 3) {
      0 => {
        let mut l = vec![0; SIZES[vh::choose("size", 4) as usize]];
        vh::bytes(&mut l, "log");
        b.add(l.clone());
        held.push(l);
      },
      1 => {
        vh::check(b.take() == held, "takes_all_in_order");
        if !held.is_empty() { vh::reach("taken"); }
        held.clear();
      },
      _ => {
        logs = limit("logs");
        bytes = limit("bytes");
        limits(&loader, logs, bytes, 0);
      },
    }
    let total: usize = held.iter().map(Vec::len).sum();
    let full = (held.len() as u64 >= u64::from(logs)) | (total as u64 >= u64::from(bytes));
    let want = !held.is_empty() && full;
    vh::check(b.full() == want, "full_exactly_at_limit");
    if want { vh::reach("full"); } else { vh::reach("not_full"); }
  }
});

#[derive(Default)]
struct Source {
  records: Vec<Vec<u8>>,
  read: usize,
  released: usize,
  busy: bool,
}

#[derive(Clone, Default)]
struct Script {
  s: Arc<Mutex<Source>>,
  now: Vec<u8>,
}

impl Script {
  fn take(&mut self) -> Result<(), Error> {
    let mut s = self.s.lock().unwrap();
    if s.busy || s.read == s.records.len() {
      return Err(Error::AbslStatus(AbslCode::Unavailable, String::new()));
    }
    self.now = s.records[s.read].clone();
    s.read += 1;
    Ok(())
  }
}

#[async_trait::async_trait]
impl RingBufferConsumer for Script {
  async fn read<'a>(&'a mut self) -> Result<&'a [u8], Error> { vh::fail("not_used") }
  fn start_read(&mut self, _: bool) -> Result<&[u8], Error> {
    self.take()?;
    self.s.lock().unwrap().busy = true;
    Ok(&self.now)
  }
  fn finish_read(&mut self) -> Result<(), Error> {
    let mut s = self.s.lock().unwrap();
    vh::check(s.busy, "finishes_what_was_started");
    s.busy = false;
    s.released += 1;
    Ok(())
  }
}

#[async_trait::async_trait]
impl RingBufferCursorConsumer for Script {
  async fn read<'a>(&'a mut self) -> Result<&'a [u8], Error> {
    std::future::poll_fn(|_| if self.take().is_ok() { std::task::Poll::Ready(()) } else { std::task::Poll::Pending }).await;
    Ok(&self.now)
  }
  fn start_read(&mut self, _: bool) -> Result<&[u8], Error> { vh::fail("not_used") }
  fn advance_read_pointer(&mut self) -> Result<(), Error> {
    let mut s = self.s.lock().unwrap();
    vh::check(s.released < s.read, "releases_what_was_read");
    s.released += 1;
    Ok(())
  }
}

fn record() -> Vec<u8> {
  let mut l = vec![0; SIZES[vh::choose("size", 4) as usize]];
  vh::bytes(&mut l, "record");
  l
}

fn full(batch: &[Vec<u8>], logs: u32, bytes: u32) -> bool {
  !batch.is_empty() && (batch.len() >= logs as usize || batch.iter().map(Vec::len).sum::<usize>() >= bytes as usize)
}

// everything in a buffer, once
vh::entry!(l06_everything, {
  let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
  let _in = rt.enter();
  vh::clock(1000, 0, 0, 0);
  let loader = ConfigLoader::new(Path::new("."));
  let (logs, bytes) = (vh::choose("logs", 4) as u32, [0, 1, 3, 4, 100][vh::choose("bytes", 5) as usize]);
  limits(&loader, logs, bytes, 0);
  let stats = Collector::default();
  let trigger = ComponentShutdownTrigger::default();
  let (tx, mut rx) = channel(1);
  let uploads = Uploads::new(tx, trigger.make_shutdown(), &loader, &stats.scope(""));
  let script = Script::default();
  let records: Vec<Vec<u8>> = (0 .. vh::choose("records", vh::param("records", 3) + 1)).map(|_| record()).collect();
  script.s.lock().unwrap().records = records.clone();
  let mut f = Box::pin(uploads.everything(consumer(Box::new(script.clone())), &loader));
  let mut sent: Vec<Vec<u8>> = vec![];
  let n = loop {
    if let Some(r) = vh::poll_pinned(f.as_mut()) { break r; }
    let Some(u) = next(&mut rx) else { vh::fail("goes_on") };
    let batch = u.payload.logs.clone();
    let last = sent.len() + batch.len() == records.len();
    vh::check(!batch.is_empty(), "no_empty_batch");
    vh::check(last || full(&batch, logs, bytes), "sent_when_full");
    vh::check(!full(&batch[.. batch.len() - 1], logs, bytes), "not_beyond_full");
    if full(&batch, logs, bytes) { vh::reach("full"); } else { vh::reach("rest"); }
    sent.extend(batch);
    answer(u, vh::choose("accepted", 2) == 0);
  };
  vh::check(sent == records, "all_once_in_order");
  vh::check(n == Some(records.len() as i32), "count");
  vh::reach("done");
});

// a buffer's continuous upload
vh::entry!(l06_continuous, {
  let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
  let _in = rt.enter();
  let mut now = 1000;
  vh::clock(now, 0, 0, 0);
  let loader = ConfigLoader::new(Path::new("."));
  let (mut logs, bytes) = (1 + vh::choose("logs", 3) as u32, [1, 3, 4, 100][vh::choose("bytes", 4) as usize]);
  limits(&loader, logs, bytes, 0);
  let stats = Collector::default();
  let trigger = ComponentShutdownTrigger::default();
  let stop = ComponentShutdownTrigger::default();
  let (tx, mut rx) = channel(1);
  let uploads = Uploads::new(tx, trigger.make_shutdown(), &loader, &stats.scope(""));
  let script = Script::default();
  let mut f = Box::pin(uploads.continuous(cursor(Box::new(script.clone())), &loader, stop.make_shutdown()));
  let mut pending = None;
  let mut acked = 0; // records whose upload has ended
  let mut batch = 0; // records of the batch being uploaded
  let mut written = 0;
  let mut armed: Option<u64> = None;
  for _ in 0 .. vh::param("ops", 4) {
    match vh::choose("op", 4) {
      0 => {
        let r = record();
        script.s.lock().unwrap().records.push(r);
        written += 1;
      },
      1 => {
        if let Some(u) = pending.take() {
          match vh::choose("answer", 3) {
            0 => answer(u, true),
            1 => answer(u, false),
            _ => drop(u),
          }
          acked += batch;
          batch = 0;
          vh::reach("answered");
        }
      },
      2 => {
        now += 2;
        vh::clock(now, 0, 0, 0);
      },
      _ => {
        logs = 1 + vh::choose("logs", 3) as u32;
        limits(&loader, logs, bytes, 0);
      },
    }
    vh::check(vh::poll_pinned(f.as_mut()).is_none(), "keeps_running");
    let _ = rt.block_on(async { tokio::task::yield_now().await });
    vh::check(vh::poll_pinned(f.as_mut()).is_none(), "keeps_running");
    if let Some(u) = next(&mut rx) {
      vh::check(pending.is_none(), "one_at_a_time");
      let s = script.s.lock().unwrap();
      let b = &u.payload.logs;
      vh::check(!b.is_empty() && acked + b.len() <= s.records.len(), "something_to_send");
      vh::check(b[..] == s.records[acked .. acked + b.len()], "next_records_in_order");
      let f = full(b, logs, bytes);
      vh::check(f || armed.map_or(false, |a| now > a), "sent_when_full_or_due");
      if f { vh::reach("full"); } else { vh::reach("due"); }
      batch = b.len();
      drop(s);
      pending = Some(u);
      armed = None;
    }
    let s = script.s.lock().unwrap();
    vh::check(s.released == acked, "released_when_answered");
    if pending.is_none() {
      // what waits is less than a batch and not due
      vh::check(s.read == written, "reads_on");
      vh::check(!full(&s.records[acked ..], logs, bytes), "full_is_sent");
      vh::check(armed.map_or(true, |a| now <= a), "due_is_sent");
      if s.read > acked && armed.is_none() { armed = Some(now); }
    }
  }
});

fn logged(at: time::OffsetDateTime, text: &str) -> Vec<u8> {
  let mut out = vec![];
  make_log(
    &mut FlatBufferBuilder::new(),
    1,
    LogType::Normal,
    &StringOrBytes::String(text.to_string()),
    &vec![],
    "s",
    at,
    std::iter::empty(),
    std::iter::empty(),
    |b| {
      out = b.to_vec();
      Ok(())
    },
  )
  .unwrap_or_else(|_| vh::fail("encoded"));
  out
}

// what is too old for the window stays out of a triggered upload, and nothing else
vh::entry!(l06_lookback, {
  let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
  let _in = rt.enter();
  let now = 1_700_000_000i64;
  vh::clock(1000, 0, now as u64, 500_000_000);
  let loader = ConfigLoader::new(Path::new("."));
  let window = [0u32, 1, 1000, 60_000][vh::choose("window", 4) as usize];
  limits(&loader, 2, 100_000, window);
  let stats = Collector::default();
  let trigger = ComponentShutdownTrigger::default();
  let (tx, mut rx) = channel(1);
  let uploads = Uploads::new(tx, trigger.make_shutdown(), &loader, &stats.scope(""));
  let start = i128::from(now) * 1_000_000_000 + 500_000_000 - i128::from(window) * 1_000_000;
  let script = Script::default();
  let mut want = vec![];
  let mut old = 0;
  for i in 0 .. vh::param("records", 3) {
    let r = match vh::choose("record", 7) {
      6 => vec![9, 9],
      k => {
        let off = [-1_000_000_000i128, -1, 0, 1, 1_000_000_000, 3_600_000_000_000][k as usize];
        let r = logged(time::OffsetDateTime::from_unix_timestamp_nanos(start + off).unwrap_or_else(|_| vh::fail("time")), &i.to_string());
        if off < 0 && window > 0 {
          script.s.lock().unwrap().records.push(r);
          old += 1;
          continue;
        }
        r
      },
    };
    script.s.lock().unwrap().records.push(r.clone());
    want.push(r);
  }
  let dropped = bd_client_stats_store::Counter::default();
  let mut f = Box::pin(uploads.everything_counted(consumer(Box::new(script.clone())), &loader, dropped.clone()));
  let mut sent: Vec<Vec<u8>> = vec![];
  let n = loop {
    if let Some(r) = vh::poll_pinned(f.as_mut()) { break r; }
    let Some(u) = next(&mut rx) else { vh::fail("goes_on") };
    sent.extend(u.payload.logs.clone());
    answer(u, true);
  };
  vh::check(sent == want, "recent_ones");
  vh::check(n == Some(want.len() as i32), "count");
  vh::check(dropped.get() == old, "old_ones_counted");
  if old > 0 { vh::reach("old"); }
  if !want.is_empty() { vh::reach("recent"); }
});
