//! C01 and C04: flushes, uploads, answers and restarts in any order.
use crate::counters::configure;
use bd_api::upload::UploadResponse;
use bd_api::DataUpload;
use bd_client_stats::verif_inside::{handles, Dir, Ticks};
use bd_client_stats::{DynamicStats, FlushTrigger, Stats};
use bd_client_stats_store::{Collector, Counter};
use bd_proto::protos::client::api::stats_upload_request::snapshot::Snapshot_type;
use bd_proto::protos::client::api::StatsUploadRequest;
use bd_proto::protos::client::metric::metric::Data;
use bd_proto::protos::client::metric::PendingAggregationIndex;
use bd_runtime::runtime::ConfigLoader;
use bd_shutdown::ComponentShutdownTrigger;
use std::collections::BTreeMap;
use std::future::Future;
use std::path::Path;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use time::OffsetDateTime;

struct Clock(Mutex<i64>);

#[async_trait::async_trait]
impl bd_time::TimeProvider for Clock {
  fn now(&self) -> OffsetDateTime {
    time::macros::datetime!(2024-03-01 12:00:00 UTC) + time::Duration::seconds(*self.0.lock().unwrap())
  }
  async fn sleep(&self, _: time::Duration) { std::future::pending().await }
}

/// One process life.
struct Life {
  flush: Ticks,
  upload: Ticks,
  trigger: FlushTrigger,
  dynamic: Arc<DynamicStats>,
  stats: Arc<Stats>,
  counter: Counter,
  run: Pin<Box<dyn Future<Output = ()>>>,
  rx: tokio::sync::mpsc::Receiver<DataUpload>,
  shutdown: ComponentShutdownTrigger,
  pending: Option<(StatsUploadRequest, tokio::sync::oneshot::Sender<UploadResponse>)>,
}

impl Life {
  fn new(dir: &Dir, clock: &Arc<Clock>, loader: &ConfigLoader) -> Self {
    let collector = Collector::default();
    let scope = collector.scope("");
    let dynamic = Arc::new(DynamicStats::new(&scope, loader));
    let stats = Stats::new(collector, dynamic.clone());
    let counter = stats.scope("s").counter("c");
    let (flush, upload) = (Ticks::default(), Ticks::default());
    let shutdown = ComponentShutdownTrigger::default();
    let (tx, rx) = tokio::sync::mpsc::channel(4);
    let h = handles(&stats, dir, &flush, &upload, shutdown.make_shutdown(), tx, clock.clone(), loader);
    Self {
      flush, upload, trigger: h.flush_trigger, dynamic, stats, counter,
      run: Box::pin(h.flusher.periodic_flush()),
      rx, shutdown, pending: None,
    }
  }

  fn go(&mut self) {
    for _ in 0 .. 2 {
      vh::check(vh::poll_pinned(self.run.as_mut()).is_none(), "keeps_running");
    }
    if let Ok(u) = self.rx.try_recv() {
      let DataUpload::StatsUploadRequest(t) = u else { vh::fail("not_stats") };
      vh::check(self.pending.is_none(), "one_upload_at_a_time");
      vh::check(t.uuid == t.payload.upload_uuid, "identified");
      self.pending = Some((t.payload, t.response_tx));
    }
    vh::check(self.rx.try_recv().is_err(), "one_upload_at_a_time");
  }

  fn flush(&mut self) {
    *self.flush.0.lock().unwrap() += 1;
    self.go();
  }

  fn upload(&mut self) {
    *self.upload.0.lock().unwrap() += 1;
    self.go();
  }

  fn answer(&mut self, success: bool) {
    if let Some((r, tx)) = self.pending.take() {
      let _ = tx.send(UploadResponse { success, uuid: r.upload_uuid.clone() });
      self.go();
    }
  }
}

/// What a request reports for the two counters.
fn reported(r: &StatsUploadRequest) -> [u64; 2] {
  let mut n = [0; 2];
  vh::check(r.snapshot.len() == 1, "one_snapshot");
  for s in &r.snapshot {
    let Some(Snapshot_type::Metrics(m)) = &s.snapshot_type else { vh::fail("no_metrics") };
    for m in &m.metric {
      if let Some(Data::Counter(c)) = &m.data {
        match m.name.as_str() {
          "s:c" => n[0] += c.value,
          "d" => n[1] += c.value,
          _ => {},
        }
      }
    }
  }
  n
}


// what the server accepts is what was counted
vh::entry!(c01_history, {
  let loader = ConfigLoader::new(Path::new("."));
  let dir = Dir::default();
  let clock = Arc::new(Clock(Mutex::new(0)));
  let mut life = Life::new(&dir, &clock, &loader);
  let mut counted = [0u64; 2];
  let mut accepted: BTreeMap<String, [u64; 2]> = BTreeMap::new();
  let ops = vh::param("ops", 5);
  let wide = vh::param("wide", 15);
  for i in 0 .. ops + 3 {
    // the last steps bring everything that is left to the server
    let op = if i < ops {
      let valid: &[u64] = if life.pending.is_some() { &[0, 1, 3, 4, 5] } else { &[0, 1, 2, 5, 6] };
      valid[vh::choose("op", 5) as usize]
    } else {
      7
    };
    match op {
      0 => {
        let v = vh::range("by", 1, wide);
        life.counter.inc_by(v);
        life.counter.inc();
        counted[0] += v + 1;
        life.dynamic.record_dynamic_counter("d", BTreeMap::new(), v);
        counted[1] += v;
      },
      1 => life.flush(),
      2 => life.upload(),
      3 | 4 => {
        if let Some((r, _)) = &life.pending {
          // the server has it even when its answer is lost
          let n = reported(r);
          if let Some(before) = accepted.insert(r.upload_uuid.clone(), n) {
            vh::check(before == n, "same_upload_same_content");
            vh::reach("again");
          }
          life.answer(op == 3);
          vh::reach("answered");
        }
      },
      5 => {
        // a flush before the process ends, and a new one
        life.flush();
        life = Life::new(&dir, &clock, &loader);
        vh::reach("restart");
      },
      6 => *clock.0.lock().unwrap() += 200,
      _ => {
        life.flush();
        while { if life.pending.is_none() { life.upload(); } life.pending.is_some() } {
          let r = &life.pending.as_ref().unwrap().0;
          let n = reported(r);
          if let Some(before) = accepted.insert(r.upload_uuid.clone(), n) {
            vh::check(before == n, "same_upload_same_content");
            vh::reach("again");
          }
          life.answer(true);
        }
        break;
      },
    }
  }
  let mut sum = [0u64; 2];
  for n in accepted.values() {
    sum[0] += n[0];
    sum[1] += n[1];
  }
  vh::check(sum[0] == counted[0], "conserved");
  vh::check(sum[1] == counted[1], "conserved_dynamic");
});

fn names(dir: &Dir) -> Vec<String> {
  let mut n: Vec<String> = vec![];
  for k in dir.0.lock().unwrap().files.keys() {
    let k = k.file_name().unwrap().to_str().unwrap();
    if k != "pending_aggregation_index.pb" {
      n.push(k.to_string());
    }
  }
  n
}

// bounds, order and acknowledgement, whatever the order of things
vh::entry!(c04_history, {
  let loader = ConfigLoader::new(Path::new("."));
  let max = vh::choose("max", 3) as u32;
  configure(&loader, &[("stats.max_aggregated_files", max)]);
  // a limit of nothing still leaves the file being written
  let limit = (max as usize).max(1);
  let dir = Dir::default();
  let clock = Arc::new(Clock(Mutex::new(0)));
  let mut life = Life::new(&dir, &clock, &loader);
  // the files there are, oldest first
  let mut order: Vec<String> = vec![];
  let mut acknowledged: Vec<String> = vec![];
  for _ in 0 .. vh::param("ops", 6) {
    let mut taken = None;
    let had = life.pending.is_some();
    match vh::choose("op", 7) {
      0 => {
        life.counter.inc();
        life.flush();
      },
      1 => life.flush(),
      2 => life.upload(),
      3 => {
        if let Some((r, _)) = &life.pending {
          taken = Some(r.upload_uuid.clone());
        }
        life.answer(true);
      },
      4 => life.answer(false),
      5 => {
        life = Life::new(&dir, &clock, &loader);
        vh::reach("restart");
      },
      _ => *clock.0.lock().unwrap() += 400,
    }
    let now = names(&dir);
    vh::check(now.len() <= limit, "within_limit");
    if let Some(t) = taken {
      // the answered one goes, unless it had to make room before its answer came
      if order.contains(&t) {
        vh::check(!now.contains(&t), "acknowledged_goes");
        vh::reach("acknowledged");
      } else {
        vh::reach("late_answer");
      }
      order.retain(|x| *x != t);
      acknowledged.push(t);
      vh::check(order.iter().all(|x| now.contains(x)), "others_stay");
    } else {
      let gone = order.iter().filter(|x| !now.contains(x)).count();
      vh::check(order[gone ..].iter().all(|x| now.contains(x)), "oldest_first");
      vh::check(gone == 0 || order.len() >= limit, "only_to_make_room");
      if gone > 0 {
        vh::reach("evicted");
      }
      order.drain(.. gone);
    }
    for n in now {
      if !order.contains(&n) {
        vh::check(!acknowledged.contains(&n), "acknowledged_stays_gone");
        order.push(n);
      }
    }
    if let Some((r, _)) = &life.pending {
      if !had {
        vh::check(order.first() == Some(&r.upload_uuid), "oldest_is_uploaded");
        vh::check(!acknowledged.contains(&r.upload_uuid), "not_again");
        vh::reach("uploaded");
      }
    }
  }
});

// an index or a data file that cannot be read
vh::entry!(c04_damaged, {
  let loader = ConfigLoader::new(Path::new("."));
  let dir = Dir::default();
  let clock = Arc::new(Clock(Mutex::new(0)));
  let mut life = Life::new(&dir, &clock, &loader);
  life.counter.inc();
  life.flush();
  let index = vh::choose("index", 2) == 1;
  drop(life);
  {
    let mut d = dir.0.lock().unwrap();
    for (k, v) in d.files.iter_mut() {
      if k.ends_with("pending_aggregation_index.pb") == index {
        match vh::choose("how", 3) {
          0 => v.clear(),
          1 => { let n = v.len() / 2; v.truncate(n); },
          _ => {
            let mut b = vec![0; vh::param("len", 6) as usize];
            vh::bytes(&mut b, "content");
            vh::assume(bd_client_common::file::read_compressed_protobuf::<PendingAggregationIndex>(&b).is_err());
            *v = b;
          },
        }
      }
    }
  }
  let mut life = Life::new(&dir, &clock, &loader);
  life.counter.inc_by(3);
  if vh::choose("first", 2) == 0 { life.upload(); vh::check(life.pending.is_none(), "nothing_readable"); }
  life.flush();
  life.upload();
  let n = life.pending.as_ref().map(|(r, _)| reported(r)[0]);
  vh::check(n == Some(3), "fresh_start");
  vh::check(names(&dir).len() == 1, "nothing_left_behind");
  vh::reach("fresh");
});

struct Force<T>(T);
unsafe impl<T> Sync for Force<T> {}
unsafe impl<T> Send for Force<T> {}

// increments on one thread while another flushes
vh::entry!(c01_threads, {
  let loader = ConfigLoader::new(Path::new("."));
  let dir = Dir::default();
  let clock = Arc::new(Clock(Mutex::new(0)));
  let mut life = Life::new(&dir, &clock, &loader);
  let v = vh::range("by", 1, 15);
  let dynamic = life.dynamic.clone();
  let stats = life.stats.clone();
  let mut counted = [0, 0];
  // a metric that is known already, or not
  if vh::choose("known", 2) == 1 {
    dynamic.record_dynamic_counter("d", BTreeMap::new(), 3);
    life.counter.inc();
    counted = [1, 3];
    life.flush();
  }
  let fixed = vh::choose("kind", 2) == 0;
  let held = if vh::choose("held", 2) == 1 { Some(life.counter.clone()) } else { None };
  life.counter = Counter::default();
  let held = Force(Mutex::new(held));
  let life = Force(Mutex::new(life));
  let (dynamic, stats) = (&dynamic, &stats);
  vh::par(2, &|i| {
    if i == 0 {
      if fixed {
        // a handle taken earlier that goes right after its use, or a new one
        let c = { &held }.0.lock().unwrap().take();
        let c = c.unwrap_or_else(|| stats.scope("s").counter("c"));
        c.inc_by(v);
      } else {
        dynamic.record_dynamic_counter("d", BTreeMap::new(), v);
      }
    } else {
      { &life }.0.lock().unwrap().flush();
    }
  });
  counted[usize::from(!fixed)] += v;
  let mut life = life.0.into_inner().unwrap();
  life.flush();
  life.upload();
  let n = life.pending.as_ref().map_or([0, 0], |(r, _)| reported(r));
  vh::check(n == counted, "conserved");
  vh::reach("uploaded");
});
