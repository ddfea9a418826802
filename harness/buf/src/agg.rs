//! B10: the aggregated buffer, whose own thread moves records from memory to the file.
use crate::ring::{code, put, same, Rec};
use bd_buffer::buffer::RingBuffer;
use bd_buffer::{AbslCode, AggregateRingBuffer, AllowOverwrite, PerRecordCrc32Check, StatsHelper};
use bd_client_stats_store::Collector;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};

const FILE: &str = "ring";
const HEADER: u32 = 40;

fn open(volatile: u32, stored: u32, overwrite: bool) -> Arc<AggregateRingBuffer> {
  let stats = |n: &str| StatsHelper::new(&Collector::default().scope(n)).stats;
  AggregateRingBuffer::new("t", volatile, FILE, stored + HEADER, PerRecordCrc32Check::No, if overwrite { AllowOverwrite::Yes } else { AllowOverwrite::Block }, stats("v"), stats("n"))
    .unwrap_or_else(|_| vh::fail("created"))
}

fn rec(i: u64) -> Rec {
  let n = vh::param("lens", 2);
  Rec { len: [5, 1][vh::choose("len", n) as usize], tag: vh::u8v("data"), committed: true, at: 0, n: i as u32 }
}

// what was committed before a flush can be read after it, in order; and it is there when the buffer is opened again
vh::entry!(b10_flush, {
  let _ = std::fs::remove_file(FILE);
  let overwrite = vh::choose("overwrite", 2) == 1;
  let n = vh::param("records", 2);
  let recs: Vec<Rec> = (0 .. n).map(rec).collect();
  let again = vh::choose("again", 2) == 1;
  {
    let b = open(24, 64, overwrite);
    let hold = Mutex::new(Some(b));
    vh::par(2, &|i| {
      if i == 0 {
        vh_thread::run_next();
        return;
      }
      let b = hold.lock().unwrap().take().unwrap();
      let mut p = b.clone().register_producer().unwrap_or_else(|_| vh::fail("producer"));
      let mut written = vec![];
      for r in &recs {
        match p.reserve(r.len, false) {
          Ok(m) => {
            put(m, r.tag);
            vh::check(p.commit().is_ok(), "commit");
            written.push(*r);
          },
          Err(e) => {
            vh::check(code(e) == AbslCode::ResourceExhausted, "refused_for_room");
            vh::reach("refused");
          },
        }
      }
      if again {
        // closing moves what is left when it may overwrite
        if !overwrite { b.flush(); }
        drop(p);
        drop(b);
        let b = open(24, 64, overwrite);
        let mut c = b.clone().register_consumer().unwrap_or_else(|_| vh::fail("consumer"));
        for r in &written {
          match c.start_read(false) {
            Ok(m) => same(m, r, "kept_in_order"),
            Err(_) => vh::fail("kept"),
          }
          vh::check(c.finish_read().is_ok(), "finish");
        }
        vh::check(c.start_read(false).is_err(), "nothing_else");
        drop(c);
        std::mem::forget(b);
        vh::reach("reopened");
        return;
      }
      b.flush();
      let mut c = b.clone().register_consumer().unwrap_or_else(|_| vh::fail("consumer"));
      for r in &written {
        match c.start_read(false) {
          Ok(m) => same(m, r, "moved_in_order"),
          Err(_) => vh::fail("moved"),
        }
        vh::check(c.finish_read().is_ok(), "finish");
      }
      vh::check(c.start_read(false).is_err(), "nothing_else");
      drop(c);
      drop(p);
      drop(b);
      vh::reach("flushed");
    });
  }
});

// a reader that reads while records move
vh::entry!(b10_reader, {
  let _ = std::fs::remove_file(FILE);
  let n = vh::param("records", 2);
  let recs: Vec<Rec> = (0 .. n).map(rec).collect();
  let cursor = vh::choose("cursor", 2) == 1;
  // room in the file for little more than one record: what waits for the reader blocks what comes after it
  let b = open(24, 24, false);
  let producers = Mutex::new(Some(b.clone()));
  let readers = Mutex::new(Some(b));
  let got = AtomicBool::new(false);
  vh::par(3, &|i| match i {
    0 => vh_thread::run_next(),
    1 => {
      let b = producers.lock().unwrap().take().unwrap();
      let mut p = b.clone().register_producer().unwrap_or_else(|_| vh::fail("producer"));
      for r in &recs {
        match p.reserve(r.len, true) {
          Ok(m) => put(m, r.tag),
          Err(_) => vh::fail("waits_for_room"),
        }
        vh::check(p.commit().is_ok(), "commit");
      }
    },
    _ => {
      let b = readers.lock().unwrap().take().unwrap();
      if cursor {
        let mut c = b.clone().register_cursor_consumer().unwrap_or_else(|_| vh::fail("consumer"));
        for r in &recs {
          match c.start_read(true) {
            Ok(m) => same(m, r, "read_in_order"),
            Err(_) => vh::fail("read"),
          }
          vh::check(c.advance_read_pointer().is_ok(), "advance");
        }
        vh::check(c.start_read(false).is_err(), "nothing_else");
      } else {
        let mut c = b.clone().register_consumer().unwrap_or_else(|_| vh::fail("consumer"));
        for r in &recs {
          match c.start_read(true) {
            Ok(m) => same(m, r, "read_in_order"),
            Err(_) => vh::fail("read"),
          }
          vh::check(c.finish_read().is_ok(), "finish");
        }
        vh::check(c.start_read(false).is_err(), "nothing_else");
      }
      got.store(true, Ordering::SeqCst);
      vh::reach("read_all");
    },
  });
  vh::check(got.load(Ordering::SeqCst), "read_all");
});

// taking everything: lock, wait for reservations, flush, read, while a producer writes
vh::entry!(b10_lock, {
  let _ = std::fs::remove_file(FILE);
  let recs: Vec<Rec> = (0 .. 2).map(rec).collect();
  let b = open(24, 64, true);
  let early = vh::choose("early", 2) == 1;
  let mut p = b.clone().register_producer().unwrap_or_else(|_| vh::fail("producer"));
  if early {
    match p.reserve(recs[0].len, false) { Ok(m) => put(m, recs[0].tag), Err(_) => vh::fail("room") }
  }
  let p = Mutex::new(Some(p));
  let held = Mutex::new(Some(b.clone()));
  let last = Mutex::new(Some(b));
  // a record committed before the lock was taken
  let before = AtomicBool::new(false);
  let accepted = Mutex::new(vec![]);
  vh::par(3, &|i| match i {
    0 => vh_thread::run_next(),
    1 => {
      let mut p = p.lock().unwrap().take().unwrap();
      for (k, r) in recs.iter().enumerate() {
        if !(early && k == 0) {
          match p.reserve(r.len, false) {
            Ok(m) => put(m, r.tag),
            Err(_) => { vh::reach("locked_out"); continue; },
          }
        }
        vh::check(p.commit().is_ok(), "commit");
        accepted.lock().unwrap().push(*r);
        before.store(true, Ordering::SeqCst);
      }
      drop(p);
      drop(held.lock().unwrap().take());
    },
    _ => {
      let b = last.lock().unwrap().take().unwrap();
      let any = before.load(Ordering::SeqCst);
      let l = b.clone().lock();
      l.await_reservations_drained();
      b.flush();
      let mut c = b.clone().register_consumer().unwrap_or_else(|_| vh::fail("consumer"));
      let mut n = 0;
      loop {
        let r = match c.start_read(false) { Ok(m) => (m.len(), m[0]), Err(_) => break };
        vh::check(c.finish_read().is_ok(), "finish");
        // (the producer notes what it committed only after it has)
        let w = if n == 0 && early { recs[0] } else if n < 2 { recs[if early { 1 } else { n }] } else { vh::fail("nothing_else") };
        vh::check((r.0 == w.len as usize) & (r.1 == w.tag) || (!early && n == 0 && r.0 == recs[1].len as usize && r.1 == recs[1].tag), "records");
        n += 1;
      }
      vh::check(n > 0 || !any, "includes_what_was_committed");
      vh::check(n > 0 || !early, "includes_what_was_reserved");
      if n > 0 { vh::reach("taken"); }
      drop(l);
      drop(c);
      drop(b);
    },
  });
});
