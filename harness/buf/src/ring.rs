//! The in-memory ring buffer: B01 order and content, B02 overwrite policy, B03 several producers, B04 bad
//! operations, B11 accounting.
use bd_buffer::buffer::{OptionalStatGetter, RingBuffer, RingBufferConsumer, RingBufferProducer, VolatileRingBuffer};
use bd_buffer::{AbslCode, Error, StatsHelper};
use bd_client_stats_store::Collector;
use std::sync::Arc;

pub fn code(e: Error) -> AbslCode {
  match e {
    Error::AbslStatus(c, _) => c,
    _ => vh::fail("error_kind"),
  }
}

#[derive(Clone, Copy)]
pub struct Rec {
  pub len: u32,
  pub tag: u8,
  pub committed: bool,
  pub at: u64,
  pub n: u32,
}

pub fn put(m: &mut [u8], tag: u8) {
  let l = m.len();
  m[l - 1] = !tag;
  m[0] = tag;
}
pub fn same(m: &[u8], r: &Rec, what: &str) {
  vh::check(m.len() == r.len as usize, what);
  vh::check(m[0] == r.tag, what);
  vh::check((m.len() == 1) | (m[m.len() - 1] == !r.tag), what);
}

pub struct Sys {
  pub model: Vec<Rec>, // in reservation order, oldest first
  pub held: Vec<Option<u32>>,
  pub reading: bool,
  pub n: u32,
  pub max: u32,
  pub written: (u64, u64),
  pub read: (u64, u64),
  pub over: (u64, u64),
  pub refused: u64,
}
const HEAD: u32 = 4;

struct V {
  producers: Vec<Box<dyn RingBufferProducer>>,
  consumer: Box<dyn RingBufferConsumer>,
  s: Sys,
  stats: StatsHelper,
  size: u32,
}
impl V {
  fn stored(&self) -> u64 {
    self.s.model.iter().map(|r| u64::from(r.len + HEAD)).sum()
  }
  fn reserve(&mut self, p: usize, len: u32) {
    let n = self.s.n;
    self.s.n += 1;
    let tag = vh::u8v("data");
    let over0 = self.stats.stats.records_overwritten.get_value();
    let bytes0 = self.stats.stats.bytes_overwritten.get_value();
    let busy = self.s.reading || self.s.model.iter().any(|r| !r.committed);
    match self.producers[p].reserve(len, false) {
      Ok(m) => {
        vh::check(m.len() == len as usize, "reservation_size");
        put(m, tag);
        let at = m.as_ptr() as u64;
        let d = self.stats.stats.records_overwritten.get_value() - over0;
        if d > 0 {
          vh::check(self.stored() + 2 * u64::from(len + HEAD) + u64::from(self.s.max) > u64::from(self.size), "overwrite_only_when_full");
          vh::reach("overwrote");
        }
        let mut bytes = 0;
        for i in 0 .. d {
          vh::check(!self.s.model.is_empty(), "overwrite_existing");
          let r = self.s.model.remove(0);
          vh::check(r.committed, "never_overwrites_reserved");
          vh::check(!(i == 0 && self.s.reading), "never_overwrites_record_being_read");
          bytes += u64::from(r.len);
        }
        self.s.over.0 += d;
        self.s.over.1 += bytes;
        vh::check(self.stats.stats.bytes_overwritten.get_value() - bytes0 == bytes, "overwritten_bytes");
        for r in &self.s.model {
          vh::check(at + u64::from(len) <= r.at || r.at + u64::from(r.len) <= at, "disjoint");
        }
        self.s.max = if len + HEAD > self.s.max { len + HEAD } else { self.s.max };
        self.s.model.push(Rec { len, tag, committed: false, at, n });
        self.s.held[p] = Some(n);
      },
      Err(e) => {
        vh::check(code(e) == AbslCode::ResourceExhausted, "refused_for_room");
        vh::check(busy, "refused_only_when_in_use");
        vh::check(self.stats.stats.records_overwritten.get_value() == over0, "refusal_overwrites_nothing");
        self.s.refused += 1;
        vh::reach("refused");
      },
    }
  }
  fn commit(&mut self, p: usize) {
    vh::check(self.producers[p].commit().is_ok(), "commit");
    let n = self.s.held[p].take().unwrap();
    let r = self.s.model.iter_mut().find(|r| r.n == n).unwrap();
    r.committed = true;
    self.s.written.0 += 1;
    self.s.written.1 += u64::from(r.len);
  }
  fn start(&mut self) {
    let want = self.s.model.first().filter(|r| r.committed).copied();
    match self.consumer.start_read(false) {
      Ok(m) => {
        vh::check(want.is_some(), "reads_only_committed");
        same(m, &want.unwrap(), "record");
        self.s.reading = true;
        vh::reach("read");
      },
      Err(e) => {
        vh::check(code(e) == AbslCode::Unavailable, "no_data");
        vh::check(want.is_none(), "committed_is_readable");
      },
    }
  }
  fn finish(&mut self) {
    vh::check(self.consumer.finish_read().is_ok(), "finish");
    let r = self.s.model.remove(0);
    self.s.reading = false;
    self.s.read.0 += 1;
    self.s.read.1 += u64::from(r.len);
  }
  fn accounts(&self) {
    let t = &self.stats.stats;
    vh::check(t.records_written.get_value() == self.s.written.0, "records_written");
    vh::check(t.bytes_written.get_value() == self.s.written.1, "bytes_written");
    vh::check(t.records_read.get_value() == self.s.read.0, "records_read");
    vh::check(t.bytes_read.get_value() == self.s.read.1, "bytes_read");
    vh::check(t.records_overwritten.get_value() == self.s.over.0, "records_overwritten");
    vh::check(t.bytes_overwritten.get_value() == self.s.over.1, "bytes_overwritten");
    vh::check(t.records_refused.get_value() == self.s.refused, "records_refused");
    vh::check(t.records_corrupted.get_value() == 0 && t.total_data_loss.get_value() == 0, "no_corruption");
    vh::check(t.total_bytes_written.get_value() == self.s.written.1 + self.s.written.0 * u64::from(HEAD), "total_bytes_written");
    vh::check(t.total_bytes_read.get_value() == self.s.read.1 + self.s.read.0 * u64::from(HEAD), "total_bytes_read");
    let stored: u64 = self.s.model.iter().filter(|r| r.committed).map(|r| u64::from(r.len)).sum();
    vh::check(self.s.written.1 == self.s.read.1 + self.s.over.1 + stored, "conserved");
  }
  // everything that is left comes out, then the ring is empty
  fn drain(&mut self) {
    for p in 0 .. self.producers.len() {
      if self.s.held[p].is_some() {
        self.commit(p);
      }
    }
    if self.s.reading {
      self.finish();
    }
    while !self.s.model.is_empty() {
      self.start();
      self.finish();
    }
    self.start();
    self.accounts();
  }
}

fn ring(size: u32, producers: usize) -> (Arc<VolatileRingBuffer>, V) {
  let stats = StatsHelper::new(&Collector::default().scope("b"));
  let b = VolatileRingBuffer::new("t".to_string(), size, stats.stats.clone());
  let v = V {
    producers: (0 .. producers).map(|_| b.clone().register_producer().unwrap()).collect(),
    consumer: b.clone().register_consumer().unwrap_or_else(|_| vh::fail("consumer")),
    s: Sys { model: vec![], held: vec![None; producers], reading: false, n: 0, max: 0, written: (0, 0), read: (0, 0), over: (0, 0), refused: 0 },
    stats,
    size,
  };
  (b, v)
}

vh::entry!(b01_one_producer, {
  let size = vh::param("size", 40) as u32;
  let (_b, mut v) = ring(size, 1);
  for _ in 0 .. vh::param("ops", 5) {
    if v.s.held[0].is_none() && vh::choose("op", 2) == 0 {
      let len = vh::range("len", 1, u64::from(size - HEAD)) as u32;
      v.reserve(0, len);
      if v.s.held[0].is_some() {
        v.commit(0);
      }
    } else if v.s.reading {
      v.finish();
    } else {
      v.start();
    }
  }
  v.drain();
});

// the ring starts empty at any position, then every sequence of writes and reads
vh::entry!(b02_any_position, {
  let size = vh::param("size", 40) as u32;
  let (_b, mut v) = ring(size, 1);
  v.reserve(0, vh::range("shift", 1, u64::from(size - HEAD)) as u32);
  v.commit(0);
  v.start();
  v.finish();
  for _ in 0 .. vh::param("ops", 4) {
    if vh::choose("op", 2) == 0 {
      v.reserve(0, vh::range("len", 1, u64::from(size - HEAD)) as u32);
      if v.s.held[0].is_some() {
        v.commit(0);
      }
    } else if v.s.reading {
      v.finish();
    } else {
      v.start();
    }
  }
  v.drain();
});

vh::entry!(b03_producers, {
  let size = vh::param("size", 40) as u32;
  let n = vh::param("producers", 2) as usize;
  let (_b, mut v) = ring(size, n);
  for _ in 0 .. vh::param("ops", 6) {
    let p = vh::choose("who", n as u64 + 1) as usize;
    if p == n {
      if v.s.reading {
        v.finish();
      } else {
        v.start();
      }
    } else if v.s.held[p].is_some() {
      v.commit(p);
    } else {
      v.reserve(p, vh::range("len", 1, u64::from(size - HEAD)) as u32);
    }
  }
  v.drain();
});

vh::entry!(b04_rejected, {
  let size = vh::param("size", 40) as u32;
  let (b, mut v) = ring(size, 1);
  let ops = vh::param("ops", 3);
  let at = vh::choose("when", ops + 1);
  for i in 0 ..= ops {
    if i == at {
      match vh::choose("bad", 6) {
        0 => {
          let len = vh::u32v("bad_len");
          vh::assume(len == 0 || len > size - HEAD);
          let over = v.s.held[0].is_some();
          vh::check(v.producers[0].reserve(len, false).map(|_| ()).map_err(code) == Err(AbslCode::InvalidArgument), "bad_size");
          if !over {
            v.s.refused += 1;
          }
          vh::reach("size");
        },
        1 if v.s.held[0].is_none() => {
          vh::check(v.producers[0].commit().map_err(code) == Err(AbslCode::InvalidArgument), "commit_without_reservation");
          vh::reach("commit");
        },
        2 if !v.s.reading => {
          vh::check(v.consumer.finish_read().map_err(code) == Err(AbslCode::InvalidArgument), "finish_without_read");
          vh::reach("finish");
        },
        3 if v.s.reading => {
          vh::check(v.consumer.start_read(false).map(|_| ()).map_err(code) == Err(AbslCode::InvalidArgument), "second_read");
          vh::reach("start");
        },
        4 if v.s.held[0].is_some() => {
          let len = vh::u32v("second_len");
          vh::check(v.producers[0].reserve(len, false).map(|_| ()).map_err(code) == Err(AbslCode::InvalidArgument), "second_reservation");
          vh::reach("reserve");
        },
        5 if v.s.held[0].is_none() => {
          let l = b.clone().lock();
          let len = vh::u32v("locked_len");
          vh::check(v.producers[0].reserve(len, false).map(|_| ()).map_err(code) == Err(AbslCode::FailedPrecondition), "locked");
          v.s.refused += 1;
          drop(l);
          vh::check(b.clone().register_consumer().is_err(), "one_consumer");
          vh::check(b.clone().register_cursor_consumer().is_err(), "no_cursor");
          vh::reach("locked");
        },
        _ => vh::done(),
      }
    }
    if i < ops {
      if v.s.held[0].is_some() && vh::choose("commit", 2) == 0 {
        v.commit(0);
      } else if v.s.held[0].is_none() && vh::choose("op", 2) == 0 {
        v.reserve(0, vh::range("len", 1, u64::from(size - HEAD)) as u32);
      } else if v.s.reading {
        v.finish();
      } else {
        v.start();
      }
    }
  }
  v.drain();
});

// a ring that nothing occupies accepts every size that fits, wherever it stands
vh::entry!(b04_fits, {
  let size = vh::param("size", 40) as u32;
  let (_b, mut v) = ring(size, 1);
  for _ in 0 .. vh::param("ops", 3) {
    let len = vh::range("len", 1, u64::from(size - HEAD)) as u32;
    v.reserve(0, len);
    vh::check(v.s.held[0].is_some(), "accepted");
    v.commit(0);
  }
  v.drain();
  vh::reach("drained");
});

struct Shared<T>(*mut T);
unsafe impl<T> Sync for Shared<T> {}
impl<T> Shared<T> {
  #[allow(clippy::mut_from_ref)]
  fn get(&self) -> &mut T { unsafe { &mut *self.0 } }
}

// two producers and (optionally) the consumer on their own threads
vh::entry!(b03_threads, {
  let size = 24;
  let (_b, mut v) = ring(size, 2);
  let len = [1 + vh::choose("len0", 2) as u32 * 12, 1 + vh::choose("len1", 2) as u32 * 12];
  let consume = vh::choose("consume", 2) == 1;
  if consume {
    v.reserve(0, 3);
    v.commit(0);
  }
  let mut done = [0u8; 2];
  let mut got: Vec<Vec<u8>> = vec![];
  {
    let producers = Shared(&raw mut v.producers);
    let consumer = Shared(&raw mut v.consumer);
    let done = Shared(&raw mut done);
    let got = Shared(&raw mut got);
    vh::par(2 + usize::from(consume), &|i| {
      if i < 2 {
        match producers.get()[i].reserve(len[i], false) {
          Ok(m) => {
            for b in m.iter_mut() {
              *b = i as u8 + 1;
            }
            vh::check(m.iter().all(|b| *b == i as u8 + 1), "own_bytes");
            vh::check(producers.get()[i].commit().is_ok(), "commit");
            done.get()[i] = 1;
          },
          Err(e) => vh::check(code(e) == AbslCode::ResourceExhausted, "refused_for_room"),
        }
      } else if let Ok(m) = consumer.get().start_read(false) {
        let before = m.to_vec();
        vh::check(m == &before[..], "stable_while_read");
        got.get().push(before);
        vh::check(consumer.get().finish_read().is_ok(), "finish");
      }
    });
  }
  while let Ok(m) = v.consumer.start_read(false) {
    got.push(m.to_vec());
    vh::check(v.consumer.finish_read().is_ok(), "finish");
  }
  let over = v.stats.stats.records_overwritten.get_value() as usize;
  vh::check(got.len() + over == done.iter().filter(|d| **d == 1).count() + usize::from(consume), "all_accounted");
  let mut n = [0; 3];
  for (k, g) in got.iter().enumerate() {
    if consume && k == 0 && g.len() == 3 && g[0] != 1 && g[0] != 2 {
      continue;
    }
    if g.len() == 3 {
      vh::check(consume && k == 0, "first_written_first_read");
      continue;
    }
    let w = g[0] as usize;
    vh::check((w == 1 || w == 2) && g.len() == len[w - 1] as usize && g.iter().all(|b| *b == w as u8), "whole_record");
    n[w] += 1;
  }
  vh::check(n[1] <= u32::from(done[0]) && n[2] <= u32::from(done[1]), "at_most_once");
  vh::reach("end");
});
