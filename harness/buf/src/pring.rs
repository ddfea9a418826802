//! The persistent ring buffer: B01/B02 order and policy, B05 reopen, B06 crashes, B07 corruption, B08 cursor.
use crate::ring::{code, put, same, Rec};
use bd_buffer::buffer::{
  BlockWhenReservingIntoConcurrentRead, NonVolatileRingBuffer, OptionalStatGetter, RingBuffer, RingBufferConsumer, RingBufferCursorConsumer, RingBufferProducer,
};
use bd_buffer::{AbslCode, AllowOverwrite, PerRecordCrc32Check, StatsHelper};
use bd_client_stats_store::Collector;
use memmap2::MmapMut;
use std::sync::Arc;

const FILE: &str = "ring";
const HEADER: u32 = 40;

enum Consumer {
  Plain(Box<dyn RingBufferConsumer>),
  Cursor(Box<dyn RingBufferCursorConsumer>),
}

struct Open {
  _ring: Arc<NonVolatileRingBuffer>,
  producer: Box<dyn RingBufferProducer>,
  consumer: Consumer,
  stats: StatsHelper,
}

struct Cfg {
  size: u32, // of the record area
  crc: bool,
  overwrite: bool,
  cursor: bool,
}
impl Cfg {
  fn head(&self) -> u32 { if self.crc { 8 } else { 4 } }
  fn open(&self) -> Result<Open, AbslCode> {
    let stats = StatsHelper::new(&Collector::default().scope("b"));
    let ring = NonVolatileRingBuffer::new(
      "t".to_string(),
      FILE,
      self.size + HEADER,
      if self.overwrite { AllowOverwrite::Yes } else { AllowOverwrite::Block },
      BlockWhenReservingIntoConcurrentRead::No,
      if self.crc { PerRecordCrc32Check::Yes } else { PerRecordCrc32Check::No },
      stats.stats.clone(),
    )
    .map_err(code)?;
    let producer = ring.clone().register_producer().unwrap_or_else(|_| vh::fail("producer"));
    let consumer = if self.cursor {
      Consumer::Cursor(ring.clone().register_cursor_consumer().unwrap_or_else(|_| vh::fail("cursor")))
    } else {
      Consumer::Plain(ring.clone().register_consumer().unwrap_or_else(|_| vh::fail("consumer")))
    };
    Ok(Open { _ring: ring, producer, consumer, stats })
  }
}

struct P {
  cfg: Cfg,
  o: Option<Open>,
  model: Vec<Rec>, // committed records, oldest first
  fixed: bool, // contents too
  ahead: usize,    // of which read and not yet released
  max: u32,
  written: u64,
  read: u64,
  over: u64,
  base: u64, // stored when opened
}

fn fresh(cfg: Cfg) -> P {
  let _ = std::fs::remove_file(FILE);
  let o = cfg.open().unwrap_or_else(|_| vh::fail("created"));
  P { cfg, o: Some(o), model: vec![], fixed: false, ahead: 0, max: 0, written: 0, read: 0, over: 0, base: 0 }
}

impl P {
  fn o(&mut self) -> &mut Open { self.o.as_mut().unwrap() }
  fn stored(&self) -> u64 { self.model.iter().map(|r| u64::from(r.len + self.cfg.head())).sum() }
  fn write(&mut self, len: u32) -> bool {
    let tag = if self.fixed { 0x35u8.wrapping_mul(self.written as u8 + 1) } else { vh::u8v("data") };
    let (over0, refused0) = (self.o().stats.stats.records_overwritten.get_value(), self.o().stats.stats.records_refused.get_value());
    let full = self.stored() + 2 * u64::from(len + self.cfg.head()) + u64::from(self.max) > u64::from(self.cfg.size);
    let o = self.o.as_mut().unwrap();
    match o.producer.reserve(len, false) {
      Ok(m) => {
        vh::check(m.len() == len as usize, "reservation_size");
        if self.cfg.crc {
          for (i, b) in m.iter_mut().enumerate() {
            *b = tag.wrapping_add(i as u8);
          }
        } else {
          put(m, tag);
        }
        let at = m.as_ptr() as u64;
        let d = o.stats.stats.records_overwritten.get_value() - over0;
        vh::check(d == 0 || self.cfg.overwrite, "no_overwrite_when_blocking");
        vh::check(d == 0 || full, "overwrite_only_when_full");
        for i in 0 .. d {
          vh::check(!self.model.is_empty(), "overwrite_existing");
          vh::check(!(i == 0 && self.ahead > 0), "never_overwrites_record_being_read");
          self.model.remove(0);
          vh::reach("overwrote");
        }
        self.over += d;
        for r in &self.model {
          vh::check((r.at == 0) | (at + u64::from(len) <= r.at) | (r.at + u64::from(r.len) <= at), "disjoint");
        }
        vh::check(o.producer.commit().is_ok(), "commit");
        self.max = if len + self.cfg.head() > self.max { len + self.cfg.head() } else { self.max };
        self.model.push(Rec { len, tag, committed: true, at, n: 0 });
        self.written += 1;
        true
      },
      Err(e) => {
        let c = code(e);
        vh::check(c == AbslCode::ResourceExhausted || (c == AbslCode::Unavailable && !self.cfg.overwrite), "refused_for_room");
        vh::check(c != AbslCode::ResourceExhausted || self.ahead > 0, "refused_for_reader");
        vh::check(full & !self.model.is_empty(), "refused_only_when_full");
        vh::check(o.stats.stats.records_overwritten.get_value() == over0, "refusal_overwrites_nothing");
        vh::check(o.stats.stats.records_refused.get_value() - refused0 == u64::from(c == AbslCode::ResourceExhausted), "refused_counted");
        vh::reach("refused");
        false
      },
    }
  }
  fn matches(&self, m: &[u8], r: &Rec) {
    if self.cfg.crc {
      vh::check(m.len() == r.len as usize, "record");
      let mut same = true;
      for (i, b) in m.iter().enumerate() {
        same &= *b == r.tag.wrapping_add(i as u8);
      }
      vh::check(same, "record");
    } else {
      same(m, r, "record");
    }
  }
  // the next record; false if there was none
  fn read(&mut self) -> bool {
    if !self.cfg.cursor && self.ahead == 0 && self.model.first().map_or(false, |r| !r.committed) {
      self.model.remove(0);
      self.read += 1;
    }
    let want = self.model.get(self.ahead).copied();
    let o = self.o.as_mut().unwrap();
    let r = match &mut o.consumer {
      Consumer::Plain(c) => c.start_read(false),
      Consumer::Cursor(c) => c.start_read(false),
    };
    match r {
      Ok(m) => {
        vh::check(want.is_some(), "reads_only_stored");
        let m: &[u8] = unsafe { std::slice::from_raw_parts(m.as_ptr(), m.len()) };
        self.matches(m, &want.unwrap());
        self.ahead += 1;
        vh::reach("read");
        true
      },
      Err(e) => {
        vh::check(code(e) == AbslCode::Unavailable, "no_data");
        vh::check(want.is_none(), "stored_is_readable");
        false
      },
    }
  }
  fn release(&mut self) {
    let o = self.o.as_mut().unwrap();
    let r = match &mut o.consumer {
      Consumer::Plain(c) => c.finish_read(),
      Consumer::Cursor(c) => c.advance_read_pointer(),
    };
    vh::check(r.is_ok(), "release");
    self.model.remove(0);
    self.ahead -= 1;
    self.read += 1;
  }
  fn reopen(&mut self) {
    self.o = None;
    self.o = Some(self.cfg.open().unwrap_or_else(|_| vh::fail("reopened")));
    // a record whose read was begun with checks on is spent: it takes room but is passed over
    if self.ahead > 0 && self.cfg.crc && !self.cfg.cursor {
      self.model[0].committed = false;
    }
    self.ahead = 0;
    for r in &mut self.model {
      r.at = 0;
    }
    (self.written, self.read, self.over) = (0, 0, 0);
    self.base = self.model.len() as u64;
    vh::reach("reopened");
  }
  fn accounts(&mut self) {
    let (w, r, v, b, m) = (self.written, self.read, self.over, self.base, self.model.len() as u64);
    let t = &self.o().stats.stats;
    vh::check(t.records_written.get_value() == w, "records_written");
    vh::check(t.records_read.get_value() == r, "records_read");
    vh::check(t.records_overwritten.get_value() == v, "records_overwritten");
    vh::check(t.total_data_loss.get_value() == 0, "no_data_loss");
    vh::check(b + w == r + v + m, "conserved");
  }
  fn drain(&mut self) {
    while self.ahead > 0 {
      self.release();
    }
    while self.read() {
      self.release();
    }
    vh::check(self.model.is_empty(), "all_read");
  }
  fn size(&self, crc_sizes: &[u32]) -> u32 {
    if self.cfg.crc {
      crc_sizes[vh::choose("len", crc_sizes.len() as u64) as usize]
    } else {
      vh::range("len", 1, u64::from(self.cfg.size - self.cfg.head())) as u32
    }
  }
  fn step(&mut self, sizes: &[u32], reopen: bool) {
    match vh::choose("op", if reopen { 4 } else { 3 }) {
      0 => {
        let len = self.size(sizes);
        self.write(len);
      },
      1 if self.ahead == 0 || self.cfg.cursor => {
        self.read();
      },
      2 if self.ahead > 0 => self.release(),
      3 => self.reopen(),
      _ => vh::done(),
    }
  }
}

fn cfg(crc: bool, cursor: bool) -> Cfg {
  let overwrite = !cursor && vh::choose("overwrite", 2) == 1;
  Cfg { size: vh::param("size", 40) as u32, crc, overwrite, cursor }
}

vh::entry!(b01_persistent, {
  let mut p = fresh(cfg(false, false));
  for _ in 0 .. vh::param("ops", 4) {
    p.step(&[], false);
  }
  p.drain();
  p.accounts();
});

vh::entry!(b05_reopen, {
  let mut p = fresh(cfg(false, false));
  for _ in 0 .. vh::param("ops", 4) {
    p.step(&[], true);
  }
  p.reopen();
  p.drain();
});

vh::entry!(b05_checksums, {
  let mut p = fresh(cfg(true, false));
  for _ in 0 .. vh::param("ops", 4) {
    p.step(&[1, 9, 20], true);
  }
  p.reopen();
  p.drain();
});

vh::entry!(b08_cursor, {
  let crc = vh::choose("crc", 2) == 1;
  let mut p = fresh(cfg(crc, true));
  for _ in 0 .. vh::param("ops", 5) {
    p.step(&[1, 9, 20], true);
  }
  p.reopen();
  p.drain();
});

// another mapping of the buffer file
fn map() -> MmapMut {
  let f = std::fs::File::options().read(true).write(true).open(FILE).unwrap_or_else(|_| vh::fail("file"));
  unsafe { MmapMut::map_mut(&f).unwrap_or_else(|_| vh::fail("map")) }
}

fn next(o: &mut Open) -> Option<&[u8]> {
  let r = match &mut o.consumer {
    Consumer::Plain(c) => c.start_read(false),
    Consumer::Cursor(c) => c.start_read(false),
  };
  match r {
    Ok(m) => Some(unsafe { std::slice::from_raw_parts(m.as_ptr(), m.len()) }),
    Err(e) => {
      vh::check(code(e) == AbslCode::Unavailable, "no_data");
      None
    },
  }
}
fn release(o: &mut Open) {
  let r = match &mut o.consumer {
    Consumer::Plain(c) => c.finish_read(),
    Consumer::Cursor(c) => c.advance_read_pointer(),
  };
  vh::check(r.is_ok(), "release");
}
fn fill(m: &mut [u8], tag: u8) {
  for (i, b) in m.iter_mut().enumerate() {
    *b = tag.wrapping_add(i as u8);
  }
}

// the owner's reaction to a data loss report: start over with an empty file
fn recreate(cfg: Cfg) {
  vh::reach("data_loss");
  let mut p = fresh(cfg);
  vh::check(!p.read(), "recreated_empty");
  vh::check(p.write(9), "recreated_usable");
  p.drain();
}

vh::entry!(b06_crash, {
  let mut p = fresh(cfg(true, vh::choose("cursor", 2) == 1));
  for _ in 0 .. vh::param("ops", 2) {
    p.step(&[1, 9, 20], false);
  }
  let mut f = map();
  let op = vh::choose("last", 3);
  let len = if op == 0 { [1, 9, 20][vh::choose("len", 3) as usize] } else { 0 };
  let tag = if op == 0 { vh::u8v("data") } else { 0 };
  vh::assume(op != 1 || p.ahead == 0 || p.cfg.cursor);
  vh::assume(op != 2 || p.ahead > 0);
  let (region, n) = (f.as_mut_ptr() as *const u8, f.len());
  let mut o = p.o.take().unwrap();
  let crashed = vh::crash_run(
    &mut || match op {
      0 => {
        if let Ok(m) = o.producer.reserve(len, false) {
          fill(m, tag);
          let _ = o.producer.commit();
        }
      },
      1 => {
        let _ = next(&mut o);
      },
      _ => release(&mut o),
    },
    region,
    n,
  );
  std::mem::forget(o);
  if !crashed {
    vh::done();
  }
  vh::reach("crashed");
  let cursor = p.cfg.cursor;
  let mut o = match p.cfg.open() {
    Ok(o) => o,
    Err(e) => {
      vh::check(e == AbslCode::DataLoss, "data_loss_reported");
      recreate(p.cfg);
      vh::done();
    },
  };
  vh::reach("recovered");
  // what may be gone: the records the interrupted operation, or an earlier read begun without a cursor, was
  // consuming or overwriting
  let spent = if !cursor { p.ahead } else { 0 };
  let may = if op == 0 { if p.cfg.overwrite { p.model.len() } else { spent } } else if op == 1 && !cursor { 1 } else if op == 2 { 1 } else { spent };
  let mut got: Vec<Vec<u8>> = vec![];
  while let Some(m) = next(&mut o) {
    got.push(m.to_vec());
    vh::check(got.len() <= p.model.len() + 1, "no_more_than_written");
    release(&mut o);
  }
  let is = |g: &Vec<u8>, len: u32, tag: u8| {
    let mut same = g.len() == len as usize;
    if same {
      for (i, b) in g.iter().enumerate() {
        same &= *b == tag.wrapping_add(i as u8);
      }
    }
    same
  };
  let mut ok = false;
  for k in 0 ..= may.min(p.model.len()) {
    for extra in 0 .. 2 {
      let left = &p.model[k ..];
      if got.len() == left.len() + extra && (extra == 0 || op == 0) {
        let mut m = true;
        for (g, r) in got.iter().zip(left) {
          m &= is(g, r.len, r.tag);
        }
        if extra == 1 {
          m &= is(&got[left.len()], len, tag);
        }
        ok |= m;
      }
    }
  }
  vh::check(ok, "recovered_records");
  vh::check(o.stats.stats.total_data_loss.get_value() == 0, "no_total_loss");
  // and the buffer goes on working
  vh::check(o.producer.reserve(9, false).map(|m| fill(m, 7)).is_ok(), "usable");
  vh::check(o.producer.commit().is_ok(), "usable");
  let m = next(&mut o).map(|m| m.to_vec());
  vh::check(m.map_or(false, |m| is(&m, 9, 7)), "usable");
});

vh::entry!(b07_corrupt, {
  let cursor = vh::choose("cursor", 2) == 1;
  let mut p = fresh(cfg(true, cursor));
  p.fixed = true;
  for _ in 0 .. vh::param("ops", 3) {
    p.step(&[1, 9, 20], false);
  }
  p.o = None;
  let at = vh::choose("at", u64::from(p.cfg.size + HEADER - 3)) as usize;
  let mut f = map();
  let width = vh::param("width", 2) as usize;
  vh::bytes(&mut f[at .. at + width], "altered");
  let mut o = match p.cfg.open() {
    Ok(o) => o,
    Err(e) => {
      vh::check(e == AbslCode::DataLoss, "data_loss_reported");
      recreate(p.cfg);
      vh::done();
    },
  };
  let mut n = 0;
  loop {
    let was = f.to_vec();
    let Some(m) = next(&mut o) else { break };
    n += 1;
    vh::check(n < 10, "ends");
    // the file is mapped from its start, at a page's start
    let at = m.as_ptr() as usize % 4096;
    vh::check(at >= HEADER as usize + 8 && at + m.len() <= was.len() && !m.is_empty(), "inside_the_file");
    vh::check(crc32fast::hash(&was[at - 4 .. at + m.len()]).to_ne_bytes() == was[at - 8 .. at - 4], "only_matching_checksums");
    vh::reach("delivered");
    release(&mut o);
  }
  // and the buffer goes on working
  if o.producer.reserve(9, false).map(|m| fill(m, 7)).is_ok() {
    vh::check(o.producer.commit().is_ok(), "usable");
    let m = next(&mut o).map(|m| m.to_vec());
    vh::check(m.map_or(false, |m| m.len() == 9 && m[0] == 7 && m[8] == 15), "usable");
    vh::reach("usable");
  }
});

// one record's contents or checksum damaged: a cursor passes over it, and it stays out of the others' way
vh::entry!(b08_damaged, {
  let mut p = fresh(cfg(true, true));
  p.fixed = true;
  // an arbitrary start position
  let shifted = vh::choose("shifted", 2) == 1;
  if shifted {
    p.write(9);
    p.read();
    p.release();
  }
  let mut n = 0;
  let mut at = vec![];
  while n < 3 && p.write([1, 5, 9][vh::choose("len", 3) as usize]) {
    at.push(p.model[n].at);
    n += 1;
  }
  vh::assume(n > 1);
  let bad = vh::choose("bad", n as u64) as usize;
  let mut f = map();
  let first = u64::from(HEADER) + 8 + if shifted { 17 } else { 0 };
  let off = (at[bad].wrapping_sub(at[0]).wrapping_add(first)) as usize;
  let off = if vh::choose("where", 2) == 1 { off - 8 } else { off };
  p.o = None;
  let change = vh::u8v("change");
  vh::assume(change != 0);
  f[off] ^= change;
  p.o = Some(p.cfg.open().unwrap_or_else(|_| vh::fail("reopened")));
  p.model.remove(bad);
  p.ahead = 0;
  // read ahead, acknowledge some, restart, and read the rest
  for _ in 0 .. vh::choose("reads", n as u64) {
    p.read();
  }
  for _ in 0 .. vh::choose("acks", n as u64) {
    vh::assume(p.ahead > 0);
    p.release();
  }
  if vh::choose("restart", 2) == 1 {
    p.o = None;
    p.o = Some(p.cfg.open().unwrap_or_else(|_| vh::fail("reopened")));
    p.ahead = 0;
  }
  while p.read() {}
  while p.ahead > 0 {
    p.release();
  }
  vh::check(p.model.is_empty(), "all_delivered");
  let t = &p.o().stats.stats;
  vh::check(t.total_data_loss.get_value() == 0, "only_the_damaged_one_is_lost");
  // everything has been given back
  for _ in 0 .. 3 {
    p.max = 0;
    vh::check(p.write(9), "room_again");
    vh::check(p.read(), "read_again");
    p.release();
  }
});
