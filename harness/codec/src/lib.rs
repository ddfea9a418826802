//! G01-G04: message framing.
#![allow(dead_code)]
use bd_grpc_codec::{Compression, Decoder, Decompression, Encoder, OptimizeFor};
use bd_proto::protos::logging::payload::BinaryData;

fn message(payload: Vec<u8>) -> BinaryData { BinaryData { payload, ..Default::default() } }

fn bytes(name: &str, n: usize) -> Vec<u8> {
  let mut b = vec![0u8; n];
  vh::bytes(&mut b, name);
  b
}

fn optimize() -> OptimizeFor {
  if vh::choose("optimize_for_memory", 2) == 1 { OptimizeFor::Memory } else { OptimizeFor::Cpu }
}

/// Text that does not compress to nothing.
fn filler(n: usize, salt: u8) -> Vec<u8> { (0 .. n).map(|i| (i as u8).wrapping_mul(i as u8 / 7 + 3) ^ salt).collect() }

/// A frame of the format, spelled out.
fn frame(payload: &[u8]) -> Vec<u8> {
  let mut v = vec![0, 0, 0, 0, 0];
  if !payload.is_empty() {
    v[4] = payload.len() as u8 + 2;
    v.push(0x12);
    v.push(payload.len() as u8);
    v.extend_from_slice(payload);
  }
  v
}

/// Feeds the stream in pieces; after each, exactly the messages that are complete have been delivered.
fn feed(stream: &[u8], ends: &[usize], messages: &[BinaryData], cuts: u64, d: &mut Decoder<BinaryData>) {
  let mut at = 0;
  let mut got = 0;
  for k in 0 ..= cuts {
    let to = if k == cuts { stream.len() } else { at + vh::choose("cut", (stream.len() - at) as u64 + 1) as usize };
    let r = d.decode_data(&stream[at .. to]).unwrap_or_else(|_| vh::fail("a well formed stream is an error"));
    at = to;
    let complete = ends.iter().filter(|e| **e <= at).count();
    vh::check(got + r.len() == complete, "delivered_as_soon_as_complete");
    for m in r {
      vh::check(m == messages[got], "the_message_sent");
      got += 1;
    }
    vh::check(d.bandwidth_stats().0 == at as u64, "received_bytes_counted");
  }
  vh::check(got == messages.len(), "all_delivered");
}

vh::entry!(g01_chunks, {
  let mut stream = Vec::new();
  let mut ends = Vec::new();
  let mut messages = Vec::new();
  for _ in 0 .. vh::param("messages", 2) {
    let n = vh::choose("length", vh::param("len", 3) + 1) as usize;
    let p = bytes("payload", n);
    stream.extend_from_slice(&frame(&p));
    ends.push(stream.len());
    messages.push(message(p));
  }
  let d = match vh::choose("decompression", 3) {
    0 => None,
    1 => Some(Decompression::StatelessZlib),
    _ => Some(Decompression::StatefulZlib),
  };
  let mut d = Decoder::<BinaryData>::new(d, optimize());
  feed(&stream, &ends, &messages, vh::param("cuts", 2), &mut d);
  vh::reach("chunks");
});

fn compression(level: u32) -> (Option<Compression>, Option<Decompression>) {
  match vh::choose("compression", 3) {
    0 => (None, None),
    1 => (Some(Compression::StatelessZlib { level }), Some(Decompression::StatelessZlib)),
    _ => (Some(Compression::StatefulZlib { level }), Some(Decompression::StatefulZlib)),
  }
}

const LEVELS: [u32; 3] = [3, 0, 9];

// what the encoder produces, compressed or not, in pieces
vh::entry!(g01_compressed, {
  let (c, d) = compression(LEVELS[vh::choose("level", vh::param("levels", 2)) as usize]);
  let mut e = Encoder::new(c);
  let mut stream = Vec::new();
  let mut ends = Vec::new();
  let mut messages = Vec::new();
  for k in 0 .. 3 {
    let n = [110, 20, 100][k as usize];
    let m = message(filler(n, k));
    let f = e.encode(&m);
    stream.extend_from_slice(&f);
    ends.push(stream.len());
    messages.push(m);
  }
  vh::check(e.bandwidth_stats().0 == stream.len() as u64, "sent_bytes_counted");
  let mut d = Decoder::<BinaryData>::new(d, optimize());
  feed(&stream, &ends, &messages, vh::param("cuts", 1), &mut d);
  vh::reach("compressed");
});

fn roundtrip(e: &mut Encoder<BinaryData>, d: &mut Decoder<BinaryData>, compressing: bool, payload: Vec<u8>) {
  let n = payload.len();
  let m = message(payload);
  let f = e.encode(&m);
  vh::check(f.len() >= 5, "header");
  let len = u32::from_be_bytes([f[1], f[2], f[3], f[4]]) as usize;
  vh::check(len == f.len() - 5, "header_carries_the_length");
  vh::check(f[0] <= u8::from(compressing), "header_carries_the_compression");
  if f[0] == 0 {
    vh::check(len == if n == 0 { 0 } else if n < 128 { n + 2 } else { n + 3 }, "serialized");
  } else {
    vh::reach("compressed");
  }
  let r = d.decode_data(&f).unwrap_or_else(|_| vh::fail("own frame refused"));
  vh::check(r.len() == 1 && r[0] == m, "same_message");
}

// messages that stay uncompressed, any content
vh::entry!(g02_plain, {
  let (c, d) = compression(0);
  let compressing = c.is_some();
  let mut e = Encoder::new(c);
  let mut d = Decoder::<BinaryData>::new(d, optimize());
  for _ in 0 .. vh::param("messages", 2) {
    let n = [0, 1, 2, 5, 97, 98, 127, 128][vh::choose("length", if compressing { 5 } else { 8 }) as usize];
    roundtrip(&mut e, &mut d, compressing, bytes("payload", n));
  }
  vh::reach("plain");
});

// really compressed messages around and above the threshold
vh::entry!(g02_compressed, {
  let (c, d) = compression(vh::choose("level", 10) as u32);
  let compressing = c.is_some();
  let mut e = Encoder::new(c);
  let mut d = Decoder::<BinaryData>::new(d, OptimizeFor::Cpu);
  for k in 0 .. vh::param("messages", 2) {
    let n = [97, 98, 130, 3000][vh::choose("length", 4) as usize];
    let p = if vh::choose("repeated", 2) == 1 { vec![7; n] } else { filler(n, 7 + k as u8) };
    roundtrip(&mut e, &mut d, compressing, p);
  }
  vh::reach("any_compression");
});

// any bytes
vh::entry!(g03_hostile, {
  let n = vh::param("bytes", 8) as usize;
  let s = bytes("stream", n);
  let d = match vh::choose("decompression", 3) {
    0 => None,
    1 => Some(Decompression::StatelessZlib),
    _ => Some(Decompression::StatefulZlib),
  };
  let none = d.is_none();
  let mut d = Decoder::<BinaryData>::new(d, optimize());
  let at = vh::choose("cut", n as u64) as usize;
  let mut count = 0;
  let mut failed = false;
  for piece in [&s[.. at], &s[at ..]] {
    match d.decode_data(piece) {
      Ok(v) => count += v.len(),
      Err(_) => { failed = true; break; },
    }
  }
  vh::check(count <= n / 5, "no_message_from_nothing");
  if failed {
    vh::reach("error");
  } else {
    let len = u32::from_be_bytes([s[1], s[2], s[3], s[4]]);
    vh::check(!(none && s[0] == 1 && len as usize <= n - 5), "compressed_frame_without_decompression");
    vh::reach(if count > 0 { "message" } else { "incomplete" });
  }
});

// a stream that fails does no harm to another one on the same thread
vh::entry!(g04_other_streams, {
  let stateful = vh::choose("stateful", 2) == 1;
  let decompression = || if stateful { Decompression::StatefulZlib } else { Decompression::StatelessZlib };
  let c = if stateful { Compression::StatefulZlib { level: 3 } } else { Compression::StatelessZlib { level: 3 } };
  let m = message(filler(120, 1));
  let mut bad = Encoder::new(Some(c)).encode(&m).to_vec();
  match vh::choose("damage", 3) {
    0 => {
      let at = 5 + vh::choose("at", bad.len() as u64 - 5) as usize;
      bad[at] ^= 1 << vh::choose("bit", 8);
    },
    1 => {
      let n = vh::choose("cut", bad.len() as u64 - 5) as usize;
      bad.truncate(5 + n);
      bad[4] = n as u8;
    },
    _ => {
      bad.push(vh::u8v("more"));
      bad[4] += 1;
    },
  }
  let mut d = Decoder::<BinaryData>::new(Some(decompression()), OptimizeFor::Cpu);
  let r = d.decode_data(&bad);
  if r.is_err() {
    vh::reach("error");
  }
  for i in 0 .. 2 {
    let m = message(filler(110 + i, 2));
    let f = Encoder::new(Some(c)).encode(&m);
    let mut d = Decoder::<BinaryData>::new(Some(decompression()), OptimizeFor::Cpu);
    let r = d.decode_data(&f).unwrap_or_else(|_| vh::fail("other stream refused"));
    vh::check(r.len() == 1 && r[0] == m, "other_stream_unharmed");
  }
  vh::reach("unharmed");
});
