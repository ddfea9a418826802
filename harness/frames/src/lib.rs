//! G01, G02: framing of compressed messages of any content (a stand-in stores instead of deflating).
#![allow(dead_code)]
use bd_grpc_codec::{Compression, Decoder, Decompression, Encoder, OptimizeFor};
use bd_proto::protos::logging::payload::BinaryData;

fn message(payload: Vec<u8>) -> BinaryData { BinaryData { payload, ..Default::default() } }

fn bytes(name: &str, n: usize) -> Vec<u8> {
  let mut b = vec![0u8; n];
  vh::bytes(&mut b, name);
  b
}

fn optimize() -> OptimizeFor {
  if vh::choose("optimize_for_memory", 2) == 1 { OptimizeFor::Memory } else { OptimizeFor::Cpu }
}

/// Feeds the stream in pieces; after each, exactly the messages that are complete have been delivered.
fn feed(stream: &[u8], ends: &[usize], messages: &[BinaryData], cuts: u64, d: &mut Decoder<BinaryData>) {
  let mut at = 0;
  let mut got = 0;
  for k in 0 ..= cuts {
    let to = if k == cuts { stream.len() } else { at + vh::choose("cut", (stream.len() - at) as u64 + 1) as usize };
    let r = d.decode_data(&stream[at .. to]).unwrap_or_else(|_| vh::fail("a well formed stream is an error"));
    at = to;
    let complete = ends.iter().filter(|e| **e <= at).count();
    vh::check(got + r.len() == complete, "delivered_as_soon_as_complete");
    for m in r {
      vh::check(m == messages[got], "the_message_sent");
      got += 1;
    }
    vh::check(d.bandwidth_stats().0 == at as u64, "received_bytes_counted");
  }
  vh::check(got == messages.len(), "all_delivered");
}

fn compression(level: u32) -> (Option<Compression>, Option<Decompression>) {
  match vh::choose("compression", 3) {
    0 => (None, None),
    1 => (Some(Compression::StatelessZlib { level }), Some(Decompression::StatelessZlib)),
    _ => (Some(Compression::StatefulZlib { level }), Some(Decompression::StatefulZlib)),
  }
}

fn roundtrip(e: &mut Encoder<BinaryData>, d: &mut Decoder<BinaryData>, compressing: bool, payload: Vec<u8>) {
  let n = payload.len();
  let m = message(payload);
  let f = e.encode(&m);
  vh::check(f.len() >= 5, "header");
  let len = u32::from_be_bytes([f[1], f[2], f[3], f[4]]) as usize;
  vh::check(len == f.len() - 5, "header_carries_the_length");
  vh::check(f[0] <= u8::from(compressing), "header_carries_the_compression");
  if f[0] == 0 {
    vh::check(len == if n == 0 { 0 } else if n < 128 { n + 2 } else { n + 3 }, "serialized");
  } else {
    vh::reach("compressed");
  }
  let r = d.decode_data(&f).unwrap_or_else(|_| vh::fail("own frame refused"));
  vh::check(r.len() == 1 && r[0] == m, "same_message");
}


// any content, around the threshold and well above
vh::entry!(g02_any_content, {
  let (c, d) = compression(3);
  let compressing = c.is_some();
  let mut e = Encoder::new(c);
  let mut d = Decoder::<BinaryData>::new(d, optimize());
  for _ in 0 .. vh::param("messages", 2) {
    let n = [0, 3, 97, 98, 128][vh::choose("length", 5) as usize];
    roundtrip(&mut e, &mut d, compressing, bytes("payload", n));
  }
  vh::reach("any_content");
});

// and in pieces
vh::entry!(g01_any_content, {
  let (c, d) = compression(3);
  let mut e = Encoder::new(c);
  let mut stream = Vec::new();
  let mut ends = Vec::new();
  let mut messages = Vec::new();
  for n in [100, 2, 98] {
    let m = message(bytes("payload", n));
    stream.extend_from_slice(&e.encode(&m));
    ends.push(stream.len());
    messages.push(m);
  }
  vh::check(e.bandwidth_stats().0 == stream.len() as u64, "sent_bytes_counted");
  let mut d = Decoder::<BinaryData>::new(d, optimize());
  feed(&stream, &ends, &messages, vh::param("cuts", 1), &mut d);
  vh::reach("pieces");
});
