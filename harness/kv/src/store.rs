//! K01: typed keys read back what was stored, or nothing.
use crate::storage::{ascii, Mem};
use bd_key_value::{Key, Storable};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, PartialEq, Eq)]
enum Choice {
  A,
  B(u16),
  C { x: i64, s: String },
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Eq)]
struct Record {
  a: u8,
  b: i64,
  c: Option<u32>,
  d: bool,
  e: Vec<u8>,
  f: Choice,
  g: String,
}
impl Storable for Record {}

static TEXT: Key<String> = Key::new("text");
static TEXT2: Key<String> = Key::new("text2");
static REC: Key<Record> = Key::new("rec");

vh::entry!(k01_text, {
  let m = Mem::default();
  let s = m.store();
  vh::check(s.get(&TEXT).is_none(), "unwritten_is_absent");
  let n = vh::choose("len", vh::param("len", 5));
  let v = ascii("c", n as usize);
  s.set(&TEXT, &v);
  let r = s.get(&TEXT);
  vh::check(r.as_deref() == Some(v.as_str()), "reads_back");
  vh::check(s.get(&TEXT2).is_none(), "other_key_absent");
  let s2 = m.store();
  vh::check(s2.get(&TEXT).as_deref() == Some(v.as_str()), "reads_back_after_restart");
  vh::check(m.0.lock().deletes.is_empty(), "nothing_deleted");
  vh::reach("text");
});

vh::entry!(k01_record, {
  let m = Mem::default();
  let s = m.store();
  let n = vh::choose("bytes", 3) as usize;
  let mut e = vec![0u8; n];
  vh::bytes(&mut e, "e");
  let f = match vh::choose("variant", 3) {
    0 => Choice::A,
    1 => Choice::B(vh::u16v("b")),
    _ => Choice::C { x: vh::i64v("x"), s: ascii("s", 1) },
  };
  let r = Record {
    a: vh::u8v("a"),
    b: vh::i64v("b"),
    c: if vh::choose("some", 2) == 1 { Some(vh::u32v("c")) } else { None },
    d: vh::boolv("d"),
    e,
    f,
    g: ascii("g", 1),
  };
  s.set(&REC, &r);
  s.set(&TEXT, &"other".to_string());
  let back = s.get(&REC);
  vh::check(back == Some(r.clone()), "record_reads_back");
  vh::check(m.store().get(&REC) == Some(r), "record_reads_back_after_restart");
  vh::check(s.get(&TEXT).as_deref() == Some("other"), "other_key_kept");
  vh::reach("record");
});

const SYMBOLS: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

// Any text of up to n ASCII characters in place of what was stored.
fn decode(text: &[u8]) -> Option<Vec<u8>> {
  // RFC 4648 with canonical padding
  if text.len() % 4 != 0 {
    return None;
  }
  let table: [u8; 256] = {
    let mut t = [255u8; 256];
    let mut i = 0;
    while i < 64 {
      t[SYMBOLS[i] as usize] = i as u8;
      i += 1;
    }
    t
  };
  let val = |c: u8| -> Option<u32> {
    let v = table[c as usize];
    if v == 255 {
      None
    } else {
      Some(u32::from(v))
    }
  };
  let mut out = vec![];
  let groups = text.len() / 4;
  for i in 0..groups {
    let q = &text[4 * i .. 4 * i + 4];
    let last = i + 1 == groups;
    let a = val(q[0])?;
    let b = val(q[1])?;
    if last && q[3] == b'=' {
      if q[2] == b'=' {
        if b & 15 != 0 {
          return None;
        }
        out.push((a << 2 | b >> 4) as u8);
      } else {
        let c = val(q[2])?;
        if c & 3 != 0 {
          return None;
        }
        out.push((a << 2 | b >> 4) as u8);
        out.push((b << 4 | c >> 2) as u8);
      }
    } else {
      let c = val(q[2])?;
      let d = val(q[3])?;
      out.push((a << 2 | b >> 4) as u8);
      out.push((b << 4 | c >> 2) as u8);
      out.push((c << 6 | d) as u8);
    }
  }
  Some(out)
}

fn damaged(text: String) {
  let m = Mem::default();
  m.put("text", &text);
  m.put("text2", "intact");
  let s = m.store();
  let r = s.get(&TEXT);
  match &r {
    Some(v) => {
      vh::reach("readable");
      // only a text that decodes to a length-prefixed string of that length may be read as a value
      let d = decode(text.as_bytes());
      vh::check(d.is_some(), "readable_only_if_base64");
      let d = d.unwrap();
      vh::check(d.len() >= 8, "readable_only_with_length");
      let mut l = 0u64;
      for i in 0..8 {
        l |= u64::from(d[i]) << (8 * i);
      }
      vh::check(l == v.len() as u64 && l <= d.len() as u64 - 8, "length_as_stored");
      vh::check(&d[8..8 + v.len()] == v.as_bytes(), "value_as_stored");
      vh::check(m.text("text").as_deref() == Some(text.as_str()), "readable_text_kept");
    },
    None => {
      vh::reach("absent");
      vh::check(m.text("text").is_none(), "unreadable_text_removed");
      // whatever is written afterwards is read back
      let v = "again".to_string();
      s.set(&TEXT, &v);
      vh::check(s.get(&TEXT) == Some(v), "usable_after_damage");
    },
  }
  vh::check(m.text("text2").as_deref() == Some("intact"), "other_key_untouched");
}

// arbitrary short text
vh::entry!(k01_garbage, {
  let n = vh::choose("len", vh::param("len", 9)) as usize;
  damaged(ascii("t", n));
});

// a well formed base64 text whose decoded bytes are arbitrary: any length prefix, up to 3 bytes of content
vh::entry!(k01_bytes, {
  let n = vh::choose("content", 4) as usize;
  let mut raw = vec![0u8; 8 + n];
  vh::bytes(&mut raw, "raw");
  damaged(encode(&raw));
});

fn encode(raw: &[u8]) -> String {
  let sym = |v: u32| -> u8 { SYMBOLS[(v & 63) as usize] };
  let mut out = vec![];
  for c in raw.chunks(3) {
    let a = u32::from(c[0]);
    let b = u32::from(*c.get(1).unwrap_or(&0));
    let d = u32::from(*c.get(2).unwrap_or(&0));
    let w = a << 16 | b << 8 | d;
    out.push(sym(w >> 18));
    out.push(sym(w >> 12));
    out.push(if c.len() > 1 { sym(w >> 6) } else { b'=' });
    out.push(if c.len() > 2 { sym(w) } else { b'=' });
  }
  unsafe { String::from_utf8_unchecked(out) }
}

// a stored value cut short anywhere
vh::entry!(k01_truncated, {
  let m = Mem::default();
  let s = m.store();
  let n = vh::choose("len", 4) as usize;
  let v = ascii("c", n);
  s.set(&TEXT, &v);
  let full = m.text("text").unwrap();
  let keep = vh::choose("keep", full.len() as u64) as usize;
  m.put("text", &full[.. keep]);
  vh::check(s.get(&TEXT).is_none(), "truncated_is_absent");
  vh::check(m.text("text").is_none(), "truncated_is_removed");
  vh::reach("truncated");
});

// every bounded history over two keys, against a two-cell model; storage operations may fail
vh::entry!(k01_history, {
  let m = Mem::default();
  let mut s = m.store();
  let mut a: Option<String> = None;
  let mut b: Option<String> = None;
  for _ in 0..vh::param("ops", 4) {
    match vh::choose("op", 7) {
      0 => {
        let v = ascii("v", 1);
        s.set(&TEXT, &v);
        a = Some(v);
        vh::reach("set");
      },
      1 => {
        let v = ascii("w", 2);
        s.set(&TEXT2, &v);
        b = Some(v);
      },
      2 => {
        s = m.store();
      },
      3 => {
        m.put("text", "!!");
        a = None;
        vh::reach("damaged");
      },
      4 => {
        m.0.lock().fail_set = true;
        s.set(&TEXT, &"lost".to_string());
        m.0.lock().fail_set = false;
      },
      5 => {
        // an unreadable storage reads as absent; a delete that fails changes nothing
        m.0.lock().fail_get = true;
        m.0.lock().fail_delete = true;
        vh::check(s.get(&TEXT).is_none(), "unreadable_storage_is_absent");
        m.0.lock().fail_get = false;
        m.0.lock().fail_delete = false;
      },
      _ => {
        vh::check(s.get(&TEXT) == a, "first_key_as_model");
      },
    }
    vh::check(s.get(&TEXT2) == b, "second_key_as_model");
  }
  vh::check(s.get(&TEXT) == a, "first_key_as_model_at_end");
});

// a value with a part that cannot be stored
#[derive(Deserialize, Clone, PartialEq, Eq)]
struct Partial(u8, u8);
impl Serialize for Partial {
  fn serialize<S: serde::Serializer>(&self, to: S) -> Result<S::Ok, S::Error> {
    use serde::ser::{Error, SerializeTuple};
    let mut t = to.serialize_tuple(2)?;
    t.serialize_element(&self.0)?;
    if self.1 > 100 { return Err(S::Error::custom("no")); }
    t.serialize_element(&self.1)?;
    t.end()
  }
}
impl Storable for Partial {}
static PART: Key<Partial> = Key::new("part");

vh::entry!(k01_unserializable, {
  let m = Mem::default();
  let s = m.store();
  let mut last = None;
  for _ in 0 .. 3 {
    let v = Partial(vh::u8v("a"), vh::u8v("b"));
    s.set(&PART, &v);
    if v.1 <= 100 {
      last = Some(v);
      vh::reach("stored");
    } else {
      vh::reach("refused");
    }
    vh::check(s.get(&PART) == last, "last_one_stored");
  }
});
