use crate::{wire, Chars, Enum, EnumOrUnknown, Error, Message, Result, UnknownFields, UnknownValue};
use std::io::Write;

const MAX_DEPTH: u32 = 100;

pub struct CodedInputStream<'a> {
  buf: std::borrow::Cow<'a, [u8]>,
  pos: usize,
  limit: usize,
  depth: u32,
}

impl<'a> CodedInputStream<'a> {
  pub fn from_bytes(b: &'a [u8]) -> Self {
    Self { limit: b.len(), buf: b.into(), pos: 0, depth: 0 }
  }
  pub fn from_tokio_bytes(b: &'a bytes::Bytes) -> Self {
    Self::from_bytes(b)
  }
  pub fn eof(&mut self) -> Result<bool> {
    Ok(self.pos == self.limit)
  }
  pub fn pos(&self) -> u64 {
    self.pos as u64
  }
  pub fn bytes_until_limit(&self) -> u64 {
    (self.limit - self.pos) as u64
  }
  pub fn push_limit(&mut self, n: u64) -> Result<u64> {
    let left = (self.limit - self.pos) as u64;
    if n > left {
      return wire("truncated message");
    }
    let old = self.limit;
    self.limit = self.pos + n as usize;
    Ok(old as u64)
  }
  pub fn pop_limit(&mut self, old: u64) {
    self.limit = old as usize;
  }
  fn byte(&mut self) -> Result<u8> {
    if self.pos >= self.limit {
      return wire("unexpected end of stream");
    }
    let b = self.buf[self.pos];
    self.pos += 1;
    Ok(b)
  }
  fn take(&mut self, n: usize) -> Result<&[u8]> {
    if n > self.limit - self.pos {
      return wire("unexpected end of stream");
    }
    let at = self.pos;
    self.pos += n;
    Ok(&self.buf[at .. at + n])
  }
  pub fn read_raw_varint64(&mut self) -> Result<u64> {
    let mut v = 0u64;
    for i in 0 .. 10 {
      let b = self.byte()?;
      if i == 9 && b > 1 {
        return wire("incorrect varint");
      }
      v |= u64::from(b & 0x7f) << (7 * i);
      if b < 0x80 {
        return Ok(v);
      }
    }
    wire("incorrect varint")
  }
  pub fn read_raw_varint32(&mut self) -> Result<u32> {
    let v = self.read_raw_varint64()?;
    match u32::try_from(v) {
      Ok(v) => Ok(v),
      Err(_) => wire("u32 overflow"),
    }
  }
  pub fn read_raw_tag_or_eof(&mut self) -> Result<Option<u32>> {
    if self.pos == self.limit {
      return Ok(None);
    }
    Ok(Some(self.read_raw_varint32()?))
  }
  pub fn read_message<M: Message>(&mut self) -> Result<M> {
    let mut m = M::new();
    self.merge_message(&mut m)?;
    Ok(m)
  }
  pub fn merge_message<M: Message>(&mut self, m: &mut M) -> Result<()> {
    if self.depth >= MAX_DEPTH {
      return wire("over recursion limit");
    }
    let n = self.read_raw_varint64()?;
    let old = self.push_limit(n)?;
    self.depth += 1;
    let r = m.merge_from(self);
    self.depth -= 1;
    r?;
    self.pop_limit(old);
    Ok(())
  }
  fn len(&mut self) -> Result<usize> {
    Ok(self.read_raw_varint32()? as usize)
  }
  pub fn read_bytes(&mut self) -> Result<Vec<u8>> {
    let n = self.len()?;
    Ok(self.take(n)?.to_vec())
  }
  pub fn read_tokio_bytes(&mut self) -> Result<bytes::Bytes> {
    Ok(self.read_bytes()?.into())
  }
  pub fn read_string(&mut self) -> Result<String> {
    match String::from_utf8(self.read_bytes()?) {
      Ok(s) => Ok(s),
      Err(_) => wire("invalid UTF-8"),
    }
  }
  pub fn read_tokio_chars(&mut self) -> Result<Chars> {
    Ok(self.read_string()?.into())
  }
  pub fn read_uint64(&mut self) -> Result<u64> {
    self.read_raw_varint64()
  }
  pub fn read_uint32(&mut self) -> Result<u32> {
    self.read_raw_varint32()
  }
  pub fn read_int64(&mut self) -> Result<i64> {
    Ok(self.read_raw_varint64()? as i64)
  }
  pub fn read_int32(&mut self) -> Result<i32> {
    match i32::try_from(self.read_int64()?) {
      Ok(v) => Ok(v),
      Err(_) => wire("i32 overflow"),
    }
  }
  pub fn read_sint64(&mut self) -> Result<i64> {
    let v = self.read_raw_varint64()?;
    Ok((v >> 1) as i64 ^ -((v & 1) as i64))
  }
  pub fn read_sint32(&mut self) -> Result<i32> {
    let v = self.read_raw_varint32()?;
    Ok((v >> 1) as i32 ^ -((v & 1) as i32))
  }
  pub fn read_bool(&mut self) -> Result<bool> {
    Ok(self.read_raw_varint64()? != 0)
  }
  pub fn read_fixed32(&mut self) -> Result<u32> {
    Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
  }
  pub fn read_fixed64(&mut self) -> Result<u64> {
    Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
  }
  pub fn read_sfixed32(&mut self) -> Result<i32> {
    Ok(self.read_fixed32()? as i32)
  }
  pub fn read_sfixed64(&mut self) -> Result<i64> {
    Ok(self.read_fixed64()? as i64)
  }
  pub fn read_float(&mut self) -> Result<f32> {
    Ok(f32::from_bits(self.read_fixed32()?))
  }
  pub fn read_double(&mut self) -> Result<f64> {
    Ok(f64::from_bits(self.read_fixed64()?))
  }
  pub fn read_enum_or_unknown<E: Enum>(&mut self) -> Result<EnumOrUnknown<E>> {
    Ok(EnumOrUnknown::from_i32(self.read_int32()?))
  }
  pub fn read_repeated_packed_double_into(&mut self, to: &mut Vec<f64>) -> Result<()> {
    let n = self.read_raw_varint64()?;
    let old = self.push_limit(n)?;
    while self.pos < self.limit {
      to.push(self.read_double()?);
    }
    self.pop_limit(old);
    Ok(())
  }
  pub fn read_repeated_packed_int32_into(&mut self, to: &mut Vec<i32>) -> Result<()> {
    self.packed(to, Self::read_int32)
  }
  pub fn read_repeated_packed_int64_into(&mut self, to: &mut Vec<i64>) -> Result<()> {
    self.packed(to, Self::read_int64)
  }
  pub fn read_repeated_packed_uint32_into(&mut self, to: &mut Vec<u32>) -> Result<()> {
    self.packed(to, Self::read_uint32)
  }
  pub fn read_repeated_packed_uint64_into(&mut self, to: &mut Vec<u64>) -> Result<()> {
    self.packed(to, Self::read_uint64)
  }
  pub fn read_repeated_packed_sint32_into(&mut self, to: &mut Vec<i32>) -> Result<()> {
    self.packed(to, Self::read_sint32)
  }
  pub fn read_repeated_packed_sint64_into(&mut self, to: &mut Vec<i64>) -> Result<()> {
    self.packed(to, Self::read_sint64)
  }
  pub fn read_repeated_packed_fixed32_into(&mut self, to: &mut Vec<u32>) -> Result<()> {
    self.packed(to, Self::read_fixed32)
  }
  pub fn read_repeated_packed_fixed64_into(&mut self, to: &mut Vec<u64>) -> Result<()> {
    self.packed(to, Self::read_fixed64)
  }
  pub fn read_repeated_packed_sfixed32_into(&mut self, to: &mut Vec<i32>) -> Result<()> {
    self.packed(to, Self::read_sfixed32)
  }
  pub fn read_repeated_packed_sfixed64_into(&mut self, to: &mut Vec<i64>) -> Result<()> {
    self.packed(to, Self::read_sfixed64)
  }
  pub fn read_repeated_packed_float_into(&mut self, to: &mut Vec<f32>) -> Result<()> {
    self.packed(to, Self::read_float)
  }
  pub(crate) fn packed<T>(&mut self, to: &mut Vec<T>, f: impl Fn(&mut Self) -> Result<T>) -> Result<()> {
    let n = self.read_raw_varint64()?;
    let old = self.push_limit(n)?;
    while self.pos < self.limit {
      to.push(f(self)?);
    }
    self.pop_limit(old);
    Ok(())
  }
  pub(crate) fn read_unknown(&mut self, wire_type: u32) -> Result<UnknownValue> {
    Ok(match wire_type {
      0 => UnknownValue::Varint(self.read_raw_varint64()?),
      1 => UnknownValue::Fixed64(self.read_fixed64()?),
      2 => UnknownValue::LengthDelimited(self.read_bytes()?),
      5 => UnknownValue::Fixed32(self.read_fixed32()?),
      _ => return wire("unexpected wire type"),
    })
  }
  pub(crate) fn skip_group(&mut self, depth: u32) -> Result<()> {
    if depth >= MAX_DEPTH {
      return wire("over recursion limit");
    }
    loop {
      let tag = self.read_raw_varint32()?;
      match tag & 7 {
        4 => return Ok(()),
        3 => self.skip_group(depth + 1)?,
        w => {
          self.read_unknown(w)?;
        },
      }
    }
  }
}

enum Target<'a> {
  Vec(&'a mut Vec<u8>),
  Bytes(&'a mut [u8], usize),
  Write(&'a mut dyn Write),
}

pub struct CodedOutputStream<'a>(Target<'a>);

impl<'a> CodedOutputStream<'a> {
  pub fn new(w: &'a mut dyn Write) -> Self {
    Self(Target::Write(w))
  }
  pub fn vec(v: &'a mut Vec<u8>) -> Self {
    Self(Target::Vec(v))
  }
  pub fn bytes(b: &'a mut [u8]) -> Self {
    Self(Target::Bytes(b, 0))
  }
  pub fn flush(&mut self) -> Result<()> {
    if let Target::Write(w) = &mut self.0 {
      w.flush().map_err(Error::from)?;
    }
    Ok(())
  }
  pub fn check_eof(&self) {
    if let Target::Bytes(b, at) = &self.0 {
      assert_eq!(b.len(), *at);
    }
  }
  pub fn write_raw_bytes(&mut self, d: &[u8]) -> Result<()> {
    match &mut self.0 {
      Target::Vec(v) => v.extend_from_slice(d),
      Target::Bytes(b, at) => {
        if d.len() > b.len() - *at {
          return wire("given slice is too small to serialize the message");
        }
        b[*at .. *at + d.len()].copy_from_slice(d);
        *at += d.len();
      },
      Target::Write(w) => w.write_all(d).map_err(Error::from)?,
    }
    Ok(())
  }
  pub fn write_raw_varint64(&mut self, mut v: u64) -> Result<()> {
    let mut b = [0u8; 10];
    let mut n = 0;
    while v >= 0x80 {
      b[n] = (v as u8 & 0x7f) | 0x80;
      v >>= 7;
      n += 1;
    }
    b[n] = v as u8;
    self.write_raw_bytes(&b[..= n])
  }
  pub fn write_raw_varint32(&mut self, v: u32) -> Result<()> {
    self.write_raw_varint64(u64::from(v))
  }
  fn tag(&mut self, field: u32, wire_type: u32) -> Result<()> {
    self.write_raw_varint32(field << 3 | wire_type)
  }
  pub fn write_tag(&mut self, field: u32, wire_type: crate::rt::WireType) -> Result<()> {
    self.tag(field, wire_type as u32)
  }
  pub fn write_bytes(&mut self, field: u32, d: &[u8]) -> Result<()> {
    self.tag(field, 2)?;
    self.write_raw_varint64(d.len() as u64)?;
    self.write_raw_bytes(d)
  }
  pub fn write_string(&mut self, field: u32, s: &str) -> Result<()> {
    self.write_bytes(field, s.as_bytes())
  }
  pub fn write_uint64(&mut self, field: u32, v: u64) -> Result<()> {
    self.tag(field, 0)?;
    self.write_raw_varint64(v)
  }
  pub fn write_uint32(&mut self, field: u32, v: u32) -> Result<()> {
    self.write_uint64(field, u64::from(v))
  }
  pub fn write_int64(&mut self, field: u32, v: i64) -> Result<()> {
    self.write_uint64(field, v as u64)
  }
  pub fn write_int32(&mut self, field: u32, v: i32) -> Result<()> {
    self.write_int64(field, i64::from(v))
  }
  pub fn write_enum(&mut self, field: u32, v: i32) -> Result<()> {
    self.write_int32(field, v)
  }
  pub fn write_sint64(&mut self, field: u32, v: i64) -> Result<()> {
    self.write_uint64(field, ((v << 1) ^ (v >> 63)) as u64)
  }
  pub fn write_sint32(&mut self, field: u32, v: i32) -> Result<()> {
    self.write_uint32(field, ((v << 1) ^ (v >> 31)) as u32)
  }
  pub fn write_bool(&mut self, field: u32, v: bool) -> Result<()> {
    self.write_uint64(field, u64::from(v))
  }
  pub fn write_fixed32(&mut self, field: u32, v: u32) -> Result<()> {
    self.tag(field, 5)?;
    self.write_raw_bytes(&v.to_le_bytes())
  }
  pub fn write_fixed64(&mut self, field: u32, v: u64) -> Result<()> {
    self.tag(field, 1)?;
    self.write_raw_bytes(&v.to_le_bytes())
  }
  pub fn write_sfixed32(&mut self, field: u32, v: i32) -> Result<()> {
    self.write_fixed32(field, v as u32)
  }
  pub fn write_sfixed64(&mut self, field: u32, v: i64) -> Result<()> {
    self.write_fixed64(field, v as u64)
  }
  pub fn write_float(&mut self, field: u32, v: f32) -> Result<()> {
    self.write_fixed32(field, v.to_bits())
  }
  pub fn write_double(&mut self, field: u32, v: f64) -> Result<()> {
    self.write_fixed64(field, v.to_bits())
  }
  pub fn write_repeated_packed_double(&mut self, field: u32, v: &[f64]) -> Result<()> {
    if v.is_empty() {
      return Ok(());
    }
    self.tag(field, 2)?;
    self.write_raw_varint64(v.len() as u64 * 8)?;
    for x in v {
      self.write_raw_bytes(&x.to_bits().to_le_bytes())?;
    }
    Ok(())
  }
  pub fn write_repeated_packed_enum_or_unknown<E: Enum>(&mut self, field: u32, v: &[EnumOrUnknown<E>]) -> Result<()> {
    if v.is_empty() {
      return Ok(());
    }
    self.tag(field, 2)?;
    let n: u64 = v.iter().map(|e| crate::rt::compute_raw_varint64_size(i64::from(e.value()) as u64)).sum();
    self.write_raw_varint64(n)?;
    for x in v {
      self.write_raw_varint64(i64::from(x.value()) as u64)?;
    }
    Ok(())
  }
  pub fn write_unknown_fields(&mut self, u: &UnknownFields) -> Result<()> {
    for (n, v) in &u.fields {
      match v {
        UnknownValue::Fixed32(v) => self.write_fixed32(*n, *v)?,
        UnknownValue::Fixed64(v) => self.write_fixed64(*n, *v)?,
        UnknownValue::Varint(v) => self.write_uint64(*n, *v)?,
        UnknownValue::LengthDelimited(v) => self.write_bytes(*n, v)?,
      }
    }
    Ok(())
  }
}
