use crate::{wire, CodedInputStream, CodedOutputStream, Enum, EnumOrUnknown, Message, MessageField, Result, UnknownFields, UnknownValue};

#[repr(u32)]
#[derive(Clone, Copy)]
pub enum WireType {
  Varint = 0,
  Fixed64 = 1,
  LengthDelimited = 2,
  StartGroup = 3,
  EndGroup = 4,
  Fixed32 = 5,
}

pub struct Lazy<T>(std::sync::OnceLock<T>);
impl<T> Lazy<T> {
  pub const fn new() -> Self {
    Self(std::sync::OnceLock::new())
  }
  pub fn get(&self, init: impl FnOnce() -> T) -> &T {
    self.0.get_or_init(init)
  }
}

pub fn compute_raw_varint64_size(v: u64) -> u64 {
  (64 - u64::from((v | 1).leading_zeros()) + 6) / 7
}
pub fn compute_raw_varint32_size(v: u32) -> u64 {
  compute_raw_varint64_size(u64::from(v))
}
pub fn tag_size(field: u32) -> u64 {
  compute_raw_varint32_size(field << 3)
}
pub fn uint64_size(field: u32, v: u64) -> u64 {
  tag_size(field) + compute_raw_varint64_size(v)
}
pub fn uint32_size(field: u32, v: u32) -> u64 {
  uint64_size(field, u64::from(v))
}
pub fn int64_size(field: u32, v: i64) -> u64 {
  uint64_size(field, v as u64)
}
pub fn int32_size(field: u32, v: i32) -> u64 {
  int64_size(field, i64::from(v))
}
pub fn sint64_size(field: u32, v: i64) -> u64 {
  uint64_size(field, ((v << 1) ^ (v >> 63)) as u64)
}
pub fn sint32_size(field: u32, v: i32) -> u64 {
  uint32_size(field, ((v << 1) ^ (v >> 31)) as u32)
}
pub fn bytes_size(field: u32, v: &[u8]) -> u64 {
  tag_size(field) + compute_raw_varint64_size(v.len() as u64) + v.len() as u64
}
pub fn string_size(field: u32, v: &str) -> u64 {
  bytes_size(field, v.as_bytes())
}
pub fn vec_packed_double_size(field: u32, v: &[f64]) -> u64 {
  if v.is_empty() {
    return 0;
  }
  let n = v.len() as u64 * 8;
  tag_size(field) + compute_raw_varint64_size(n) + n
}
pub fn vec_packed_enum_or_unknown_size<E: Enum>(field: u32, v: &[EnumOrUnknown<E>]) -> u64 {
  if v.is_empty() {
    return 0;
  }
  let n: u64 = v.iter().map(|e| compute_raw_varint64_size(i64::from(e.value()) as u64)).sum();
  tag_size(field) + compute_raw_varint64_size(n) + n
}
pub fn unknown_fields_size(u: &UnknownFields) -> u64 {
  u.fields
    .iter()
    .map(|(n, v)| {
      tag_size(*n)
        + match v {
          UnknownValue::Fixed32(_) => 4,
          UnknownValue::Fixed64(_) => 8,
          UnknownValue::Varint(v) => compute_raw_varint64_size(*v),
          UnknownValue::LengthDelimited(v) => compute_raw_varint64_size(v.len() as u64) + v.len() as u64,
        }
    })
    .sum()
}
pub fn write_message_field_with_cached_size<M: Message>(field: u32, m: &M, os: &mut CodedOutputStream<'_>) -> Result<()> {
  os.write_tag(field, WireType::LengthDelimited)?;
  os.write_raw_varint32(m.cached_size())?;
  m.write_to_with_cached_sizes(os)
}
pub fn read_singular_message_into_field<M: Message>(is: &mut CodedInputStream<'_>, f: &mut MessageField<M>) -> Result<()> {
  is.merge_message(f.mut_or_insert_default())
}
pub fn read_repeated_packed_enum_or_unknown_into<E: Enum>(is: &mut CodedInputStream<'_>, to: &mut Vec<EnumOrUnknown<E>>) -> Result<()> {
  is.packed(to, CodedInputStream::read_enum_or_unknown)
}
pub fn read_unknown_or_skip_group(tag: u32, is: &mut CodedInputStream<'_>, u: &mut UnknownFields) -> Result<()> {
  let field = tag >> 3;
  if field == 0 {
    return wire("incorrect tag");
  }
  match tag & 7 {
    3 => is.skip_group(0),
    w => {
      let v = is.read_unknown(w)?;
      u.add_value(field, v);
      Ok(())
    },
  }
}
pub fn skip_field_for_tag(tag: u32, is: &mut CodedInputStream<'_>) -> Result<()> {
  if tag >> 3 == 0 {
    return wire("incorrect tag");
  }
  match tag & 7 {
    3 => is.skip_group(0),
    w => is.read_unknown(w).map(|_| ()),
  }
}
