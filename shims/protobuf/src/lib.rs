//! Stand-in for rust-protobuf 4.0.0-alpha.0, which is absent from the offline cache: the wire format,
//! the message traits and the field types that generated code uses.  Reflection and text format are
//! placeholders that panic when used (no checked code path uses them).
#![allow(warnings)]
pub mod descriptor;
pub mod ext;
pub mod reflect;
pub mod rt;
mod stream;
pub mod text_format;
pub mod well_known_types;

pub use stream::{CodedInputStream, CodedOutputStream};

use std::fmt;
use std::marker::PhantomData;
use std::ops::Deref;
use std::sync::atomic::{AtomicU32, Ordering};

pub const VERSION_4_0_0_ALPHA_0: () = ();

// ---- errors -----------------------------------------------------------------------------------

#[derive(Debug)]
pub struct Error(pub(crate) ErrorKind);

#[derive(Debug)]
pub(crate) enum ErrorKind {
  Io(std::io::Error),
  Wire(&'static str),
}

impl fmt::Display for Error {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    match &self.0 {
      ErrorKind::Io(e) => fmt::Display::fmt(e, f),
      ErrorKind::Wire(m) => f.write_str(m),
    }
  }
}
impl std::error::Error for Error {}
impl From<std::io::Error> for Error {
  fn from(e: std::io::Error) -> Self {
    Self(ErrorKind::Io(e))
  }
}
impl From<Error> for std::io::Error {
  fn from(e: Error) -> Self {
    match e.0 {
      ErrorKind::Io(e) => e,
      ErrorKind::Wire(m) => std::io::Error::new(std::io::ErrorKind::InvalidData, m),
    }
  }
}
pub(crate) fn wire<T>(m: &'static str) -> Result<T> {
  Err(Error(ErrorKind::Wire(m)))
}
pub type Result<T> = std::result::Result<T, Error>;

// ---- unknown and special fields ---------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub enum UnknownValue {
  Fixed32(u32),
  Fixed64(u64),
  Varint(u64),
  LengthDelimited(Vec<u8>),
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct UnknownFields {
  pub(crate) fields: Vec<(u32, UnknownValue)>,
}
impl UnknownFields {
  pub const fn new() -> Self {
    Self { fields: Vec::new() }
  }
  pub fn clear(&mut self) {
    self.fields.clear();
  }
  pub fn add_value(&mut self, number: u32, value: UnknownValue) {
    self.fields.push((number, value));
  }
}

#[derive(Debug)]
pub struct CachedSize(AtomicU32);
impl CachedSize {
  pub const fn new() -> Self {
    Self(AtomicU32::new(0))
  }
  pub fn get(&self) -> u32 {
    unsafe { *self.0.as_ptr() }
  }
  pub fn set(&self, size: u32) {
    unsafe { *self.0.as_ptr() = size }
  }
}
impl Default for CachedSize {
  fn default() -> Self {
    Self::new()
  }
}
impl Clone for CachedSize {
  fn clone(&self) -> Self {
    let c = Self::new();
    c.set(self.get());
    c
  }
}

#[derive(Clone, Debug, Default)]
pub struct SpecialFields {
  unknown: UnknownFields,
  size: CachedSize,
}
impl SpecialFields {
  pub const fn new() -> Self {
    Self {
      unknown: UnknownFields::new(),
      size: CachedSize::new(),
    }
  }
  pub fn unknown_fields(&self) -> &UnknownFields {
    &self.unknown
  }
  pub fn mut_unknown_fields(&mut self) -> &mut UnknownFields {
    &mut self.unknown
  }
  pub fn cached_size(&self) -> &CachedSize {
    &self.size
  }
  pub fn clear(&mut self) {
    self.unknown.clear();
  }
}
impl PartialEq for SpecialFields {
  fn eq(&self, o: &Self) -> bool {
    self.unknown == o.unknown
  }
}

// ---- messages ---------------------------------------------------------------------------------

pub trait Message: Default + Clone + Send + Sync + Sized + PartialEq + 'static {
  const NAME: &'static str;
  fn is_initialized(&self) -> bool;
  fn merge_from(&mut self, is: &mut CodedInputStream<'_>) -> Result<()>;
  fn write_to_with_cached_sizes(&self, os: &mut CodedOutputStream<'_>) -> Result<()>;
  fn compute_size(&self) -> u64;
  fn special_fields(&self) -> &SpecialFields;
  fn mut_special_fields(&mut self) -> &mut SpecialFields;
  fn new() -> Self;
  fn default_instance() -> &'static Self;
  fn clear(&mut self) {
    *self = Self::new();
  }

  fn parse_from(is: &mut CodedInputStream<'_>) -> Result<Self> {
    let mut m = Self::new();
    m.merge_from(is)?;
    Ok(m)
  }
  fn cached_size(&self) -> u32 {
    self.special_fields().cached_size().get()
  }
  fn write_to(&self, os: &mut CodedOutputStream<'_>) -> Result<()> {
    let size = self.compute_size();
    check_size(size)?;
    self.write_to_with_cached_sizes(os)
  }
  fn write_length_delimited_to(&self, os: &mut CodedOutputStream<'_>) -> Result<()> {
    let size = self.compute_size();
    check_size(size)?;
    os.write_raw_varint32(size as u32)?;
    self.write_to_with_cached_sizes(os)
  }
  fn write_to_writer(&self, w: &mut dyn std::io::Write) -> Result<()> {
    let size = self.compute_size();
    check_size(size)?;
    let mut os = CodedOutputStream::new(w);
    self.write_to_with_cached_sizes(&mut os)?;
    os.flush()
  }
  fn write_to_vec(&self, v: &mut Vec<u8>) -> Result<()> {
    let size = self.compute_size();
    check_size(size)?;
    v.reserve(size as usize);
    let mut os = CodedOutputStream::vec(v);
    self.write_to_with_cached_sizes(&mut os)?;
    os.flush()
  }
  fn write_to_bytes(&self) -> Result<Vec<u8>> {
    let mut v = Vec::new();
    self.write_to_vec(&mut v)?;
    Ok(v)
  }
  fn merge_from_bytes(&mut self, bytes: &[u8]) -> Result<()> {
    let mut is = CodedInputStream::from_bytes(bytes);
    self.merge_from(&mut is)
  }
  fn parse_from_bytes(bytes: &[u8]) -> Result<Self> {
    let mut m = Self::new();
    m.merge_from_bytes(bytes)?;
    Ok(m)
  }
  fn parse_from_tokio_bytes(bytes: &bytes::Bytes) -> Result<Self> {
    Self::parse_from_bytes(bytes)
  }
  fn parse_from_reader(reader: &mut dyn std::io::Read) -> Result<Self> {
    let mut v = Vec::new();
    reader.read_to_end(&mut v)?;
    Self::parse_from_bytes(&v)
  }
}

fn check_size(size: u64) -> Result<()> {
  if size > i32::MAX as u64 {
    return wire("message too large");
  }
  Ok(())
}

pub trait MessageFull: Message + reflect::ProtobufValue + fmt::Debug {
  fn descriptor() -> reflect::MessageDescriptor;
}

pub trait MessageDyn: Send + Sync + 'static {
  fn descriptor_dyn(&self) -> reflect::MessageDescriptor;
  fn write_to_bytes_dyn(&self) -> Result<Vec<u8>>;
  fn compute_size_dyn(&self) -> u64;
}
impl<M: MessageFull> MessageDyn for M {
  fn descriptor_dyn(&self) -> reflect::MessageDescriptor {
    M::descriptor()
  }
  fn write_to_bytes_dyn(&self) -> Result<Vec<u8>> {
    self.write_to_bytes()
  }
  fn compute_size_dyn(&self) -> u64 {
    self.compute_size()
  }
}

pub trait Oneof {}
pub trait OneofFull: Oneof {
  fn descriptor() -> reflect::OneofDescriptor;
}

pub trait Enum: Eq + Sized + Copy + fmt::Debug + Default + Send + Sync + 'static {
  const NAME: &'static str;
  fn value(&self) -> i32;
  fn from_i32(v: i32) -> Option<Self>;
  fn from_str(s: &str) -> Option<Self>;
  const VALUES: &'static [Self];
}
pub trait EnumFull: Enum {
  fn enum_descriptor() -> reflect::EnumDescriptor;
  fn descriptor(&self) -> reflect::EnumValueDescriptor;
}

// ---- field types ------------------------------------------------------------------------------

pub struct EnumOrUnknown<E> {
  value: i32,
  _e: PhantomData<E>,
}
impl<E> Clone for EnumOrUnknown<E> {
  fn clone(&self) -> Self {
    *self
  }
}
impl<E> Copy for EnumOrUnknown<E> {}
impl<E> PartialEq for EnumOrUnknown<E> {
  fn eq(&self, o: &Self) -> bool {
    self.value == o.value
  }
}
impl<E> Eq for EnumOrUnknown<E> {}
impl<E> std::hash::Hash for EnumOrUnknown<E> {
  fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
    self.value.hash(h);
  }
}
impl<E: Enum> fmt::Debug for EnumOrUnknown<E> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    match E::from_i32(self.value) {
      Some(e) => fmt::Debug::fmt(&e, f),
      None => fmt::Debug::fmt(&self.value, f),
    }
  }
}
impl<E: Enum> Default for EnumOrUnknown<E> {
  fn default() -> Self {
    Self::new(E::default())
  }
}
impl<E: Enum> From<E> for EnumOrUnknown<E> {
  fn from(e: E) -> Self {
    Self::new(e)
  }
}
impl<E> EnumOrUnknown<E> {
  pub const fn from_i32(value: i32) -> Self {
    Self { value, _e: PhantomData }
  }
  pub fn value(&self) -> i32 {
    self.value
  }
}
impl<E: Enum> EnumOrUnknown<E> {
  pub fn new(e: E) -> Self {
    Self::from_i32(e.value())
  }
  pub fn enum_value(&self) -> std::result::Result<E, i32> {
    E::from_i32(self.value).ok_or(self.value)
  }
  pub fn enum_value_or(&self, d: E) -> E {
    self.enum_value().unwrap_or(d)
  }
  pub fn enum_value_or_default(&self) -> E {
    self.enum_value().unwrap_or_default()
  }
  pub fn unwrap(&self) -> E {
    self.enum_value().unwrap()
  }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MessageField<T>(pub Option<Box<T>>);
impl<T> Default for MessageField<T> {
  fn default() -> Self {
    Self(None)
  }
}
impl<T> MessageField<T> {
  pub const fn none() -> Self {
    Self(None)
  }
  pub fn some(v: T) -> Self {
    Self(Some(Box::new(v)))
  }
  pub fn from_option(v: Option<T>) -> Self {
    Self(v.map(Box::new))
  }
  pub fn is_some(&self) -> bool {
    self.0.is_some()
  }
  pub fn is_none(&self) -> bool {
    self.0.is_none()
  }
  pub fn into_option(self) -> Option<T> {
    self.0.map(|b| *b)
  }
  pub fn as_ref(&self) -> Option<&T> {
    self.0.as_deref()
  }
  pub fn as_mut(&mut self) -> Option<&mut T> {
    self.0.as_deref_mut()
  }
  pub fn unwrap(self) -> T {
    *self.0.unwrap()
  }
  pub fn expect(self, m: &str) -> T {
    *self.0.expect(m)
  }
  pub fn unwrap_or(self, d: T) -> T {
    self.0.map_or(d, |b| *b)
  }
  pub fn unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T {
    self.0.map(|b| *b).unwrap_or_else(f)
  }
  pub fn map<U, F: FnOnce(T) -> U>(self, f: F) -> MessageField<U> {
    MessageField::from_option(self.into_option().map(f))
  }
  pub fn iter(&self) -> std::option::IntoIter<&T> {
    self.as_ref().into_iter()
  }
  pub fn ok_or<E>(self, e: E) -> std::result::Result<T, E> {
    self.into_option().ok_or(e)
  }
  pub fn ok_or_else<E, F: FnOnce() -> E>(self, f: F) -> std::result::Result<T, E> {
    self.into_option().ok_or_else(f)
  }
  pub fn clear(&mut self) {
    self.0 = None;
  }
  pub fn take(&mut self) -> Option<T> {
    self.0.take().map(|b| *b)
  }
}
impl<T: Default> MessageField<T> {
  pub fn unwrap_or_default(self) -> T {
    self.into_option().unwrap_or_default()
  }
}
impl<M: Message> MessageField<M> {
  pub fn get_or_default(&self) -> &M {
    match &self.0 {
      Some(m) => m,
      None => M::default_instance(),
    }
  }
  pub fn mut_or_insert_default(&mut self) -> &mut M {
    if self.0.is_none() {
      self.0 = Some(Box::default());
    }
    self.as_mut().unwrap()
  }
}
impl<M: Message> Deref for MessageField<M> {
  type Target = M;
  fn deref(&self) -> &M {
    self.get_or_default()
  }
}
impl<T> From<Option<T>> for MessageField<T> {
  fn from(v: Option<T>) -> Self {
    Self::from_option(v)
  }
}
impl<T> From<T> for MessageField<T> {
  fn from(v: T) -> Self {
    Self::some(v)
  }
}
impl<T> IntoIterator for MessageField<T> {
  type Item = T;
  type IntoIter = std::option::IntoIter<T>;
  fn into_iter(self) -> Self::IntoIter {
    self.into_option().into_iter()
  }
}
impl<'a, T> IntoIterator for &'a MessageField<T> {
  type Item = &'a T;
  type IntoIter = std::option::IntoIter<&'a T>;
  fn into_iter(self) -> Self::IntoIter {
    self.as_ref().into_iter()
  }
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Chars(bytes::Bytes);
impl Chars {
  pub const fn new() -> Self {
    Self(bytes::Bytes::new())
  }
  pub fn from_bytes(b: bytes::Bytes) -> std::result::Result<Self, std::str::Utf8Error> {
    std::str::from_utf8(&b)?;
    Ok(Self(b))
  }
  pub fn as_str(&self) -> &str {
    self
  }
  pub fn len(&self) -> usize {
    self.0.len()
  }
  pub fn is_empty(&self) -> bool {
    self.0.is_empty()
  }
  pub fn clear(&mut self) {
    self.0 = bytes::Bytes::new();
  }
}
impl Deref for Chars {
  type Target = str;
  fn deref(&self) -> &str {
    unsafe { std::str::from_utf8_unchecked(&self.0) }
  }
}
impl std::borrow::Borrow<str> for Chars {
  fn borrow(&self) -> &str {
    self
  }
}
impl AsRef<[u8]> for Chars {
  fn as_ref(&self) -> &[u8] {
    &self.0
  }
}
impl From<&str> for Chars {
  fn from(s: &str) -> Self {
    Self(bytes::Bytes::copy_from_slice(s.as_bytes()))
  }
}
impl From<String> for Chars {
  fn from(s: String) -> Self {
    Self(bytes::Bytes::from(s.into_bytes()))
  }
}
impl From<Chars> for String {
  fn from(s: Chars) -> String {
    s.to_string()
  }
}
impl fmt::Display for Chars {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    fmt::Display::fmt(&**self, f)
  }
}
impl fmt::Debug for Chars {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    fmt::Debug::fmt(&**self, f)
  }
}
