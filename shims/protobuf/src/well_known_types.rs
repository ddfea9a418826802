use crate::{CodedInputStream, CodedOutputStream, Message, MessageFull, Result, SpecialFields};

macro_rules! wkt {
  ($m:ident, $n:ident, { $($f:ident : $t:ty = $no:literal, $tag:literal, $read:ident, $write:ident, $size:ident, $some:expr, $init:expr;)* }) => {
    pub mod $m {
      use super::*;
      #[derive(Clone, Debug, Default, PartialEq)]
      pub struct $n { $(pub $f: $t,)* pub special_fields: SpecialFields }
      impl $n {
        pub fn new() -> Self { Self::default() }
      }
      impl Message for $n {
        const NAME: &'static str = stringify!($n);
        fn is_initialized(&self) -> bool { true }
        fn merge_from(&mut self, is: &mut CodedInputStream<'_>) -> Result<()> {
          while let Some(tag) = is.read_raw_tag_or_eof()? {
            match tag {
              $($tag => { self.$f = is.$read()?; },)*
              tag => crate::rt::read_unknown_or_skip_group(tag, is, self.special_fields.mut_unknown_fields())?,
            }
          }
          Ok(())
        }
        fn write_to_with_cached_sizes(&self, os: &mut CodedOutputStream<'_>) -> Result<()> {
          $({ let some: fn(&$t) -> bool = $some; if some(&self.$f) { os.$write($no, wkt!(@v $write self.$f))?; } })*
          os.write_unknown_fields(self.special_fields.unknown_fields())
        }
        fn compute_size(&self) -> u64 {
          let mut n = 0;
          $({ let some: fn(&$t) -> bool = $some; if some(&self.$f) { n += crate::rt::$size($no, wkt!(@v $write self.$f)); } })*
          n += crate::rt::unknown_fields_size(self.special_fields.unknown_fields());
          self.special_fields.cached_size().set(n as u32);
          n
        }
        fn special_fields(&self) -> &SpecialFields { &self.special_fields }
        fn mut_special_fields(&mut self) -> &mut SpecialFields { &mut self.special_fields }
        fn new() -> Self { Self::default() }
        fn default_instance() -> &'static Self {
          static I: $n = $n { $($f: $init,)* special_fields: SpecialFields::new() };
          &I
        }
      }
      impl MessageFull for $n {
        fn descriptor() -> crate::reflect::MessageDescriptor { crate::reflect::MessageDescriptor }
      }
      impl crate::reflect::ProtobufValue for $n {
        type RuntimeType = crate::reflect::rt::RuntimeTypeMessage<Self>;
      }
      impl<'a> Default for &'a $n {
        fn default() -> &'a $n { <$n as Message>::default_instance() }
      }
      pub fn file_descriptor() -> &'static crate::reflect::FileDescriptor { &crate::reflect::FileDescriptor }
    }
  };
  (@v write_bytes $e:expr) => { &$e };
  (@v write_string $e:expr) => { &$e };
  (@v $w:ident $e:expr) => { $e };
}

wkt!(timestamp, Timestamp, {
  seconds: i64 = 1, 8, read_int64, write_int64, int64_size, |v| *v != 0, 0;
  nanos: i32 = 2, 16, read_int32, write_int32, int32_size, |v| *v != 0, 0;
});
wkt!(duration, Duration, {
  seconds: i64 = 1, 8, read_int64, write_int64, int64_size, |v| *v != 0, 0;
  nanos: i32 = 2, 16, read_int32, write_int32, int32_size, |v| *v != 0, 0;
});
wkt!(any, Any, {
  type_url: String = 1, 10, read_string, write_string, string_size, |v| !v.is_empty(), String::new();
  value: Vec<u8> = 2, 18, read_bytes, write_bytes, bytes_size, |v| !v.is_empty(), Vec::new();
});
impl From<std::time::Duration> for duration::Duration {
    fn from(d: std::time::Duration) -> Self {
        Self { seconds: d.as_secs().try_into().unwrap(), nanos: d.subsec_nanos() as i32, ..Default::default() }
    }
}
impl TryFrom<duration::Duration> for std::time::Duration {
    type Error = std::num::TryFromIntError;
    fn try_from(d: duration::Duration) -> std::result::Result<Self, std::num::TryFromIntError> {
        Ok(Self::new(d.seconds.try_into()?, d.nanos.try_into()?))
    }
}
