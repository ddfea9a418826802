//! Placeholders for descriptor.proto.
use crate::{CodedInputStream, CodedOutputStream, Message, Result, SpecialFields};

macro_rules! opaque {
  ($($n:ident),*) => { $(
    #[derive(Clone, Debug, Default, PartialEq)]
    pub struct $n { pub special_fields: SpecialFields }
    impl Message for $n {
      const NAME: &'static str = stringify!($n);
      fn is_initialized(&self) -> bool { true }
      fn merge_from(&mut self, _is: &mut CodedInputStream<'_>) -> Result<()> { Ok(()) }
      fn write_to_with_cached_sizes(&self, _os: &mut CodedOutputStream<'_>) -> Result<()> { Ok(()) }
      fn compute_size(&self) -> u64 { 0 }
      fn special_fields(&self) -> &SpecialFields { &self.special_fields }
      fn mut_special_fields(&mut self) -> &mut SpecialFields { &mut self.special_fields }
      fn new() -> Self { Self::default() }
      fn default_instance() -> &'static Self {
        static I: $n = $n { special_fields: SpecialFields::new() };
        &I
      }
    }
  )* };
}
opaque!(FileDescriptorProto, FieldOptions, MessageOptions, EnumOptions, EnumValueOptions, MethodOptions, FileOptions, OneofOptions, ServiceOptions);

pub fn file_descriptor() -> &'static crate::reflect::FileDescriptor {
  &crate::reflect::FileDescriptor
}

pub mod field_descriptor_proto {
  #[allow(non_camel_case_types)]
  #[derive(Clone, Copy, Debug, PartialEq, Eq)]
  pub enum Type {
    TYPE_DOUBLE,
    TYPE_FLOAT,
    TYPE_INT64,
    TYPE_UINT64,
    TYPE_INT32,
    TYPE_FIXED64,
    TYPE_FIXED32,
    TYPE_BOOL,
    TYPE_STRING,
    TYPE_GROUP,
    TYPE_MESSAGE,
    TYPE_BYTES,
    TYPE_UINT32,
    TYPE_ENUM,
    TYPE_SFIXED32,
    TYPE_SFIXED64,
    TYPE_SINT32,
    TYPE_SINT64,
  }
}
