//! Placeholders: reflection is not available in this stand-in.
use crate::MessageDyn;

macro_rules! stub {
  ($($n:ident),*) => { $(#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)] pub struct $n; )* };
}
stub!(MessageDescriptor, EnumDescriptor, EnumValueDescriptor, OneofDescriptor, FileDescriptor, FieldDescriptor,
      GeneratedMessageDescriptorData, GeneratedEnumDescriptorData, GeneratedOneofDescriptorData, GeneratedFileDescriptor, FieldAccessor);

impl GeneratedMessageDescriptorData {
  pub fn new_2<M: crate::MessageFull>(_n: &'static str, _f: Vec<FieldAccessor>, _o: Vec<GeneratedOneofDescriptorData>) -> Self {
    Self
  }
}
impl GeneratedEnumDescriptorData {
  pub fn new<E: crate::EnumFull>(_n: &'static str) -> Self {
    Self
  }
}
impl GeneratedOneofDescriptorData {
  pub fn new<O: crate::OneofFull>(_n: &'static str) -> Self {
    Self
  }
}
impl GeneratedFileDescriptor {
  pub fn new_generated(
    _p: &'static crate::descriptor::FileDescriptorProto,
    _d: Vec<FileDescriptor>,
    _m: Vec<GeneratedMessageDescriptorData>,
    _e: Vec<GeneratedEnumDescriptorData>,
  ) -> Self {
    Self
  }
}
impl FileDescriptor {
  pub fn new_generated_2(_g: &'static GeneratedFileDescriptor) -> Self {
    Self
  }
  pub fn message_by_package_relative_name(&self, _n: &str) -> Option<MessageDescriptor> {
    Some(MessageDescriptor)
  }
  pub fn enum_by_package_relative_name(&self, _n: &str) -> Option<EnumDescriptor> {
    Some(EnumDescriptor)
  }
}
impl MessageDescriptor {
  pub fn oneof_by_name(&self, _n: &str) -> Option<OneofDescriptor> {
    Some(OneofDescriptor)
  }
  pub fn name(&self) -> &str {
    unimplemented!("reflection")
  }
  pub fn full_name(&self) -> &str {
    unimplemented!("reflection")
  }
}
impl EnumDescriptor {
  pub fn value_by_index(&self, _i: usize) -> EnumValueDescriptor {
    EnumValueDescriptor
  }
  pub fn value_by_number(&self, _i: i32) -> Option<EnumValueDescriptor> {
    unimplemented!("reflection")
  }
}

pub trait ProtobufValue: Clone + Default + Send + Sync + 'static {
  type RuntimeType;
}

pub mod rt {
  pub struct RuntimeTypeMessage<M>(std::marker::PhantomData<M>);
  pub struct RuntimeTypeEnumOrUnknown<E>(std::marker::PhantomData<E>);
  pub mod v2 {
    use crate::reflect::FieldAccessor;
    use crate::{Enum, EnumOrUnknown, MessageField};
    use std::ops::Deref;
    pub fn make_option_accessor<M, V>(_: &'static str, _: for<'a> fn(&'a M) -> &'a Option<V>, _: for<'a> fn(&'a mut M) -> &'a mut Option<V>) -> FieldAccessor {
      FieldAccessor
    }
    pub fn make_simpler_field_accessor<M, V>(_: &'static str, _: for<'a> fn(&'a M) -> &'a V, _: for<'a> fn(&'a mut M) -> &'a mut V) -> FieldAccessor {
      FieldAccessor
    }
    pub fn make_vec_simpler_accessor<M, V>(_: &'static str, _: for<'a> fn(&'a M) -> &'a Vec<V>, _: for<'a> fn(&'a mut M) -> &'a mut Vec<V>) -> FieldAccessor {
      FieldAccessor
    }
    pub fn make_map_simpler_accessor_new<M, V>(_: &'static str, _: for<'a> fn(&'a M) -> &'a V, _: for<'a> fn(&'a mut M) -> &'a mut V) -> FieldAccessor {
      FieldAccessor
    }
    pub fn make_message_field_accessor<M, V>(_: &'static str, _: for<'a> fn(&'a M) -> &'a MessageField<V>, _: for<'a> fn(&'a mut M) -> &'a mut MessageField<V>) -> FieldAccessor {
      FieldAccessor
    }
    pub fn make_oneof_message_has_get_mut_set_accessor<M, F>(
      _: &'static str,
      _: fn(&M) -> bool,
      _: for<'a> fn(&'a M) -> &'a F,
      _: for<'a> fn(&'a mut M) -> &'a mut F,
      _: fn(&mut M, F),
    ) -> FieldAccessor {
      FieldAccessor
    }
    pub fn make_oneof_deref_has_get_set_simpler_accessor<M, F: Deref>(
      _: &'static str,
      _: fn(&M) -> bool,
      _: for<'a> fn(&'a M) -> &'a F::Target,
      _: fn(&mut M, F),
    ) -> FieldAccessor {
      FieldAccessor
    }
    pub fn make_oneof_copy_has_get_set_simpler_accessors<M, V>(_: &'static str, _: fn(&M) -> bool, _: fn(&M) -> V, _: fn(&mut M, V)) -> FieldAccessor {
      FieldAccessor
    }
    pub fn make_oneof_enum_accessors<M, E: Enum>(
      _: &'static str,
      _: fn(&M) -> Option<EnumOrUnknown<E>>,
      _: fn(&mut M, EnumOrUnknown<E>),
      _: E,
    ) -> FieldAccessor {
      FieldAccessor
    }
  }
}
