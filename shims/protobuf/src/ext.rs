pub struct ExtFieldOptional<M, T>(std::marker::PhantomData<(M, T)>);
impl<M, T> ExtFieldOptional<M, T> {
  pub const fn new(_number: u32, _ty: crate::descriptor::field_descriptor_proto::Type) -> Self {
    Self(std::marker::PhantomData)
  }
}
