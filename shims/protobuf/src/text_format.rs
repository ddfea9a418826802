pub fn fmt<M: crate::Message>(_m: &M, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
  f.write_str(M::NAME)
}
