//! Stand-in for sketches-rust, which is absent from the offline cache: a sketch that keeps every value.
#[derive(Debug)]
pub enum Error { InvalidArgument(&'static str) }
impl std::fmt::Display for Error {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("sketch") }
}
impl std::error::Error for Error {}
#[derive(Clone, Debug, Default)]
pub struct DDSketch { values: Vec<f64> }
impl DDSketch {
  pub fn logarithmic_collapsing_lowest_dense(_accuracy: f64, _bins: usize) -> Result<Self, Error> { Ok(Self::default()) }
  pub fn accept(&mut self, v: f64) { self.values.push(v); }
  pub fn merge_with(&mut self, o: &Self) -> Result<(), Error> { self.values.extend_from_slice(&o.values); Ok(()) }
  pub fn is_empty(&self) -> bool { self.values.is_empty() }
  pub fn clear(&mut self) { self.values.clear(); }
  pub fn get_count(&self) -> f64 { self.values.len() as f64 }
  pub fn get_sum(&self) -> Option<f64> { Some(self.values.iter().sum()) }
  pub fn values(&self) -> &[f64] { &self.values }
  pub fn encode(&self) -> Result<Vec<u8>, Error> {
    Ok(self.values.iter().flat_map(|v| v.to_bits().to_le_bytes()).collect())
  }
  pub fn decode_and_merge_with(&mut self, b: &[u8]) -> Result<(), Error> {
    if b.len() % 8 != 0 { return Err(Error::InvalidArgument("length")); }
    for c in b.chunks(8) { self.values.push(f64::from_bits(u64::from_le_bytes(c.try_into().unwrap()))); }
    Ok(())
  }
}
