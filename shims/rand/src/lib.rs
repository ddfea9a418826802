//! Stand-in for `rand`: every draw is a symbolic value (any 64-bit pattern), so that what holds with it holds
//! for every generator. Only what the encoded crates use.
pub trait RngCore {
  fn next_u64(&mut self) -> u64;
  fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
}
pub trait Standard: Sized { fn draw<R: RngCore + ?Sized>(r: &mut R) -> Self; }
macro_rules! std_int { ($($t:ty),*) => { $(impl Standard for $t { fn draw<R: RngCore + ?Sized>(r: &mut R) -> Self { r.next_u64() as $t } })* } }
std_int!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
impl Standard for bool { fn draw<R: RngCore + ?Sized>(r: &mut R) -> Self { r.next_u64() & 1 == 1 } }
impl Standard for f64 {
  // the ends and the middle of [0, 1): there are no symbolic floating-point conversions
  fn draw<R: RngCore + ?Sized>(_r: &mut R) -> Self {
    [0.0, 0.5, 1.0 - f64::EPSILON / 2.0][vh::choose("rng", 3) as usize]
  }
}
/// Ranges a value may be drawn from.
pub trait SampleRange<T> { fn pick<R: RngCore + ?Sized>(self, r: &mut R) -> T; }
macro_rules! range_int { ($($t:ty),*) => { $(
  impl SampleRange<$t> for std::ops::Range<$t> {
    fn pick<R: RngCore + ?Sized>(self, _r: &mut R) -> $t {
      assert!(self.start < self.end, "cannot sample empty range");
      vh::range("rng", self.start as u64, (self.end - 1) as u64) as $t
    }
  }
  impl SampleRange<$t> for std::ops::RangeInclusive<$t> {
    fn pick<R: RngCore + ?Sized>(self, _r: &mut R) -> $t {
      assert!(self.start() <= self.end(), "cannot sample empty range");
      vh::range("rng", *self.start() as u64, *self.end() as u64) as $t
    }
  }
)* } }
range_int!(u8, u16, u32, u64, usize);
pub trait Rng: RngCore {
  fn gen<T: Standard>(&mut self) -> T where Self: Sized { T::draw(self) }
  fn gen_range<T, R: SampleRange<T>>(&mut self, range: R) -> T where Self: Sized { range.pick(self) }
  fn gen_bool(&mut self, p: f64) -> bool where Self: Sized { f64::draw(self) < p }
  fn gen_ratio(&mut self, n: u32, d: u32) -> bool where Self: Sized { self.gen_range(0..d) < n }
}
impl<R: RngCore + ?Sized> Rng for R {}
pub mod rngs {
  #[derive(Clone, Debug, Default)]
  pub struct ThreadRng;
  impl super::RngCore for ThreadRng {
    fn next_u64(&mut self) -> u64 { vh::u64v("rng") }
  }
}
pub fn thread_rng() -> rngs::ThreadRng { rngs::ThreadRng }
pub fn random<T: Standard>() -> T { T::draw(&mut thread_rng()) }
