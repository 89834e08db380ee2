//! Stand-in for `rand` in executor runs: every draw is an arbitrary value of its
//! range; the draws are recorded.
pub const DCAP: usize = 64;
pub static mut DRAWS: [(u64, u64); DCAP] = [(0, 0); DCAP];  // (value, size of the range; 0 = 2^64)
pub static mut NDRAWS: usize = 0;
/// runs with more draws than this are not looked at
pub static mut LIMIT: usize = usize::MAX;
fn draw(lo: u64, size: u64) -> u64 {
    let x = if size == 0 { ndlib::u64() } else { ndlib::below(size as usize) as u64 };
    unsafe {
        ndlib::assume(NDRAWS < LIMIT);
        if NDRAWS < DCAP { DRAWS[NDRAWS] = (x, size); }
        NDRAWS += 1;
    }
    lo.wrapping_add(x)
}
pub trait RngCore {
    fn next_u32(&mut self) -> u32 { draw(0, 1 << 32) as u32 }
    fn next_u64(&mut self) -> u64 { draw(0, 0) }
    fn fill_bytes(&mut self, b: &mut [u8]) { for x in b.iter_mut() { *x = draw(0, 256) as u8 } }
}
pub mod distributions { pub struct Standard; }
pub trait Gen { fn make() -> Self; }
macro_rules! gens { ($($t:ty => $s:expr),*) => { $(impl Gen for $t { fn make() -> Self { draw(0, $s) as $t } })* } }
gens!(u8 => 256, u16 => 65536, u32 => 1 << 32, u64 => 0, usize => 0, i32 => 1 << 32, i64 => 0);
impl Gen for bool { fn make() -> Self { draw(0, 2) == 1 } }
pub trait Uni: Copy + PartialOrd { fn w(self) -> u64; fn u(x: u64) -> Self; }
macro_rules! unis { ($($t:ty),*) => { $(impl Uni for $t { fn w(self) -> u64 { self as u64 } fn u(x: u64) -> Self { x as $t } })* } }
unis!(u8, u16, u32, u64, usize, i32, i64);
pub trait SampleRange<T> { fn one(self) -> T; }
impl<T: Uni> SampleRange<T> for std::ops::Range<T> {
    fn one(self) -> T {
        assert!(self.start < self.end, "cannot sample empty range");
        T::u(draw(self.start.w(), self.end.w().wrapping_sub(self.start.w())))
    }
}
impl<T: Uni> SampleRange<T> for std::ops::RangeInclusive<T> {
    fn one(self) -> T {
        let (a, b) = (*self.start(), *self.end());
        assert!(a <= b, "cannot sample empty range");
        T::u(draw(a.w(), b.w().wrapping_sub(a.w()).wrapping_add(1)))
    }
}
pub trait Rng: RngCore {
    fn gen<T: Gen>(&mut self) -> T { T::make() }
    fn gen_range<T, R: SampleRange<T>>(&mut self, r: R) -> T { r.one() }
    fn gen_bool(&mut self, p: f64) -> bool { if p == 0.5 { draw(0, 2) == 1 } else { ndlib::bool() } }
}
impl<R: RngCore + ?Sized> Rng for R {}
pub mod rngs { #[derive(Clone, Copy)] pub struct ThreadRng; impl crate::RngCore for ThreadRng {} }
pub fn thread_rng() -> rngs::ThreadRng { rngs::ThreadRng }
pub fn random<T: Gen>() -> T { T::make() }
pub mod prelude { pub use crate::{thread_rng, random, Rng, RngCore}; }
