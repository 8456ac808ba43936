//! Scalar adaptor used by generic monitors (feature "core").
use crate::fw::Rng;
use aether_core::real::Real;
pub trait Num: Real + Copy + Default + Send + Sync + std::fmt::Display + std::fmt::Debug + std::ops::AddAssign + std::ops::SubAssign + PartialOrd + 'static {
    const U: f64; // unit roundoff (half ulp of 1)
    const NAME: &'static str;
    const TINY: f64; // smallest normal
    fn q(self) -> f128;
    fn of(x: f64) -> Self;
    fn f(self) -> f64;
    fn nan(self) -> bool;
    fn bits(self) -> u64;
}
impl Num for f64 {
    const U: f64 = 1.1102230246251565e-16;
    const NAME: &'static str = "f64";
    const TINY: f64 = 2.2250738585072014e-308;
    fn q(self) -> f128 { self as f128 }
    fn of(x: f64) -> f64 { x }
    fn f(self) -> f64 { self }
    fn nan(self) -> bool { self.is_nan() }
    fn bits(self) -> u64 { self.to_bits() }
}
impl Num for f32 {
    const U: f64 = 5.960464477539063e-8;
    const NAME: &'static str = "f32";
    const TINY: f64 = 1.1754943508222875e-38;
    fn q(self) -> f128 { self as f128 }
    fn of(x: f64) -> f32 { x as f32 }
    fn f(self) -> f64 { self as f64 }
    fn nan(self) -> bool { self.is_nan() }
    fn bits(self) -> u64 { self.to_bits() as u64 }
}
#[cfg(feature = "wide")]
impl Num for f16 {
    const U: f64 = 4.8828125e-4;
    const NAME: &'static str = "f16";
    const TINY: f64 = 6.103515625e-5;
    fn q(self) -> f128 { self as f128 }
    fn of(x: f64) -> f16 { x as f16 }
    fn f(self) -> f64 { self as f64 }
    fn nan(self) -> bool { self.is_nan() }
    fn bits(self) -> u64 { self.to_bits() as u64 }
}
/// A way of filling arrays: one draw decides the structure of a whole operand.
#[derive(Clone, Copy, Debug)]
pub enum Fill { Int, Norm, Wide, Sparse, Huge, Tiny, Cancel }
pub fn fill(r: &mut Rng) -> Fill {
    *r.pick(&[Fill::Int, Fill::Int, Fill::Norm, Fill::Norm, Fill::Wide, Fill::Sparse, Fill::Huge, Fill::Tiny, Fill::Cancel])
}
pub fn draw<T: Num>(r: &mut Rng, f: Fill) -> T {
    let big = if T::U > 1e-10 { 1e8 } else { 1e70 };
    T::of(match f {
        Fill::Int => r.int(-9, 9) as f64,
        Fill::Norm => r.normal(),
        Fill::Wide => r.sign() * r.logu(1e-6, 1e6),
        Fill::Sparse => if r.chance(0.6) { 0.0 } else { r.normal() },
        Fill::Huge => r.normal() * big,
        Fill::Tiny => r.normal() / big,
        Fill::Cancel => r.sign() * (1.0 + r.int(0, 3) as f64 * T::U * 2.0),
    })
}
