//! High-precision scalar helpers (binary128) used by the oracles only.
pub type Q = f128;
pub const fn q(x: f64) -> Q {
    x as f128
}
pub const PI: Q = 3.14159265358979323846264338327950288f128;
/// error-free view: |got - want| in units of eps(f64)*scale
pub fn err(got: f64, want: Q) -> f64 {
    (got as f128 - want).abs() as f64
}
