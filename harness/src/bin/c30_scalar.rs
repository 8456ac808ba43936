//! C30: the scalar abstraction on either back end, against binary128 functions.
#![feature(f128)]
#![cfg_attr(feature = "wide", feature(f16))]
use aether_core::real::{real::RealCast, Real};
use aether_monitors::{fw::*, num::Num};

type Q = f128;
trait Prec: Num + RealCast { const MANT: i32; const EMIN: i32; const EMAX: i32; fn bits_in(b: u64) -> Self; fn next(self, k: i64) -> Self; const NEGZ: Self; const NANV: Self; const C: [f64; 7]; }
impl Prec for f64 { const MANT: i32 = 53; const EMIN: i32 = -1022; const EMAX: i32 = 1023; fn bits_in(b: u64) -> f64 { f64::from_bits(b) } fn next(self, k: i64) -> f64 { f64::from_bits(self.to_bits().wrapping_add(k as u64)) } const NEGZ: f64 = -0.0; const NANV: f64 = f64::NAN; const C: [f64; 7] = [0.0, 1.0, 3.141592653589793, 1.5707963267948966, 2.220446049250313e-16, f64::INFINITY, f64::NEG_INFINITY]; }
impl Prec for f32 { const MANT: i32 = 24; const EMIN: i32 = -126; const EMAX: i32 = 127; fn bits_in(b: u64) -> f32 { f32::from_bits(b as u32) } fn next(self, k: i64) -> f32 { f32::from_bits(self.to_bits().wrapping_add(k as u32)) } const NEGZ: f32 = -0.0; const NANV: f32 = f32::NAN; const C: [f64; 7] = [0.0, 1.0, 3.1415927410125732, 1.5707963705062866, 1.1920928955078125e-7, f64::INFINITY, f64::NEG_INFINITY]; }

#[cfg(feature = "wide")]
impl Prec for f16 { const MANT: i32 = 11; const EMIN: i32 = -14; const EMAX: i32 = 15; fn bits_in(b: u64) -> f16 { f16::from_bits(b as u16) } fn next(self, k: i64) -> f16 { f16::from_bits(self.to_bits().wrapping_add(k as u16)) } const NEGZ: f16 = -0.0; const NANV: f16 = f16::NAN; const C: [f64; 7] = [0.0, 1.0, 3.140625, 1.5703125, 0.0009765625, f64::INFINITY, f64::NEG_INFINITY]; }

fn two(e: i32) -> Q { let mut r: Q = 1.0; let b: Q = if e < 0 { 0.5 } else { 2.0 }; for _ in 0..e.abs() { r *= b } r }
/// distance of got from the exact value, in units in the last place of the type
fn ulps<T: Prec>(got: T, want: Q) -> f64 {
    if want.is_nan() { return if got.nan() { 0.0 } else { f64::INFINITY } }
    if got.nan() { return f64::INFINITY }
    let g = got.q();
    let top = two(T::EMAX) * (2.0 - two(1 - T::MANT));
    let mag = want.abs();
    let mut e = T::EMIN; // exponent of the result's binade
    if mag.is_finite() && mag >= two(T::EMIN) { let l = (mag.ln() / std::f64::consts::LN_2 as Q) as f64; e = (l.floor() as i32).clamp(T::EMIN, T::EMAX); if two(e) > mag { e -= 1 } else if e < T::EMAX && two(e + 1) <= mag { e += 1 } }
    let ulp = two(e - T::MANT + 1);
    if g.is_infinite() || want.is_infinite() {
        if g == want { return 0.0 }
        // overflow: the exact value is beyond, or within a couple of ulps of, the largest number
        if g.is_infinite() && want.is_finite() && (g > 0.0) == (want > 0.0) { let short = (top + ulp / 2.0 - mag) / ulp; return if short <= 0.0 { 0.0 } else { short as f64 + 0.5 } }
        if g.is_finite() && mag.is_infinite() { return f64::INFINITY }
        return f64::INFINITY;
    }
    ((g - want).abs() / ulp) as f64
}
fn sign<T: Prec>(x: T) -> bool { x.bits() >> (match T::MANT { 11 => 15, 24 => 31, _ => 63 }) & 1 == 1 }

fn point<T: Prec>(r: &mut Rng) -> T { let x: T = any(r); if x.nan() { T::NANV } else { x } }
fn any<T: Prec>(r: &mut Rng) -> T {
    match r.below(12) {
        0 | 1 => { let x = T::bits_in(r.u64()); x } // NaNs are made quiet by the caller
        2 => *r.pick(&[T::of(0.0), T::NEGZ, T::of(1.0), T::of(-1.0), T::of(f64::INFINITY), T::of(f64::NEG_INFINITY), T::NANV, T::of(0.5), T::of(-0.5), T::of(2.0), T::of(10.0)]),
        3 => { let k = r.int(-3, 3); T::of(*r.pick(&[1.0, -1.0, 0.5, -0.5, 2.0])).next(k) } // neighbours of special points
        4 => { let n = r.int(-2_000_000, 2_000_000) as f64; let k = r.int(-1, 1); T::of(n + *r.pick(&[0.0, 0.5, 0.25])).next(k) } // halves
        5 => { let n = r.int(-1000, 1000) as f64; let k = r.int(-2, 2); T::of(n * 1.5707963267948966).next(k) } // trigonometric zeros and poles
        6 => { let s = r.sign(); let e = r.range(T::EMIN as f64 - T::MANT as f64, T::EMAX as f64); T::of(s * e.exp2()) }
        7 => T::of(r.sign() * r.logu(1e-9, 1e9)),
        8 => T::of(r.range(-750.0, 750.0)),
        9 => T::of(r.int(-300, 300) as f64),
        10 => T::of(1.0 + r.sign() * r.logu(1e-16, 0.5)),
        _ => T::of(r.normal()),
    }
}
fn check<T: Prec>(c: &mut Case, name: &'static str, got: T, want: Q, tol: f64, what: impl Fn() -> String) {
    let u = ulps(got, want);
    c.close(name, u, 0.0, tol, || format!("{}: got {got:?} want {:e}", what(), want as f64));
    // zeros carry the sign of the exact result
    if got.q() == 0.0 && !want.is_nan() { c.ok(sign(got) == want.is_sign_negative(), "zero-sign", || format!("{name} {}: got {got:?} want {:e}", what(), want as f64)); }
    c.ev(if want.is_nan() { "NaN results" } else if want.is_infinite() { "infinite results" } else if want == 0.0 { "zero results" } else if want.abs() < two(T::EMIN) { "subnormal or underflowing results" } else if want.abs() >= two(T::EMAX + 1) { "overflowing results" } else { "ordinary results" });
}
fn exact<T: Prec>(c: &mut Case, name: &'static str, got: T, want: Q, x: T, y: T) {
    let ok = if want.is_nan() { got.nan() } else { got.q() == want && (want != 0.0 || sign(got) == want.is_sign_negative()) };
    c.ok(ok, name, || format!("{} {name}({x:?}, {y:?}) = {got:?}, want {:e}", T::NAME, want as f64));
}
fn all<T: Prec>(r: &mut Rng, c: &mut Case) {
    let (x, y): (T, T) = (point(r), point(r)); let (q, p) = (x.q(), y.q());
    c.mix(x.bits()); c.mix(y.bits()); c.ev(T::NAME);
    // fully qualified: the trait's own functions, not the inherent ones
    exact(c, "abs", Real::abs(x), q.abs(), x, y);
    exact(c, "signum", Real::signum(x), if q.is_nan() { q } else if q.is_sign_negative() { -1.0 } else { 1.0 }, x, y);
    exact(c, "floor", Real::floor(x), q.floor(), x, y); exact(c, "ceil", Real::ceil(x), q.ceil(), x, y);
    exact(c, "round", Real::round(x), q.round(), x, y); exact(c, "trunc", Real::trunc(x), q.trunc(), x, y);
    let f = q - q.trunc(); if f == 0.0 { c.ok(Real::fract(x).q() == 0.0, "fract", || format!("{x:?}")); } else { exact(c, "fract", Real::fract(x), f, x, y); }
    let (mn, mx) = (Real::min(x, y), Real::max(x, y));
    if q.is_nan() || p.is_nan() { let o = if q.is_nan() { p } else { q }; for (n, g) in [("min", mn), ("max", mx)] { c.ok(if o.is_nan() { g.nan() } else { g.q() == o }, n, || format!("{n}({x:?}, {y:?}) = {g:?}")); } c.ev("NaN in min or max") }
    else { c.ok(mn.q() == if q < p { q } else { p } && mx.q() == if q > p { q } else { p }, "min-max", || format!("{x:?} {y:?}: {mn:?} {mx:?}")); }
    let cs = Real::copysign(x, y); c.ok(if q.is_nan() { cs.nan() } else { cs.q().abs() == q.abs() } && sign(cs) == sign(y), "copysign", || format!("{x:?} {y:?}: {cs:?}"));
    let w = || format!("{} of {x:?} ({:#x})", T::NAME, x.bits());
    check(c, "sqrt", Real::sqrt(x), q.sqrt(), 0.5 + 1e-9, w);
    check(c, "sin", Real::sin(x), q.sin(), 2.0, w); check(c, "cos", Real::cos(x), q.cos(), 2.0, w); check(c, "tan", Real::tan(x), q.tan(), 2.0, w);
    check(c, "asin", Real::asin(x), q.asin(), 2.0, w); check(c, "acos", Real::acos(x), q.acos(), 2.0, w); check(c, "atan", Real::atan(x), q.atan(), 2.0, w);
    check(c, "exp", Real::exp(x), q.exp(), 2.0, w); check(c, "exp2", Real::exp2(x), q.exp2(), 2.0, w);
    check(c, "ln", Real::ln(x), q.ln(), 2.0, w); check(c, "log2", Real::log2(x), q.log2(), 2.0, w); check(c, "log10", Real::log10(x), q.log10(), 3.0, w);
    let w2 = || format!("{} of {x:?}, {y:?}", T::NAME);
    check(c, "atan2", Real::atan2(x, y), q.atan2(p), 2.0, w2);
    check(c, "powf", Real::powf(x, y), q.powf(p), 2.0, w2);
    let n = match r.below(6) { 0 => 0, 1 => *r.pick(&[i32::MAX, i32::MIN, i32::MAX - 1, -i32::MAX, 16777217, -16777217, 33554433]), 2 => r.int(-2000, 2000) as i32, _ => r.int(-12, 12) as i32 };
    let z = if n.unsigned_abs() > 3000 { if r.chance(0.5) { T::of(*r.pick(&[1.0, -1.0, 0.5, -2.0, -0.5])) } else { T::of(-1.0) } } else { x };
    // repeated multiplication is allowed: each step may lose an ulp; a negative power may go through an overflowing positive one
    let want = z.q().powf(n as Q); let loose = 2.0 + 2.0 * (n.unsigned_abs() as f64).min(4000.0);
    let recip = n < 0 && z.q().abs() != 1.0 && (want.abs() < 4.0 * two(T::EMIN) || want.abs() > two(T::EMAX - 1));
    if recip && want != 0.0 && want.is_finite() { c.ev("reciprocal powers at the range ends"); }
    else { check(c, "powi", Real::powi(z, n), want, if n.unsigned_abs() <= 1 { 1.0 } else { loose }, || format!("{} of {z:?} to {n}", T::NAME)); if n.unsigned_abs() > 3000 { c.ev("huge integer powers") } }
    let pi = aether_monitors::hp::PI;
    // (an intermediate product may overflow: x * 180 for degrees, x * pi for radians)
    let over = |got: T, by: Q| got.q().is_infinite() && q.is_finite() && (got.q() > 0.0) == (q > 0.0) && q.abs() * by >= two(T::EMAX);
    if !over(Real::to_degrees(x), 180.0) { check(c, "to_degrees", Real::to_degrees(x), if q.is_finite() { q / pi * 180.0 } else { q }, 3.0, w); }
    if !over(Real::to_radians(x), pi) { check(c, "to_radians", Real::to_radians(x), if q.is_finite() { q / 180.0 * pi } else { q }, 3.0, w); }
    // conversions
    let d = point::<f64>(r); let s = point::<f32>(r);
    let fd = T::from_f64(d); let fs = T::from_f32(s);
    check(c, "from_f64", fd, d as Q, 0.5, || format!("{d:?}")); check(c, "from_f32", fs, s as Q, 0.5, || format!("{s:?}"));
    check(c, "to_f64", RealCast::to_f64(x), q, 0.5, w); check(c, "to_f32", RealCast::to_f32(x), q, 0.5, w);
    let k = r.u64() as u32 >> r.below(32); let m = r.u64() >> r.below(64);
    check(c, "from_u32", T::from_u32(k), k as Q, 0.5, || format!("{k}")); check(c, "from_usize", T::from_usize(m as usize), m as Q, 0.5, || format!("{m}"));
    #[cfg(feature = "wide")]
    {
        let z = quad(r); let h = f16::from_bits(r.u64() as u16); let h = if h.is_nan() { f16::NAN } else { h };
        check(c, "from_f128", T::from_f128(z), z, 0.5, || format!("{:e}", z as f64)); check(c, "from_f16", T::from_f16(h), h as Q, 0.5, || format!("{h:?}"));
        check(c, "to_f16", RealCast::to_f16(x), q, 0.5, w); let g = RealCast::to_f128(x); c.ok(if q.is_nan() { g.is_nan() } else { g.to_bits() == q.to_bits() }, "to_f128", w);
        c.ev("conversions with the half and quadruple types");
    }
    if c.idx == 0 {
        let have = [T::ZERO, T::ONE, T::PI, T::FRAC_PI_2, T::EPSILON, T::INFINITY, T::NEG_INFINITY];
        for (h, w) in have.iter().zip(T::C) { c.ok(h.f() == w, "constants", || format!("{h:?} want {w:e}")); }
        c.ev("constants")
    }
}
#[cfg(feature = "wide")]
fn quad(r: &mut Rng) -> Q { match r.below(6) {
    0 => { let z = Q::from_bits((r.u64() as u128) << 64 | r.u64() as u128); if z.is_nan() { Q::NAN } else { z } }
    1 => { let x: f64 = point(r); x as Q + x as Q * r.sign() as Q * two(-(r.int(30, 113) as i32)) } // next to numbers and halves of the narrow types
    2 => { let x: f32 = point(r); x as Q + x as Q * r.sign() as Q * two(-(r.int(8, 113) as i32)) }
    3 => { let k = r.int(-3, 3); let x: Q = *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 1.5, Q::INFINITY, Q::NEG_INFINITY, Q::NAN]); if x.is_finite() && x != 0.0 { Q::from_bits(x.to_bits().wrapping_add(k as u128)) } else { x } }
    4 => (r.int(-2_000_000, 2_000_000) as f64 * 0.5) as Q,
    _ => r.normal() as Q + r.normal() as Q * 1e-20,
} }
/// the quadruple type: exact operations by their bits, the others by the type's own function and by the double function
#[cfg(feature = "wide")]
fn quads(r: &mut Rng, c: &mut Case) {
    let (x, y) = (quad(r), quad(r));
    c.mix(x.to_bits() as u64); c.mix((x.to_bits() >> 64) as u64); c.mix((y.to_bits() >> 64) as u64);
    let same = |a: Q, b: Q| if b.is_nan() { a.is_nan() } else { a.to_bits() == b.to_bits() };
    let sgn = |v: Q| (v.to_bits() >> 127) as u64;
    let w = |n: &str| format!("{n} of {:e} ({:#x}), {:e}", x as f64, x.to_bits(), y as f64);
    // rounding to integers, from the bits: the whole part keeps the bits above the binary point
    let e = ((x.to_bits() >> 112) & 0x7fff) as i32 - 16383;
    let whole = if e >= 112 || x.is_nan() { x } else if e < 0 { Q::from_bits((x.to_bits() >> 127) << 127) } else { Q::from_bits(x.to_bits() & !((1u128 << (112 - e)) - 1)) };
    let rest = x - whole; let part = rest != 0.0 && !x.is_nan() && x.is_finite();
    let step = |up: bool| if part && (if up { x > 0.0 } else { x < 0.0 }) { if up { whole + 1.0 } else { whole - 1.0 } } else { whole };
    let near = if part && rest.abs() >= 0.5 { if x > 0.0 { whole + 1.0 } else { whole - 1.0 } } else { whole };
    for (n, g, o) in [("trunc", Real::trunc(x), whole), ("floor", Real::floor(x), step(false)), ("ceil", Real::ceil(x), step(true)), ("round", Real::round(x), near)] { c.ok(if o.is_nan() { g.is_nan() } else { g == o && sgn(g) == sgn(x) }, "quad-rounding", || format!("{} = {:e} want {:e}", w(n), g as f64, o as f64)); }
    if x.is_finite() { c.ok(Real::fract(x) == rest, "quad-fract", || w("fract")); }
    c.ok(same(Real::abs(x), Q::from_bits(x.to_bits() << 1 >> 1)), "quad-abs", || w("abs"));
    c.ok(same(Real::signum(x), if x.is_nan() { x } else if sgn(x) == 1 { -1.0 } else { 1.0 }), "quad-signum", || w("signum"));
    let cs = Real::copysign(x, y); c.ok(cs.to_bits() << 1 == x.to_bits() << 1 && sgn(cs) == sgn(y), "quad-copysign", || w("copysign"));
    let (mn, mx) = (Real::min(x, y), Real::max(x, y));
    let (lo, hi) = if x.is_nan() { (y, y) } else if y.is_nan() { (x, x) } else if x < y { (x, y) } else { (y, x) };
    c.ok((mn == lo || lo.is_nan() && mn.is_nan()) && (mx == hi || hi.is_nan() && mx.is_nan()), "quad-min-max", || w("min, max"));
    let n = r.int(-40, 40) as i32;
    let d: f64 = loop { let d: f64 = point(r); if !(d.is_finite() && d.abs() < 1e-290) { break d } }; let d = if d.abs() > 700.0 && r.chance(0.7) { d % 700.0 } else { d };
    let f: f64 = r.range(-3.0, 3.0);
    type U = (&'static str, fn(Q) -> Q, fn(Q) -> Q, fn(f64) -> f64);
    let unary: &[U] = &[("sqrt", Real::sqrt, Q::sqrt, f64::sqrt), ("sin", Real::sin, Q::sin, f64::sin), ("cos", Real::cos, Q::cos, f64::cos), ("tan", Real::tan, Q::tan, f64::tan), ("asin", Real::asin, Q::asin, f64::asin), ("acos", Real::acos, Q::acos, f64::acos), ("atan", Real::atan, Q::atan, f64::atan), ("exp", Real::exp, Q::exp, f64::exp), ("exp2", Real::exp2, Q::exp2, f64::exp2), ("ln", Real::ln, Q::ln, f64::ln), ("log2", Real::log2, Q::log2, f64::log2), ("log10", Real::log10, Q::log10, f64::log10), ("to_degrees", Real::to_degrees, Q::to_degrees, f64::to_degrees), ("to_radians", Real::to_radians, Q::to_radians, f64::to_radians)];
    let close = |c: &mut Case, n: &str, g: Q, o: f64| { let g = g as f64; c.ok(g == o || g.is_nan() && o.is_nan() || (g - o).abs() <= 1e-15 * o.abs() + 1e-307 || !o.is_finite() && g.abs() > 1e308, "quad-against-double", || format!("{n} at {d:e} (other {f:e}, power {n}): {g:e}, the double function gives {o:e}")); };
    for (n, t, own, dbl) in unary { c.ok(same(t(x), own(x)), "quad-function", || w(n)); close(c, n, t(d as Q), dbl(d)); }
    c.ok(same(Real::atan2(x, y), x.atan2(y)), "quad-function", || w("atan2")); close(c, "atan2", Real::atan2(d as Q, f as Q), d.atan2(f));
    c.ok(same(Real::powf(x, y), x.powf(y)), "quad-function", || w("powf")); close(c, "powf", Real::powf(d as Q, f as Q), d.powf(f));
    let z = r.range(0.5, 2.0); let p = Real::powi(z as Q, n); c.ok(((p - (z as Q).powf(n as Q)) / p).abs() < 1e-31, "quad-powi", || format!("{z} to {n}: {:e}", p as f64));
    let s = Real::sqrt(x); if x > 0.0 && x.is_finite() && e.abs() < 16000 { c.ok(((s * s - x) / x).abs() <= 4.0 * Q::EPSILON, "quad-sqrt", || w("sqrt")); }
    let (a, b): (f64, f32) = (point(r), point(r)); let h = f16::from_bits(r.u64() as u16); let (k, m) = (r.u64() as u32, r.u64());
    c.ok(same(Q::from_f64(a), a as Q) && same(Q::from_f32(b), b as Q) && same(Q::from_f16(h), h as Q) && same(Q::from_f128(x), x) && same(Q::from_u32(k), k as Q) && same(Q::from_usize(m as usize), m as Q), "quad-from", || format!("{a:e} {b:e} {h:?} {k} {m}; {}", w("from")));
    check(c, "quad-to_f64", RealCast::to_f64(x), x, 0.5, || w("to_f64")); check(c, "quad-to_f32", RealCast::to_f32(x), x, 0.5, || w("to_f32")); check(c, "quad-to_f16", RealCast::to_f16(x), x, 0.5, || w("to_f16"));
    c.ok(same(RealCast::to_f128(x), x), "quad-to_f128", || w("to_f128"));
    if c.idx == 0 {
        let pi = aether_monitors::hp::PI;
        c.ok(Q::ZERO.to_bits() == 0 && Q::ONE == 1.0 && <Q as Real>::PI == pi && <Q as Real>::FRAC_PI_2 == pi / 2.0 && <Q as Real>::EPSILON == two(-112) && <Q as Real>::INFINITY == 1.0 / 0.0 && <Q as Real>::NEG_INFINITY == -1.0 / 0.0, "quad-constants", || String::new());
    }
    c.ev("quadruple arguments");
}
/// the free-standing conversions of numbers and arrays
fn angles(r: &mut Rng, c: &mut Case) {
    use aether_core::utils::{ToDegrees, ToRadians};
    fn one<T: Prec>(c: &mut Case, x: [T; 3], d: [T; 3], e: [T; 3], d0: T, e0: T) {
        let pi = aether_monitors::hp::PI;
        for i in 0..3 { let w = || format!("{} {:?} in an array", T::NAME, x[i]); check(c, "array-to-degrees", d[i], x[i].q() * 180.0 / pi, 3.0, w); check(c, "array-to-radians", e[i], x[i].q() * pi / 180.0, 3.0, w); }
        let w = || format!("{} {:?}", T::NAME, x[1]);
        check(c, "number-to-degrees", d0, x[1].q() * 180.0 / pi, 3.0, w); check(c, "number-to-radians", e0, x[1].q() * pi / 180.0, 3.0, w);
    }
    let v: [f64; 3] = std::array::from_fn(|_| match r.below(4) { 0 => r.int(-720, 720) as f64, 1 => r.int(-16, 16) as f64 * 0.39269908169872414, 2 => r.sign() * r.logu(1e-30, 1e30), _ => r.range(-7.0, 7.0) });
    for t in v { c.mixf(t) }
    one(c, v, ToDegrees::to_degrees(v), ToRadians::to_radians(v), ToDegrees::to_degrees(v[1]), ToRadians::to_radians(v[1]));
    let u = v.map(|t| t as f32);
    one(c, u, ToDegrees::to_degrees(u), ToRadians::to_radians(u), ToDegrees::to_degrees(u[1]), ToRadians::to_radians(u[1]));
    c.ev("free-standing angle conversions");
}
fn main() {
    let mut x = Ctx::from_args("C30");
    // the oracle itself, at a few points known to more digits than either type holds
    for (g, w) in [((1.0 as Q).sin(), 0.841470984807896506652502321630298999f128), ((2.0 as Q).ln(), 0.693147180559945309417232121458176568f128), ((1.0 as Q).exp(), 2.71828182845904523536028747135266249f128), ((1e22 as Q).sin(), -0.85220084976718880177270589375f128), ((2.0 as Q).powf(0.5), 1.41421356237309504880168872420969807f128)] { if !(((g - w) / w).abs() < 1e-20) { x.inconclusive(format!("the oracle itself is off: {:e}", g as f64)) } }
    let k = if cfg!(feature = "wide") { 3 } else { 1 };
    x.family("f64", 60000 / k, 2500000 / k, all::<f64>);
    x.family("f32", 60000 / k, 2500000 / k, all::<f32>);
    x.family("angles", 20000, 400000, angles); x.require("free-standing angle conversions", 10000);
    #[cfg(feature = "wide")]
    {
        x.family("f16", 40000, 400000, all::<f16>);
        x.family("f128", 40000, 400000, quads);
        x.require("quadruple arguments", 10000); x.require("conversions with the half and quadruple types", 50000);
    }
    for (e, n) in [("NaN results", 5000), ("infinite results", 2500), ("zero results", 2500), ("subnormal or underflowing results", 2500), ("overflowing results", 2500), ("ordinary results", 400000), ("NaN in min or max", 500), ("huge integer powers", 5000), ("constants", 2)] { x.require(e, n) }
    x.finish()
}
