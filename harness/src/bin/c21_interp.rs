//! C21: interpolants against binary128 evaluations.
#![feature(f128)]
use aether_core::math::Vector;
use aether_interp::*;
use aether_monitors::fw::*;

type Q = f128;
const U: f64 = 1.1102230246251565e-16;
fn nodes<const N: usize>(r: &mut Rng) -> [f64; N] {
    let sc = *r.pick(&[1.0, 1.0, 1e-17, 1e-12, 1e-6, 1e4, 1e9, 3.7]);
    let off = *r.pick(&[0.0, 0.0, -3.0, 50.0]);
    let mode = r.below(4);
    let mut x = [0.0; N];
    let mut t = off;
    for i in 0..N { x[i] = match mode { 0 => off + i as f64, 1 => { t += r.range(0.3, 1.7); t } 2 => { t += r.logu(1e-3, 1.0); t } _ => { off - ((2 * i + 1) as f64 * std::f64::consts::PI / (2 * N) as f64).cos() } } * sc; }
    x
}
fn vals<const N: usize>(r: &mut Rng) -> [f64; N] { let s = *r.pick(&[1.0, 1e-9, 1e7]); let m = r.below(3); std::array::from_fn(|i| s * match m { 0 => r.normal(), 1 => i as f64 * 0.5 - 1.0, _ => r.int(-5, 5) as f64 }) }
fn at<const N: usize>(r: &mut Rng, x: &[f64; N]) -> f64 {
    let (lo, hi) = (x.iter().cloned().fold(f64::MAX, f64::min), x.iter().cloned().fold(f64::MIN, f64::max));
    let w = (hi - lo).max(lo.abs() * 1e-3 + 1e-30);
    match r.below(6) { 0 => lo - w * r.unit() * 0.5, 1 => hi + w * r.unit() * 0.5, 2 => { let v = x[r.below(N)]; let k = r.int(-3, 3); if v == 0.0 { k as f64 * 1e-30 } else { f64::from_bits((v.to_bits() as i64 + k) as u64) } } 3 => { let v = x[r.below(N)]; v + w * r.sign() * r.logu(1e-12, 1e-2) } _ => lo + (hi - lo) * r.unit() }
}
fn poly<const N: usize>(r: &mut Rng, c: &mut Case) {
    let mut x = nodes::<N>(r);
    r.shuffle(&mut x);
    let y = vals::<N>(r);
    for v in x.iter().chain(&y) { c.mixf(*v) }
    let what = || format!("nodes {x:?} values {y:?}");
    let distinct = (0..N).all(|i| (0..i).all(|j| x[i] != x[j]));
    let p = match guard(|| PolynomialInterpolator::new(Vector::new(x), Vector::new(y))) { Ok(p) => p, Err(e) => return c.fail("panic", format!("{e}; {}", what())) };
    if !c.ok(p.is_ok() == distinct, "polynomial-refusal", || format!("distinct nodes {distinct}: {:?}; {}", p.as_ref().err(), what())) { return }
    let Ok(p) = p else { return };
    c.ok(p.degree() == N - 1, "degree", || format!("{}", p.degree()));
    for i in 0..N { c.close("polynomial-node", p.evaluate(x[i]), y[i], 4.0 * U * y[i].abs(), || format!("at node {i}; {}", what())); }
    for _ in 0..6 {
        let t = at(r, &x);
        // Lagrange form in binary128 with the condition sums of the barycentric formula
        let (mut v, mut a, mut l) = (0.0 as Q, 0.0f64, 0.0f64);
        for i in 0..N { let mut w = 1.0 as Q; for k in 0..N { if k != i { w *= (t as Q - x[k] as Q) / (x[i] as Q - x[k] as Q) } } v += w * y[i] as Q; a += (w as f64 * y[i]).abs(); l += (w as f64).abs(); }
        let n = N as f64;
        if U * (3.0 * n + 4.0) * l > 1e-3 { c.ev("ill-conditioned extrapolations skipped"); continue }
        let tol = 3.0 * U * ((3.0 * n + 6.0) * a + (3.0 * n + 4.0) * l * (v as f64).abs());
        c.close("polynomial-value", p.evaluate(t), v as f64, tol + 1e-300, || format!("at {t:e}; {}", what()));
        c.ev("polynomial evaluations");
    }
    if x.iter().any(|v| v.abs() < 1e-14) { c.ev("tiny node spacing") }
}
fn spline<const N: usize>(r: &mut Rng, c: &mut Case) {
    let x = nodes::<N>(r);
    let y = if r.chance(0.2) { let (a, b) = (r.normal(), r.normal()); x.map(|v| a * v + b) } else { vals::<N>(r) };
    for v in x.iter().chain(&y) { c.mixf(*v) }
    let what = || format!("knots {x:?} values {y:?}");
    let s = match guard(|| CubicSpline::new(Vector::new(x), Vector::new(y))) { Ok(p) => p, Err(e) => return c.fail("panic", format!("{e}; {}", what())) };
    let inc = x.windows(2).all(|w| w[1] > w[0]);
    if !c.ok(s.is_ok() == inc, "spline-refusal", || format!("{:?}; {}", s.as_ref().err(), what())) { return }
    let Ok(s) = s else { return };
    c.ok(s.sample_count() == N, "sample-count", || format!("{}", s.sample_count()));
    // natural spline: second derivatives from the tridiagonal system, in binary128
    let q = |v: f64| v as Q;
    let h: Vec<Q> = x.windows(2).map(|w| q(w[1]) - q(w[0])).collect();
    let mut m = vec![0.0 as Q; N];
    if N > 2 {
        let k = N - 2;
        let (mut d, mut b): (Vec<Q>, Vec<Q>) = ((0..k).map(|i| 2.0 * (h[i] + h[i + 1])).collect(), (0..k).map(|i| 6.0 * ((q(y[i + 2]) - q(y[i + 1])) / h[i + 1] - (q(y[i + 1]) - q(y[i])) / h[i])).collect());
        for i in 1..k { let f = h[i] / d[i - 1]; d[i] -= f * h[i]; let p = b[i - 1]; b[i] -= f * p; }
        for i in (0..k).rev() { m[i + 1] = (b[i] - if i + 1 < k { h[i + 1] * m[i + 2] } else { 0.0 }) / d[i]; }
    }
    // rounding of the knots' second derivatives: relative to the largest slope change felt at each knot (the system is diagonally dominant: influence halves per knot)
    let rhs: Vec<f64> = (0..N).map(|i| if i == 0 || i == N - 1 { 0.0 } else { let g = |a: usize| ((y[a + 1].abs() + y[a].abs()) / h[a] as f64).abs(); 6.0 * (g(i) + g(i - 1)) / (h[i] + h[i - 1]) as f64 }).collect();
    let em: Vec<f64> = (0..N).map(|i| (0..N).map(|j| rhs[j] * (h_span(&x, j)) / h_span(&x, i) * 0.5f64.powi((i as i32 - j as i32).abs())).sum::<f64>() * 120.0 * U).collect();
    for i in 0..N { c.close("spline-knot", s.evaluate(x[i]), y[i], 8.0 * U * y[i].abs(), || format!("at knot {i}; {}", what())); }
    for _ in 0..6 {
        let t = at(r, &x);
        let i = if t <= x[0] { 0 } else if t >= x[N - 1] { N - 2 } else { (0..N - 1).rev().find(|k| x[*k] <= t).unwrap() };
        let (a, b) = ((q(x[i + 1]) - q(t)) / h[i], (q(t) - q(x[i])) / h[i]);
        let (ca, cb) = ((a * a * a - a) * h[i] * h[i] / 6.0, (b * b * b - b) * h[i] * h[i] / 6.0);
        let v = a * q(y[i]) + b * q(y[i + 1]) + ca * m[i] + cb * m[i + 1];
        let (fa, fb, hh) = ((a as f64).abs(), (b as f64).abs(), (h[i] * h[i]) as f64 / 6.0);
        let tol = 24.0 * U * (fa * y[i].abs() + fb * y[i + 1].abs() + ((fa.powi(3) + fa) * (m[i] as f64).abs() + (fb.powi(3) + fb) * (m[i + 1] as f64).abs()) * hh) + (ca as f64).abs() * em[i] + (cb as f64).abs() * em[i + 1] + 1e-300;
        c.close("spline-value", s.evaluate(t), v as f64, tol, || format!("at {t:e}; {}", what()));
        c.ev(if t < x[0] || t > x[N - 1] { "spline extrapolations" } else { "spline evaluations" });
    }
}
fn h_span<const N: usize>(x: &[f64; N], i: usize) -> f64 { x[(i + 1).min(N - 1)] - x[i.saturating_sub(1)] }
fn bad<const N: usize>(r: &mut Rng, c: &mut Case) {
    let mut x = nodes::<N>(r);
    let y = vals::<N>(r);
    let i = r.below(N);
    let k = r.below(4);
    let dup = |x: &mut [f64; N], r: &mut Rng| { let j = (i + 1 + r.below(N - 1)) % N; x[i] = x[j]; };
    match k { 0 => dup(&mut x, r), 1 => x[i] = f64::NAN, 2 => { let j = (i + 1) % N; x.swap(i, j) } _ => { let j = i.min(N - 2); x[j + 1] = x[j] } }
    for v in &x { c.mixf(*v) }
    let (p, s) = match guard(|| (PolynomialInterpolator::new(Vector::new(x), Vector::new(y)).is_err(), CubicSpline::new(Vector::new(x), Vector::new(y)).is_err())) { Ok(v) => v, Err(e) => return c.fail("panic", format!("{e}; nodes {x:?}")) };
    c.ok(s, "spline-accepted-malformed", || format!("knots {x:?}"));
    c.ok(p == (k != 2), "polynomial-accepted-malformed", || format!("refused {p}: nodes {x:?}"));
    c.ev(if k == 1 { "NaN nodes refused" } else { "malformed nodes refused" });
}
fn main() {
    let mut ctx = Ctx::from_args("C21");
    ctx.family("linear", 100_000, 2_000_000, |r, c| {
        let sc = *r.pick(&[1.0, 1e-20, 1e8]);
        let (a, b) = (r.normal() * sc, r.normal() * sc);
        let t = match r.below(5) { 0 => 0.0, 1 => 1.0, 2 => r.range(-5.0, 5.0), 3 => r.sign() * r.logu(1.0, 1e9), _ => r.unit() };
        c.mixf(a); c.mixf(t);
        let tol = |a: f64, b: f64, t: f64| 14.0 * U * (a.abs() + b.abs()) * (1.0 + t.abs());
        let want = (a as Q + (b as Q - a as Q) * t as Q) as f64;
        c.close("lerp", lerp(a, b, t), want, tol(a, b, t), || format!("lerp({a:e}, {b:e}, {t})"));
        c.ok(t != 0.0 || lerp(a, b, t) == a, "lerp-start", || format!("lerp({a:e}, {b:e}, 0)"));
        let (va, vb): ([f64; 3], [f64; 3]) = (std::array::from_fn(|_| r.normal() * sc), std::array::from_fn(|_| r.normal() * sc));
        let v = lerp(Vector::new(va), Vector::new(vb), t);
        for i in 0..3 { c.close("lerp-vector", v[i], (va[i] as Q + (vb[i] as Q - va[i] as Q) * t as Q) as f64, tol(va[i], vb[i], t), || format!("lerp({va:?}, {vb:?}, {t})")); }
        // inverse and remap, descending ranges and tiny ranges included
        let v = a + (b - a) * t;
        if a != b {
            let w = (v as Q - a as Q) / (b as Q - a as Q);
            c.close("inverse-lerp", inverse_lerp(a, b, v), w as f64, 10.0 * U * (w as f64).abs(), || format!("inverse_lerp({a:e}, {b:e}, {v:e})"));
            if (b - a).abs() < 1e-16 { c.ev("ranges below epsilon") }
            let (p, q) = (r.normal(), r.normal());
            let m = (p as Q + (q as Q - p as Q) * w) as f64;
            c.close("remap", remap(v, a, b, p, q), m, tol(p, q, w as f64), || format!("remap({v:e}, {a:e}, {b:e}, {p}, {q})"));
        }
        c.ok(inverse_lerp(a, a, v) == 0.0 && remap(v, a, a, 3.0, 7.0) == 3.0, "degenerate-range", || format!("inverse_lerp({a:e}, {a:e}, {v:e}) = {}", inverse_lerp(a, a, v)));
    });
    ctx.require("ranges below epsilon", 1000);
    ctx.family("polynomial", 60_000, 1_000_000, |r, c| match r.below(6) { 0 => poly::<1>(r, c), 1 => poly::<2>(r, c), 2 => poly::<3>(r, c), 3 => poly::<5>(r, c), 4 => poly::<8>(r, c), _ => poly::<11>(r, c) });
    ctx.family("spline", 60_000, 1_000_000, |r, c| match r.below(5) { 0 => spline::<2>(r, c), 1 => spline::<3>(r, c), 2 => spline::<4>(r, c), 3 => spline::<7>(r, c), _ => spline::<12>(r, c) });
    ctx.family("malformed", 40_000, 400_000, |r, c| match r.below(3) { 0 => bad::<2>(r, c), 1 => bad::<4>(r, c), _ => bad::<7>(r, c) });
    ctx.serial("too-few", 1, 1, |_, c| {
        c.ok(PolynomialInterpolator::<0>::new(Vector::new([]), Vector::new([])).is_err(), "empty-polynomial", || "accepted no samples".into());
        c.ok(CubicSpline::<1>::new(Vector::new([0.0]), Vector::new([1.0])).is_err(), "one-knot-spline", || "accepted one sample".into());
        c.ok(guard(|| CubicSpline::<0>::new(Vector::new([]), Vector::new([])).is_err()) == Ok(true), "empty-spline", || "accepted no sample".into());
    });
    for e in ["tiny node spacing", "spline extrapolations", "spline evaluations", "NaN nodes refused", "malformed nodes refused"] { ctx.require(e, 1000) }
    ctx.finish();
}
