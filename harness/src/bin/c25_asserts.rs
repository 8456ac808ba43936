//! C25: the assertion helpers against their own definition, with planted differences.
#![feature(f128)]
use aether_core::math::{Matrix, Vector};
use aether_monitors::fw::*;
use aether_test::assert::{function::*, matrix::*, vector::*};
use std::cell::RefCell;

type Q = f128;
const U: f64 = 1.1102230246251565e-16;
const BAD: [f64; 3] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
/// Some(true/false): must pass / must fail; None: within rounding of the tolerance
fn within(x: f64, y: f64, tol: f64) -> Option<bool> {
    if x == y { return if x.is_finite() { Some(true) } else { None } } // equal infinities: left open
    if !x.is_finite() || !y.is_finite() { return Some(false) }
    let d = (x as Q - y as Q).abs();
    let e = 2.0 * U as Q * d + 1e-320;
    if d + e <= tol as Q { Some(true) } else if d - e > tol as Q { Some(false) } else if d == tol as Q && (x - y).abs() == tol { Some(true) } else { None }
}
/// second operand: equal, or different in a few places by just under, just over or far more than the tolerance
fn perturb(r: &mut Rng, a: &[f64], tol: f64) -> Vec<f64> {
    let mut b = a.to_vec();
    if r.chance(0.25) { return b }
    if r.chance(0.5) { for v in &mut b { *v += tol * r.range(-0.9, 0.9) } }
    if a.is_empty() { return b }
    for _ in 0..*r.pick(&[0, 1, 1, 1, 2]) {
        let i = match r.below(4) { 0 => 0, 1 => a.len() - 1, _ => r.below(a.len()) };
        b[i] = a[i] + r.sign() * tol * *r.pick(&[1.0, 1.0 - 1e-9, 1.0 + 1e-9, 1.5, 1e6]);
        if r.chance(0.15) { b[i] = *r.pick(&BAD) }
    }
    b
}
fn verdict(a: &[f64], b: &[f64], tol: f64) -> Option<bool> {
    let v: Vec<_> = a.iter().zip(b).map(|(x, y)| within(*x, *y, tol)).collect();
    if v.contains(&Some(false)) { Some(false) } else if v.contains(&None) { None } else { Some(true) }
}
fn maxdiff(a: &[f64], b: &[f64]) -> Option<f64> {
    let mut m = 0.0f64;
    if a.iter().zip(b).any(|(x, y)| x == y && x.is_infinite()) { return None }
    for (x, y) in a.iter().zip(b) { let d = (x - y).abs(); if d.is_nan() { return Some(f64::NAN) } if d > m { m = d } }
    Some(m)
}
fn elems(r: &mut Rng, n: usize) -> Vec<f64> {
    let s = *r.pick(&[1.0, 1e-8, 1e8]);
    let mut a: Vec<f64> = (0..n).map(|_| match r.below(5) { 0 => 0.0, 1 => r.int(-3, 3) as f64, _ => s * r.normal() }).collect();
    if n > 0 && r.chance(0.08) { let i = r.below(n); a[i] = *r.pick(&BAD) }
    a
}
fn mark(c: &mut Case, w: Option<bool>, a: &[f64], b: &[f64]) {
    let diff = a.iter().zip(b).filter(|(x, y)| !(x == y)).count();
    if b.iter().chain(a).any(|v| !v.is_finite()) { c.ev("non-finite elements") }
    c.ev(match (w, diff) { (None, _) => "too close to the tolerance", (_, 0) => "equal operands", (Some(true), _) => "within tolerance", (_, 1) => "one element off", _ => "several elements off" });
}
fn vec<const N: usize>(r: &mut Rng, c: &mut Case) {
    let tol = if r.chance(0.1) { 0.0 } else { r.logu(1e-14, 1e2) };
    let a = elems(r, N); let b = perturb(r, &a, tol);
    for v in a.iter().chain(&b) { c.mixf(*v) }
    let (va, vb): (Vector<f64, N>, Vector<f64, N>) = (Vector::new(std::array::from_fn(|i| a[i])), Vector::new(std::array::from_fn(|i| b[i])));
    let what = || format!("{a:?} and {b:?}, tolerance {tol:e}");
    let w = verdict(&a, &b, tol);
    let (x, y) = (vector_approx_eq(&va, &vb, tol), guard(|| assert_vector_approx_eq(&va, &vb, tol)));
    if let Some(w) = w {
        c.ok(x.is_ok() == w, "vector-verdict", || format!("{x:?}; {}", what()));
        c.ok(y.is_ok() == w, "vector-assert", || format!("{y:?}; {}", what()));
        c.ok(vector_approx_eq(&vb, &va, tol).is_ok() == w, "vector-symmetry", what);
    }
    if let Err(VectorAssertError::ValueMismatch { index, .. }) = x { c.ok(index < N && within(a[index], b[index], tol) != Some(true), "vector-culprit", || format!("index {index}; {}", what())); }
    let m = vector_max_abs_diff(&va, &vb); let t = maxdiff(&a, &b);
    if let Some(t) = t { c.ok(m == t || m.is_nan() && t.is_nan(), if t.is_nan() { "maximum-with-nan" } else { "vector-maximum" }, || format!("{m:e} instead of {t:e}; {}", what())); }
    c.ok(guard(|| assert_vector_finite(&vb)).is_ok() == b.iter().all(|v| v.is_finite()), "vector-finite", || format!("{b:?}"));
    mark(c, w, &a, &b);
}
fn mat<const M: usize, const N: usize>(r: &mut Rng, c: &mut Case) {
    let tol = if r.chance(0.1) { 0.0 } else { r.logu(1e-14, 1e2) };
    let a = elems(r, M * N); let b = perturb(r, &a, tol);
    for v in a.iter().chain(&b) { c.mixf(*v) }
    let mk = |v: &[f64]| Matrix::<f64, M, N>::new(std::array::from_fn(|i| std::array::from_fn(|j| v[i * N + j])));
    let (ma, mb) = (mk(&a), mk(&b));
    let what = || format!("{M}x{N} {a:?} and {b:?}, tolerance {tol:e}");
    let w = verdict(&a, &b, tol);
    let (x, y) = (matrix_approx_eq(&ma, &mb, tol), guard(|| assert_matrix_approx_eq(&ma, &mb, tol)));
    if let Some(w) = w {
        c.ok(x.is_ok() == w, "matrix-verdict", || format!("{x:?}; {}", what()));
        c.ok(y.is_ok() == w, "matrix-assert", || format!("{y:?}; {}", what()));
        c.ok(matrix_approx_eq(&mb, &ma, tol).is_ok() == w, "matrix-symmetry", what);
    }
    if let Err(MatrixAssertError::ValueMismatch { row, col, .. }) = x { c.ok(row < M && col < N && within(a[row * N + col], b[row * N + col], tol) != Some(true), "matrix-culprit", || format!("({row}, {col}); {}", what())); }
    let m = matrix_max_abs_diff(&ma, &mb); let t = maxdiff(&a, &b);
    if let Some(t) = t { c.ok(m == t || m.is_nan() && t.is_nan(), if t.is_nan() { "maximum-with-nan" } else { "matrix-maximum" }, || format!("{m:e} instead of {t:e}; {}", what())); }
    c.ok(guard(|| assert_matrix_finite(&mb)).is_ok() == b.iter().all(|v| v.is_finite()), "matrix-finite", || format!("{b:?}"));
    let fr = |f: &dyn Fn(usize) -> Q| (0..M * N).map(|i| f(i) * f(i)).sum::<Q>().sqrt() as f64;
    let (n1, w1) = (matrix_frobenius_norm(&ma), fr(&|i| a[i] as Q));
    let (n2, w2) = (matrix_diff_frobenius(&ma, &mb), fr(&|i| a[i] as Q - b[i] as Q));
    for (nm, g, w) in [("frobenius", n1, w1), ("frobenius-difference", n2, w2)] { if w.is_finite() { c.close(nm, g, w, ((M * N) as f64 + 6.0) * U * w, what); } else { c.ok(!g.is_finite(), nm, || format!("{g:e}; {}", what())); } }
    mark(c, w, &a, &b);
}
fn sym<const N: usize>(r: &mut Rng, c: &mut Case) {
    let tol = if r.chance(0.1) { 0.0 } else { r.logu(1e-14, 1e2) };
    let lo: Vec<f64> = (0..N * N).map(|_| r.normal()).collect();
    let hi = perturb(r, &lo, tol);
    let g = |i: usize, j: usize| if i <= j { lo[i * N + j] } else { hi[j * N + i] };
    for v in lo.iter().chain(&hi) { c.mixf(*v) }
    let m = Matrix::<f64, N, N>::new(std::array::from_fn(|i| std::array::from_fn(|j| g(i, j))));
    let v: Vec<_> = (0..N).flat_map(|i| (i + 1..N).map(move |j| (i, j))).map(|(i, j)| within(g(i, j), g(j, i), tol)).collect();
    let w = if v.contains(&Some(false)) { Some(false) } else if v.contains(&None) { None } else { Some(true) };
    let got = guard(|| assert_matrix_symmetric(&m, tol));
    if let Some(w) = w { c.ok(got.is_ok() == w, "symmetric-verdict", || format!("{got:?}: {m:?}, tolerance {tol:e}")); c.ev(if w { "symmetric" } else { "asymmetric" }) }
}
fn grid(r: &mut Rng, c: &mut Case) {
    let n = if r.chance(0.02) { 0 } else { r.int(1, 60) as usize };
    let a = r.normal() * 10.0; let b = if r.chance(0.05) { a } else { a + r.sign() * r.logu(1e-3, 1e3) };
    let tol = if r.chance(0.1) { 0.0 } else { r.logu(1e-10, 10.0) };
    // errors per grid point: below the tolerance, except possibly one
    let mut err: Vec<f64> = (0..=n).map(|_| if r.chance(0.4) { 0.0 } else { tol * r.range(-0.999, 0.999) }).collect();
    let k = match r.below(4) { 0 => 0, 1 => n, _ => r.below(n + 1) };
    match r.below(6) { 0 => err[k] = f64::NAN, 1 => err[k] = f64::INFINITY, 2 => err[k] = r.sign() * tol * 1.01 + 1e-12, 3 => err[k] = -1e3 * tol - 1e-3, _ => {} }
    if r.chance(0.02) { err.iter_mut().for_each(|e| *e = f64::NAN) }
    for v in &err { c.mixf(*v) } c.mixf(a); c.mixf(b);
    let idx = |x: f64| if b == a { 0 } else { (((x - a) / (b - a)) * n as f64).round().clamp(0.0, n as f64) as usize };
    if b == a { let e0 = err[0]; err.iter_mut().for_each(|e| *e = e0) }
    let seen: RefCell<Vec<(u8, f64)>> = RefCell::new(vec![]);
    let got = guard(|| assert_max_abs_error_on_grid(|x| { seen.borrow_mut().push((0, x)); 0.0 }, |x| { seen.borrow_mut().push((1, x)); err[idx(x)] }, a, b, n, tol));
    let what = || format!("[{a}, {b}] with {n} intervals, tolerance {tol:e}, errors {err:?}");
    if n == 0 { c.ok(got.is_err(), "no-samples", || format!("{got:?}")); c.ev("no samples"); return }
    let pass = err.iter().all(|e| e.abs() <= tol);
    // functions that differ only by being undefined somewhere
    let nan_only = err.iter().all(|e| e.is_nan() || e.abs() <= tol);
    if !c.ok(got.is_ok() == pass, if !pass && nan_only { "grid-undefined" } else { "grid-verdict" }, || format!("{got:?}; {}", what())) { return }
    c.ev(if pass { "accepted functions" } else if nan_only && got.is_ok() { return } else if err.iter().any(|e| e.is_nan()) { "undefined functions refused" } else { "different functions refused" });
    // every grid point was visited by both functions (when the helper did not stop early)
    if let Ok((x, e)) = got {
        let s = seen.into_inner();
        for f in 0..2u8 { for i in 0..=n { let w = a + (b - a) * (i as f64 / n as f64); c.ok(s.iter().any(|(g, x)| *g == f && (x - w).abs() <= 8.0 * U * (a.abs() + b.abs())), "grid-point-skipped", || format!("function {f} not evaluated at {w} (point {i}); {}", what())); } }
        let t = err.iter().fold(0.0f64, |m, e| m.max(e.abs()));
        c.ok(e == t, "grid-maximum", || format!("{e:e} instead of {t:e}; {}", what()));
        c.ok(x >= a.min(b) - 1e-9 && x <= a.max(b) + 1e-9 && (t == 0.0 || err[idx(x)].abs() == t), "grid-worst-point", || format!("{x}; {}", what()));
    }
}
/// the coding assertions hold for every value that can be coded
fn coded<const N: usize>(r: &mut Rng, c: &mut Case) {
    use aether_core::{attitude::Quaternion, reference_frame::{Body, ICRF}};
    let num = |r: &mut Rng| loop { let v = match r.below(4) { 0 => f64::from_bits(r.u64()), 1 => *r.pick(&[0.0, -0.0, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::INFINITY, f64::NEG_INFINITY]), _ => r.normal() }; if !v.is_nan() { break v } };
    let v: [f64; N] = std::array::from_fn(|_| num(r)); for x in v { c.mixf(x) }
    let g = guard(|| aether_test::assert::coding::assert_vector_equivalence(&Vector::<f64, N>::new(v)));
    c.ok(g.is_ok(), "coded-vector", || format!("{g:?} for {v:?}")); c.ev("coded vectors");
    let q: [f64; 4] = std::array::from_fn(|_| num(r));
    let g = guard(|| aether_test::assert::coding::assert_quaternion_equivalence(&Quaternion::<f64, Body<f64>, ICRF<f64>>::new(q[0], q[1], q[2], q[3])));
    c.ok(g.is_ok(), "coded-quaternion", || format!("{g:?} for {q:?}"));
}
fn main() {
    let mut ctx = Ctx::from_args("C25");
    ctx.family("vectors", 100_000, 1_500_000, |r, c| match r.below(5) { 0 => vec::<1>(r, c), 1 => vec::<2>(r, c), 2 => vec::<3>(r, c), 3 => vec::<7>(r, c), _ => vec::<16>(r, c) });
    ctx.family("matrices", 100_000, 1_500_000, |r, c| match r.below(6) { 0 => mat::<1, 1>(r, c), 1 => mat::<3, 3>(r, c), 2 => mat::<2, 5>(r, c), 3 => mat::<6, 1>(r, c), 4 => mat::<1, 4>(r, c), _ => mat::<5, 4>(r, c) });
    for e in ["equal operands", "within tolerance", "one element off", "several elements off", "non-finite elements"] { ctx.require(e, 2000) }
    ctx.family("symmetric", 60_000, 600_000, |r, c| match r.below(4) { 0 => sym::<1>(r, c), 1 => sym::<2>(r, c), 2 => sym::<3>(r, c), _ => sym::<6>(r, c) });
    for e in ["symmetric", "asymmetric"] { ctx.require(e, 2000) }
    ctx.family("grids", 60_000, 600_000, grid);
    for e in ["accepted functions", "different functions refused", "no samples"] { ctx.require(e, 500) }
    ctx.family("coded", 20_000, 200_000, |r, c| match r.below(4) { 0 => coded::<1>(r, c), 1 => coded::<3>(r, c), 2 => coded::<16>(r, c), _ => coded::<128>(r, c) });
    ctx.finish();
}
