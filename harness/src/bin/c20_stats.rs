//! C20: covariance family and distributions against binary128 evaluations of their definitions.
#![feature(f128)]
use aether_core::math::{Matrix, Vector};
use aether_monitors::fw::*;
use aether_monitors::num::*;
use aether_rand::randomizers::XorShift64Star;
use aether_stats::covariance::*;
use aether_stats::distributions::*;
use std::ops::Mul;

type Q = f128;
fn samples<T: Num, const N: usize>(r: &mut Rng, n: usize) -> Vec<[T; N]> {
    let sc: [f64; N] = std::array::from_fn(|_| r.logu(1e-3, 1e3));
    let off: [f64; N] = std::array::from_fn(|i| sc[i] * match r.below(4) { 0 => 0.0, 1 => r.normal() * 10.0, 2 => r.sign() * r.logu(1.0, if T::U > 1e-10 { 1e3 } else { 1e8 }), _ => r.normal() });
    let mix = r.normal();
    let mode = r.below(5);
    (0..n).map(|k| { let z = r.normal(); std::array::from_fn(|i| T::of(match mode { 0 => r.int(-9, 9) as f64, 1 => off[i], 2 => off[i] + sc[i] * (z * mix + 0.01 * r.normal()), 3 => off[i] + sc[i] * k as f64, _ => off[i] + sc[i] * r.normal() })) }).collect()
}
/// means, their error bounds, and the definition of the cross covariance with its bound
fn cross<T: Num, const N: usize, const M: usize>(x: &[[T; N]], y: &[[T; M]]) -> ([Q; N], [f64; N], Vec<Vec<Q>>, Vec<Vec<f64>>) {
    let n = x.len();
    fn mean<T: Num, const K: usize>(x: &[[T; K]]) -> ([Q; K], [f64; K]) { let n = x.len() as f64; (std::array::from_fn(|i| x.iter().map(|v| v[i].q()).sum::<Q>() / n as Q), std::array::from_fn(|i| (n + 4.0) * 2.0 * T::U * x.iter().map(|v| v[i].f().abs()).sum::<f64>() / n)) }
    let ((mx, ex), (my, ey)) = (mean(x), mean(y));
    let mut c = vec![vec![0.0 as Q; M]; N];
    let mut t = vec![vec![0.0f64; M]; N];
    let d = (n as f64 - 1.0).max(1.0);
    for i in 0..N { for j in 0..M {
        let (mut s, mut a) = (0.0 as Q, 0.0f64);
        for k in 0..n { let (p, q) = (x[k][i].q() - mx[i], y[k][j].q() - my[j]); s += p * q; let (p, q) = ((p as f64).abs(), (q as f64).abs());
            let (dp, dq) = (ex[i] + 2.0 * T::U * p, ey[j] + 2.0 * T::U * q); a += p * dq + q * dp + dp * dq + (n as f64 + 6.0) * 2.0 * T::U * (p + dp) * (q + dq); }
        c[i][j] = s / d as Q; t[i][j] = a / d + T::TINY;
    } }
    (mx, ex, c, t)
}
fn covs<T: Num + Mul<Output = T>, const N: usize, const M: usize>(r: &mut Rng, c: &mut Case) where Vector<T, N>: Copy, Vector<T, M>: Copy {
    let n = match r.below(6) { 0 => 0, 1 => 1, 2 => 2, 3 => r.int(3, 8) as usize, 4 => r.int(8, 60) as usize, _ => r.int(60, 400) as usize };
    let ny = if r.chance(0.1) { n + 1 } else { n };
    let (x, y) = (samples::<T, N>(r, n), samples::<T, M>(r, ny));
    let (vx, vy): (Vec<_>, Vec<_>) = (x.iter().map(|v| Vector::new(*v)).collect(), y.iter().map(|v| Vector::new(*v)).collect());
    c.mix(hash_str(&format!("{:?}{n}", x.first()))); c.mix(N as u64);
    let what = || format!("{} n={n} N={N} M={M} first {:?} {:?}", T::NAME, x.first(), y.first());
    let (m, s, cr) = match guard(|| (mean(&vx), sample_covariance(&vx), sample_cross_covariance(&vx, &vy))) { Ok(v) => v, Err(e) => return c.fail("panic", format!("{e}; {}", what())) };
    c.ok(m.is_err() == (n == 0) && (n > 0 || m.as_ref().err() == Some(&CovarianceError::EmptySamples)), "mean-refusal", || format!("{:?}; {}", m.as_ref().err(), what()));
    let want = match n { 0 => Some(CovarianceError::EmptySamples), 1 => Some(CovarianceError::InsufficientSamples), _ => None };
    c.ok(s.as_ref().err().copied() == want, "covariance-refusal", || format!("{:?}; {}", s.as_ref().err(), what()));
    let wantc = if y.len() != n { Some(CovarianceError::SampleCountMismatch) } else { want };
    c.ok(cr.as_ref().err().copied() == wantc, "cross-refusal", || format!("{:?}, {} and {} samples; {}", cr.as_ref().err(), n, y.len(), what()));
    if n == 0 { c.ev("refused inputs"); return }
    let (mx, ex, cv, tv) = cross(&x, &x);
    let m = m.unwrap();
    for i in 0..N { c.close("mean", m[i].f() - mx[i] as f64, 0.0, ex[i] + 2.0 * T::U * (mx[i] as f64).abs() + T::TINY, || format!("axis {i}; {}", what())); }
    if let Ok(s) = &s {
        for i in 0..N { for j in 0..N { c.close("covariance", s.data[i][j].f(), cv[i][j] as f64, tv[i][j], || format!("[{i}][{j}]; {}", what())); c.ok(s.data[i][j] == s.data[j][i], "asymmetric", || format!("[{i}][{j}] {} {}; {}", s.data[i][j], s.data[j][i], what())); } }
        // positive semi-definite to rounding
        for _ in 0..4 { let z: [f64; N] = std::array::from_fn(|_| r.normal()); let (mut q, mut t) = (0.0, 0.0); for i in 0..N { for j in 0..N { q += z[i] * s.data[i][j].f() * z[j]; t += (z[i] * z[j]).abs() * tv[i][j] } } c.ok(q >= -t - 1e-14 * q.abs(), "not-psd", || format!("{q:e} along {z:?}; {}", what())); }
        let sd = standard_deviations_from_covariance(s);
        let zero = (0..N).any(|i| s.data[i][i] <= T::of(2.0 * T::U));
        c.ok(sd.is_err() == zero, "zero-variance-refusal", || format!("variances {:?}: {:?}; {}", (0..N).map(|i| s.data[i][i].f()).collect::<Vec<_>>(), sd.as_ref().err(), what()));
        let co = correlation_from_covariance(s);
        c.ok(co.is_err() == zero, "correlation-refusal", || what());
        if let (Ok(sd), Ok(co)) = (sd, co) {
            let back = covariance_from_correlation(&co, &sd);
            for i in 0..N {
                c.close("standard-deviation", sd[i].f(), s.data[i][i].f().sqrt(), 4.0 * T::U * sd[i].f(), what);
                c.close("unit-diagonal", co.data[i][i].f(), 1.0, 8.0 * T::U, what);
                for j in 0..N {
                    let want = s.data[i][j].q() / (s.data[i][i].q() * s.data[j][j].q()).sqrt();
                    c.close("correlation", co.data[i][j].f(), want as f64, 10.0 * T::U * (want as f64).abs() + T::TINY, || format!("[{i}][{j}]; {}", what()));
                    c.close("correlation-back", back.data[i][j].f(), s.data[i][j].f(), 16.0 * T::U * s.data[i][j].f().abs() + T::TINY, || format!("[{i}][{j}]; {}", what()));
                }
            }
            c.ev("correlations");
        } else { c.ev("constant axes") }
        c.ev("covariances");
    }
    if let Ok(s) = &cr { let (_, _, cv, tv) = cross(&x, &y); for i in 0..N { for j in 0..M { c.close("cross-covariance", s.data[i][j].f(), cv[i][j] as f64, tv[i][j], || format!("[{i}][{j}]; {}", what())); } } c.ev("cross covariances"); }
}
fn dists<T: Num>(r: &mut Rng, c: &mut Case) {
    let u = T::U;
    // Gaussian
    let (mu, sg) = (T::of(match r.below(3) { 0 => 0.0, 1 => r.normal(), _ => r.sign() * r.logu(1e-3, 1e4) }), T::of(r.logu(1e-4, 1e4)));
    let x = T::of(mu.f() + sg.f() * match r.below(5) { 0 => 0.0, 1 => r.range(-9.0, 9.0), 2 => r.sign() * r.range(9.0, if T::U > 1e-10 { 14.0 } else { 39.0 }), _ => r.normal() });
    c.mixf(mu.f()); c.mixf(x.f());
    let g = Gaussian::new(mu, sg);
    let what = || format!("{} mu {mu} sigma {sg} x {x}", T::NAME);
    let n = aether_stats::distributions::gaussian::Gaussian::new_f64(mu.f(), sg.f()); c.ok(n.mu == mu.f() && n.sigma == sg.f(), "gaussian-f64", what);
    let z = (x.q() - mu.q()) / sg.q();
    let want = (-(z * z) / 2.0).exp() / (sg.q() * (2.0 * aether_monitors::hp::PI).sqrt());
    c.close("gaussian-pdf", g.pdf(x).f(), want as f64, want as f64 * u * (16.0 + 8.0 * (z * z) as f64) + T::TINY * (8.0 + (1.0 / sg.f())), what);
    let s = r.u64();
    let (mut a, mut b) = (XorShift64Star::new(s), XorShift64Star::new(s));
    for _ in 0..8 {
        let (u1, u2) = (b.next_f64(), b.next_f64());
        let z = (-2.0 * (u1 as Q).ln()).sqrt() * (2.0 * aether_monitors::hp::PI * u2 as Q).cos();
        let v = g.sample(&mut a);
        if u1 > 0.0 { c.close("gaussian-sample", v.f(), (mu.q() + sg.q() * z) as f64, 8.0 * u * (mu.f().abs() + sg.f() * (1.0 + (z as f64).abs())) + sg.f() * 1e-14, || format!("seed {s:#x}; {}", what())); }
    }
    c.ok(a.next_u64() == b.next_u64(), "sample-draws", || "a sample does not take exactly two draws".into());
    let n = match r.below(4) { 0 => 0, 1 => 1, 2 if r.chance(0.004) => { c.ev("samples beyond 65536"); r.int(66_000, 140_000) as usize } _ => r.int(2, 200) as usize };
    let xs: Vec<T> = (0..n).map(|_| T::of(mu.f() + sg.f() * r.normal())).collect();
    let f = Gaussian::fit_mle(&xs);
    if n == 0 { c.ok(f.mu == T::ZERO && f.sigma == T::ONE, "gaussian-fit-empty", || format!("{f:?}")); } else {
        let m = xs.iter().map(|v| v.q()).sum::<Q>() / n as Q;
        let em = (n as f64 + 4.0) * 2.0 * u * xs.iter().map(|v| v.f().abs()).sum::<f64>() / n as f64;
        c.close("gaussian-fit-mean", f.mu.f(), m as f64, em + T::TINY, || format!("n {n}; {}", what()));
        let v = xs.iter().map(|x| (x.q() - m) * (x.q() - m)).sum::<Q>() / n as Q;
        let sd = (v as f64).sqrt();
        // sqrt of (variance + rounding); the estimate is floored at epsilon
        let ev = (n as f64 + 8.0) * 2.0 * u * v as f64 + 2.0 * sd * (em + 2.0 * u * sd) + em * em;
        let tol = (v as f64 + ev).sqrt() - (v as f64 - ev).max(0.0).sqrt() + 2.0 * u * (1.0 + sd);
        c.close("gaussian-fit-sigma", f.sigma.f(), sd.max(2.0 * u), tol, || format!("n {n}; {}", what()));
        c.ok(f.sigma.f() > 0.0, "gaussian-fit-positive", what);
    }
    // Bernoulli, categorical
    let p = T::of(*r.pick(&[0.0, 1.0, 0.5, 0.1, 0.999]));
    let be = Bernoulli::new(p);
    c.ok(be.pmf(1) == p && (be.pmf(0).f() - (1.0 - p.f())).abs() <= u && be.pmf(2 + r.below(253) as u8) == T::ZERO, "bernoulli-pmf", || format!("p {p}"));
    let bp = *r.pick(&[0.5, 0.02, 0.98]);
    let bits: Vec<u8> = (0..n).map(|_| r.chance(bp) as u8).collect();
    let k = bits.iter().filter(|b| **b == 1).count();
    let bf = Bernoulli::<T>::fit_mle(&bits);
    c.close("bernoulli-fit", bf.p.f(), k as f64 / n.max(1) as f64, 2.0 * u, || format!("{k} of {n}"));
    let m = r.int(0, 12) as usize;
    let counts: Vec<usize> = (0..m).map(|_| match r.below(3) { 0 => 0, 1 => r.below(10), _ => r.below(100_000) }).collect();
    let tot: usize = counts.iter().sum();
    let ca = Categorical::<T>::fit_mle(&counts);
    c.ok(ca.probs.len() == m, "categorical-length", || format!("{counts:?}"));
    for i in 0..m + 2 { let want = if i < m { counts[i] as f64 / tot.max(1) as f64 } else { 0.0 }; c.close("categorical", ca.pmf(i).f(), want, 4.0 * u * want, || format!("category {i} of {counts:?}")); }
    if tot > 0 { c.close("categorical-sum", (0..m).map(|i| ca.pmf(i).f()).sum(), 1.0, 4.0 * u * (m as f64 + 1.0), || format!("{counts:?}")); }
    c.ev("distributions");
}
fn mvn<T: Num + Mul<Output = T>, const N: usize>(r: &mut Rng, c: &mut Case) where Vector<T, N>: Copy {
    // covariance = L L' with a bounded condition number
    let mut l = [[0.0f64; N]; N];
    for i in 0..N { for j in 0..=i { l[i][j] = if i == j { r.logu(0.3, 3.0) } else { r.normal() * 0.3 } } }
    let sc = if r.chance(0.3) { r.logu(1e-6, 1e6) } else { r.logu(0.05, 20.0) };
    let a: [[T; N]; N] = { let f: [[f64; N]; N] = std::array::from_fn(|i| std::array::from_fn(|j| sc * (0..N).map(|k| l[i][k] * l[j][k]).sum::<f64>())); std::array::from_fn(|i| std::array::from_fn(|j| T::of(f[i.max(j)][i.min(j)]))) };
    let mu: [T; N] = std::array::from_fn(|_| T::of(r.normal() * 3.0));
    let x: [T; N] = std::array::from_fn(|i| T::of(mu[i].f() + r.normal() * sc.sqrt() * *r.pick(&[0.0, 1.0, 2.0])));
    for v in &x { c.mixf(v.f()) }
    // binary128 Cholesky
    let mut q = [[0.0 as Q; N]; N];
    for i in 0..N { for j in 0..=i { let mut s = a[i][j].q(); for k in 0..j { s -= q[i][k] * q[j][k] } q[i][j] = if i == j { s.sqrt() } else { s / q[j][j] } } }
    let mut y = [0.0 as Q; N];
    let (mut quad, mut det) = (0.0 as Q, 1.0 as Q);
    for i in 0..N { let mut s = x[i].q() - mu[i].q(); for k in 0..i { s -= q[i][k] * y[k] } y[i] = s / q[i][i]; quad += y[i] * y[i]; det *= q[i][i] * q[i][i]; }
    let want = ((-quad / 2.0).exp() / ((2.0 * aether_monitors::hp::PI).powi(N as i32) * det).sqrt()) as f64;
    let tr: f64 = (0..N).map(|i| a[i][i].f()).sum();
    let lmin = (det as f64 / tr.powi(N as i32 - 1)).abs();
    let cond = tr / lmin.max(1e-300);
    let got = match guard(|| MultivariateNormal::new(Vector::new(mu), Matrix::new(a)).pdf(&Vector::new(x))) { Ok(v) => v, Err(e) => return c.fail("panic", format!("{e}; covariance {a:?}")) };
    if cond * T::U > 1e-3 { c.trivial(); return }
    c.close("mvn-pdf", got.f(), want, want * T::U * (40.0 + 30.0 * (N * N) as f64 * cond * (1.0 + quad as f64)) + T::TINY * 64.0, || format!("{} N={N} covariance {a:?} mean {mu:?} x {x:?} quadratic form {}", T::NAME, quad as f64));
    c.ev("multivariate densities");
}

fn main() {
    let mut ctx = Ctx::from_args("C20");
    ctx.family("covariance", 20_000, 400_000, |r, c| match r.below(6) { 0 => covs::<f64, 1, 3>(r, c), 1 => covs::<f64, 3, 2>(r, c), 2 => covs::<f64, 6, 1>(r, c), 3 => covs::<f32, 2, 2>(r, c), 4 => covs::<f32, 4, 3>(r, c), _ => covs::<f64, 4, 4>(r, c) });
    for e in ["covariances", "cross covariances", "correlations", "constant axes", "refused inputs"] { ctx.require(e, 200) }
    ctx.family("distributions", 60_000, 1_200_000, |r, c| if r.chance(0.6) { dists::<f64>(r, c) } else { dists::<f32>(r, c) });
    ctx.require("samples beyond 65536", 10);
    ctx.family("multivariate", 30_000, 600_000, |r, c| match r.below(7) { 5 => mvn::<f64, 6>(r, c), 6 => mvn::<f64, 7>(r, c), 0 => mvn::<f64, 1>(r, c), 1 => mvn::<f64, 2>(r, c), 2 => mvn::<f64, 3>(r, c), 3 => mvn::<f64, 4>(r, c), _ => mvn::<f32, 3>(r, c) });
    ctx.require("multivariate densities", 5000);
    ctx.finish();
}
