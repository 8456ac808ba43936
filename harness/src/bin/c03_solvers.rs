//! C03: determinant, inverses, LU, Cholesky and solves against binary128 references.
#![feature(f128)]
use aether_core::math::{Matrix, Vector};
use aether_monitors::fw::*;
use aether_monitors::la;
use aether_monitors::num::*;

type Q = f128;
fn qm<T: Num, const M: usize, const N: usize>(a: &Matrix<T, M, N>) -> la::M {
    a.data.iter().map(|r| r.iter().map(|x| x.q()).collect()).collect()
}
fn qv<T: Num, const N: usize>(a: &Vector<T, N>) -> Vec<Q> { a.data.iter().map(|x| x.q()).collect() }
fn absm(a: &la::M) -> la::M { a.iter().map(|r| r.iter().map(|x| x.abs()).collect()).collect() }
fn vmax(v: &[Q]) -> Q { v.iter().fold(0.0, |m: Q, x| if x.abs() > m { x.abs() } else { m }) }

/// random orthogonal by Householder products, in f64
fn orth(r: &mut Rng, n: usize) -> Vec<Vec<f64>> {
    let mut q = vec![vec![0.0; n]; n];
    for i in 0..n { q[i][i] = 1.0; }
    for _ in 0..n.min(4) {
        let v: Vec<f64> = (0..n).map(|_| r.normal()).collect();
        let s: f64 = v.iter().map(|x| x * x).sum();
        if s < 1e-6 { continue; }
        for row in q.iter_mut() {
            let d: f64 = row.iter().zip(&v).map(|(x, y)| x * y).sum();
            for j in 0..n { row[j] -= 2.0 * d * v[j] / s; }
        }
    }
    q
}
fn mm(a: &[Vec<f64>], b: &[Vec<f64>]) -> Vec<Vec<f64>> {
    let n = b.len();
    a.iter().map(|r| (0..b[0].len()).map(|j| (0..n).map(|k| r[k] * b[k][j]).sum()).collect()).collect()
}

fn gen<T: Num, const N: usize>(r: &mut Rng, kind: usize) -> Matrix<T, N, N> {
    let mut a = vec![vec![0.0f64; N]; N];
    let wide = if T::U > 1e-10 { 1e2 } else { 1e7 };
    match kind {
        0 => {
            // prescribed singular values
            let (u, v) = (orth(r, N), orth(r, N));
            let hi = r.logu(1.0, wide);
            let mut d = vec![vec![0.0; N]; N];
            for i in 0..N { d[i][i] = r.logu(1.0, hi.max(1.0 + 1e-9)); }
            a = mm(&mm(&u, &d), &v);
            let s = r.logu(1e-1, 1e3);
            for x in a.iter_mut().flatten() { *x *= s; }
        }
        1 => {
            // well-conditioned triangular, rows permuted: zero diagonal, forced exchanges
            for i in 0..N { for j in i..N { a[i][j] = if i == j { r.sign() * r.range(1.0, 3.0) } else { r.range(-0.5, 0.5) }; } }
            let mut p: Vec<usize> = (0..N).collect();
            r.shuffle(&mut p);
            a = p.iter().map(|&i| a[i].clone()).collect();
        }
        2 => {
            // signed scaled permutation
            let mut p: Vec<usize> = (0..N).collect();
            r.shuffle(&mut p);
            for i in 0..N { a[i][p[i]] = r.sign() * r.logu(0.1, 100.0); }
        }
        3 => {
            // integer, leading zeros
            for i in 0..N { for j in 0..N { a[i][j] = r.int(-5, 5) as f64; } }
            a[0][0] = 0.0;
            if N > 2 { a[1][0] = 0.0; }
        }
        4 => {
            // rows of very different scale
            for i in 0..N { let s = r.logu(1.0, wide.sqrt()); for j in 0..N { a[i][j] = r.normal() * s; } a[i][i] += 3.0 * s; }
        }
        5 => {
            // coupling that is almost, but not quite, absent
            for i in 0..N { for j in 0..N { a[i][j] = r.normal() * if i != j && r.chance(0.6) { r.logu(1e-15, 1e-5) } else { 1.0 }; } a[i][i] += a[i][i].signum(); }
            if N > 1 && r.chance(0.5) { a.swap(0, N - 1); }
        }
        _ => for i in 0..N { for j in 0..N { a[i][j] = r.normal(); } },
    }
    let mut m = Matrix { data: [[T::of(0.0); N]; N] };
    for i in 0..N { for j in 0..N { m.data[i][j] = T::of(a[i][j]); } }
    m
}

fn linear<T: Num, const N: usize, const K: usize>(r: &mut Rng, c: &mut Case) {
    let kind = r.below(7);
    let mut a: Matrix<T, N, N> = gen(r, kind);
    let u = T::U;
    // the refusal thresholds are absolute: down to them, a small matrix is still an ordinary one
    let floor = if u > 1e-10 { 1e-6 } else { 2.0e-12 };
    if r.chance(0.3) {
        if let (Some(inv), _) = la::inv_det(&qm(&a)) {
            let lo = 1.0 / la::inf_norm(&inv) as f64;
            let want = floor * 1.1 * r.logu(1.0, 1e6);
            if want < lo { for x in a.data.iter_mut().flatten() { *x = T::of(x.f() * want / lo); } c.ev("systems of small scale"); }
        }
    }
    let mut b = Vector { data: [T::of(0.0); N] };
    for x in b.data.iter_mut() { *x = T::of(r.wild(2.0)); }
    let mut bm = Matrix { data: [[T::of(0.0); K]; N] };
    for x in bm.data.iter_mut().flatten() { *x = T::of(r.wild(2.0)); }
    for x in a.data.iter().flatten() { c.mix(x.bits()); }
    let qa = qm(&a);
    let (inv, det) = la::inv_det(&qa);
    let na = la::inf_norm(&qa);
    let Some(inv) = inv else { c.trivial(); c.ev("generated singular by chance"); return; };
    let kappa = (na * la::inf_norm(&inv)) as f64;
    let n3 = (N * N * N) as f64 + 8.0;
    let maxk = if u > 1e-10 { 1e4 } else { 1e9 };
    if !(kappa < maxk) || ((1.0 / la::inf_norm(&inv)) as f64) < floor { c.trivial(); c.ev("skipped, too close to singular"); return; }
    let name = || format!("{} n={N} kind={kind} kappa={kappa:.2e} A={:?}", T::NAME, a.data);
    c.state((N as u64) << 8 | kind as u64 | (u > 1e-10) as u64 * 7777);
    c.ev("non-singular systems");
    // determinant
    let rel = 8.0 * n3 * u * kappa;
    match guard(|| a.determinant()) {
        Ok(d) => { c.ok(((d.q() - det).abs() as f64) <= rel * det.abs() as f64 + T::TINY * (na as f64).max(1.0).powi(N as i32), "determinant", || format!("got {d:?} want {:e} {}", det as f64, name())); }
        Err(e) => c.fail("determinant-panic", format!("{e} {}", name())),
    }
    // Gauss-Jordan inverse
    match guard(|| a.inverse_gauss_jordan()) {
        Ok(Some(x)) => {
            let ni = la::inf_norm(&inv) as f64;
            for i in 0..N { for j in 0..N {
                let e = (x.data[i][j].q() - inv[i][j]).abs() as f64;
                if !c.ok(e <= rel * ni, "gauss-jordan", || format!("[{i}][{j}] got {:?} want {:e} {}", x.data[i][j], inv[i][j] as f64, name())) { return; }
            } }
            c.ev("inverses checked");
        }
        Ok(None) => c.fail("gauss-jordan-refused", name()),
        Err(e) => c.fail("gauss-jordan-panic", format!("{e} {}", name())),
    }
    // LU
    let lu = match guard(|| a.lu_decompose()) {
        Ok(Some(l)) => l,
        Ok(None) => { c.fail("lu-refused", name()); return; }
        Err(e) => { c.fail("lu-panic", format!("{e} {}", name())); return; }
    };
    let mut seen = [false; N];
    for &p in &lu.piv { if p < N { seen[p] = true; } }
    if !c.ok(seen.iter().all(|x| *x), "lu-permutation", || format!("piv={:?} {}", lu.piv, name())) { return; }
    let mut inversions = 0;
    for i in 0..N { for j in i + 1..N { if lu.piv[i] > lu.piv[j] { inversions += 1; } } }
    c.ok(lu.sign as i32 == if inversions % 2 == 0 { 1 } else { -1 }, "lu-sign", || format!("sign={} piv={:?} {}", lu.sign, lu.piv, name()));
    if inversions > 0 { c.ev("factorisations with row exchanges"); }
    let (mut l, mut up) = (la::eye(N), la::zeros(N, N));
    for i in 0..N { for j in 0..N { if j < i { l[i][j] = lu.lu.data[i][j].q(); if !c.ok(lu.lu.data[i][j].f().abs() <= 1.0 + 8.0 * u, "lu-multiplier", || format!("[{i}][{j}] = {} {}", lu.lu.data[i][j].f(), name())) { return; } } else { up[i][j] = lu.lu.data[i][j].q(); } } }
    let (p, pa) = (la::mul(&l, &up), la::mul(&absm(&l), &absm(&up)));
    for i in 0..N { for j in 0..N {
        let e = (p[i][j] - qa[lu.piv[i]][j]).abs() as f64;
        if !c.ok(e <= 4.0 * (N as f64 + 1.0) * u * pa[i][j] as f64, "lu-product", || format!("[{i}][{j}] err {e:e} piv={:?} {}", lu.piv, name())) { return; }
    } }
    let resid = |c: &mut Case, key: &str, x: &[Q], b: &[Q]| {
        let ax = la::mulv(&qa, x);
        let tol = (8.0 * n3 * u) as Q * na * vmax(x) + 1e-300;
        for i in 0..N {
            let e = (ax[i] - b[i]).abs();
            if !c.ok(e <= tol, key, || format!("row {i}: residual {:e} tol {:e} x={:?} b={:?} {}", e as f64, tol as f64, x.iter().map(|v| *v as f64).collect::<Vec<_>>(), b.iter().map(|v| *v as f64).collect::<Vec<_>>(), name())) { return; }
        }
    };
    let qb = qv(&b);
    resid(c, "lu-solve", &qv(&lu.solve(&b)), &qb);
    let xm = lu.solve_multi(&bm);
    let xm2 = a.solve_multi(&bm);
    match a.solve(&b) {
        Some(x) => resid(c, "solve", &qv(&x), &qb),
        None => c.fail("solve-refused", name()),
    }
    if c.ok(xm2.is_some(), "solve-multi-refused", name) {
        let xm2 = xm2.unwrap();
        for k in 0..K {
            let bc: Vec<Q> = (0..N).map(|i| bm.data[i][k].q()).collect();
            resid(c, "lu-solve-multi", &(0..N).map(|i| xm.data[i][k].q()).collect::<Vec<_>>(), &bc);
            resid(c, "solve-multi", &(0..N).map(|i| xm2.data[i][k].q()).collect::<Vec<_>>(), &bc);
        }
    }
    c.evn("right-hand sides solved", 2 + 2 * K as u64);
    c.sample(|| name());
}

fn inv3<T: Num>(r: &mut Rng, c: &mut Case) {
    let kind = r.below(7);
    let a: Matrix<T, 3, 3> = gen(r, kind);
    for x in a.data.iter().flatten() { c.mix(x.bits()); }
    let qa = qm(&a);
    let (inv, det) = la::inv_det(&qa);
    let Some(inv) = inv else { c.trivial(); return; };
    let kappa = (la::inf_norm(&qa) * la::inf_norm(&inv)) as f64;
    if !(kappa < if T::U > 1e-10 { 1e4 } else { 1e9 }) || det.abs() < 1e-6 { c.trivial(); return; }
    let x = match guard(|| a.inverse()) {
        Ok(Some(x)) => x,
        Ok(None) => { c.fail("inverse3-refused", format!("det {:e} {:?}", det as f64, a.data)); return; }
        Err(e) => { c.fail("inverse3-panic", format!("{e} {:?}", a.data)); return; }
    };
    for i in 0..3 { for j in 0..3 {
        // cofactor of entry (j,i)
        let (r0, r1) = ((j + 1) % 3, (j + 2) % 3);
        let (c0, c1) = ((i + 1) % 3, (i + 2) % 3);
        let ab = (qa[r0][c0] * qa[r1][c1]).abs() + (qa[r0][c1] * qa[r1][c0]).abs();
        let tol = 1e-25 * la::inf_norm(&inv) as f64 + 8.0 * T::U * (ab / det.abs()) as f64 + 8.0 * 35.0 * T::U * kappa * inv[i][j].abs() as f64;
        let e = (x.data[i][j].q() - inv[i][j]).abs() as f64;
        c.ok(e <= tol, "inverse3", || format!("{} [{i}][{j}] got {:?} want {:e} tol {tol:e} kappa {kappa:e} {:?}", T::NAME, x.data[i][j], inv[i][j] as f64, a.data));
    } }
    c.ev("3x3 inverses");
}

/// zero row/column, or two equal / opposite rows: singular without any rounding
fn singular<T: Num, const N: usize>(r: &mut Rng, c: &mut Case) {
    let kind = r.below(7);
    let mut a: Matrix<T, N, N> = gen(r, kind);
    let how = r.below(4);
    let (i, mut j) = (r.below(N), r.below(N));
    if N > 1 { while j == i { j = r.below(N); } }
    match how {
        0 => for k in 0..N { a.data[i][k] = T::of(0.0); },
        1 => for k in 0..N { a.data[k][i] = T::of(0.0); },
        2 if N > 1 => a.data[j] = a.data[i],
        _ if N > 1 => for k in 0..N { a.data[j][k] = -a.data[i][k]; },
        _ => a.data[0][0] = T::of(0.0),
    }
    if r.chance(0.05) { a = Matrix { data: [[T::of(0.0); N]; N] }; }
    for x in a.data.iter().flatten() { c.mix(x.bits()); }
    let name = || format!("{} n={N} how={how} A={:?}", T::NAME, a.data);
    let mut b = Vector { data: [T::of(1.0); N] };
    b.data[0] = T::of(2.0);
    let mut hadamard: Q = 1.0;
    for row in qm(&a) { hadamard *= la::norm(&row).max(1e-300); }
    let m = a.data.iter().flatten().fold(0.0f64, |m, x| m.max(x.f().abs()));
    match guard(|| a.determinant()) {
        Ok(d) => { c.ok(d.f().abs() <= 8.0 * ((N * N * N) as f64 + 8.0) * T::U * (hadamard as f64).max(m.powi(N as i32)) + 1e-300, "singular-determinant", || format!("{d:?} {}", name())); }
        Err(e) => c.fail("singular-determinant-panic", format!("{e} {}", name())),
    }
    // zero rows and columns stay zero under any elimination; equal rows only up to the rounding of the multipliers, so
    // there a result may come back if it is the outcome of rounding: a pivot of rounding size, a backward stable solution
    let strict = how < 2 || N == 1 || a.data.iter().any(|r| r.iter().all(|x| x.f() == 0.0));
    let qa = qm(&a); let u = T::U as Q; let n = N as Q; let na = la::inf_norm(&qa);
    let residual = |x: &la::M, b: &la::M| { let ax = la::mul(&qa, x); let e = ax.iter().flatten().zip(b.iter().flatten()).fold(0.0 as Q, |m, (p, q)| { let d = (*p - *q).abs(); if d.is_nan() || m.is_nan() { Q::NAN } else { m.max(d) } }); e <= 64.0 * n * n * u * (na * la::inf_norm(x) + la::inf_norm(b)) };
    let col = |v: &[T]| -> la::M { v.iter().map(|x| vec![x.f() as Q]).collect() };
    macro_rules! refuse { ($key:literal, $e:expr, $v:ident, $rounding:expr) => { match guard(|| $e) {
        Ok(None) => { c.ok(true, $key, name); }
        Ok(Some($v)) => { let fine = !strict && $rounding; if fine { c.ev("singular up to rounding") } c.ok(fine, $key, name); }
        Err(e) => c.fail(concat!($key, "-panic"), format!("{e} {}", name())),
    } } }
    refuse!("singular-lu-accepted", a.lu_decompose(), f, {
        let v = qm(&f.lu); let l: la::M = (0..N).map(|i| (0..N).map(|j| if j < i { v[i][j] } else if i == j { 1.0 } else { 0.0 }).collect()).collect();
        let w: la::M = (0..N).map(|i| (0..N).map(|j| if j >= i { v[i][j] } else { 0.0 }).collect()).collect(); let lu = la::mul(&l, &w);
        let e = (0..N).flat_map(|i| (0..N).map(move |j| (i, j))).fold(0.0 as Q, |m, (i, j)| { let d = (lu[i][j] - qa[f.piv[i]][j]).abs(); if d.is_nan() || m.is_nan() { Q::NAN } else { m.max(d) } });
        (0..N).all(|k| w[k][k] != 0.0) && e <= 64.0 * n * n * u * (na + la::inf_norm(&l) * la::inf_norm(&w)) });
    refuse!("singular-solve-accepted", a.solve(&b), x, residual(&col(&x.data), &col(&b.data)));
    refuse!("singular-solve-multi-accepted", a.solve_multi(&Matrix::<T, N, 2>::ones()), x, residual(&x.data.iter().map(|r| r.iter().map(|v| v.f() as Q).collect()).collect(), &vec![vec![1.0; 2]; N]));
    refuse!("singular-gauss-jordan-accepted", a.inverse_gauss_jordan(), x, residual(&qm(&x), &la::eye(N)));
    c.ev("singular systems");
    c.state((N as u64) << 8 | how as u64 | 1 << 40);
}
fn singular3<T: Num>(r: &mut Rng, c: &mut Case) {
    // the adjugate inverse: determinant of these is exactly zero after pivoting
    let mut a = Matrix { data: [[T::of(0.0); 3]; 3] };
    for x in a.data.iter_mut().flatten() { *x = T::of(r.int(-6, 6) as f64); }
    let (i, j) = (r.below(3), r.below(2));
    let j = if j >= i { j + 1 } else { j };
    let how = r.below(3);
    match how {
        0 => a.data[i] = [T::of(0.0); 3],
        1 => a.data[j] = a.data[i],
        _ => for k in 0..3 { a.data[k][i] = T::of(0.0); },
    }
    let equal = how == 1 && !a.data.iter().any(|r| r.iter().all(|x| x.f() == 0.0));
    for x in a.data.iter().flatten() { c.mix(x.bits()); }
    match guard(|| a.inverse()) {
        // (equal rows: unless the rounding of the multipliers leaves a pivot of rounding size, so that the inverse is huge)
        Ok(v) => { let fine = v.as_ref().map_or(true, |v| equal && la::inf_norm(&qm(v)) as f64 * la::inf_norm(&qm(&a)) as f64 * T::U > 1e-3); c.ok(fine, "singular-inverse3-accepted", || format!("{:?} -> {v:?}", a.data)); }
        Err(e) => c.fail("singular-inverse3-panic", format!("{e} {:?}", a.data)),
    }
    c.ev("singular 3x3");
}

/// L L' with small integers, a zero pivot (or one below zero) and powers of two elsewhere on the
/// diagonal: every step of the factorisation is exact, so the refusal is not a matter of rounding
fn semidefinite<T: Num, const N: usize>(r: &mut Rng, c: &mut Case) {
    let p = r.below(N);
    let mut l = [[0.0f64; N]; N];
    for i in 0..N { for j in 0..=i { l[i][j] = if i == j { *r.pick(&[1.0, 2.0, 4.0]) } else { r.int(-3, 3) as f64 }; } }
    for i in p..N { l[i][p] = 0.0; }
    let below = if r.chance(0.5) { 0.0 } else { 1.0 };
    let sc = *r.pick(&[1.0, 1.0, 1.0 / 1048576.0, 1024.0]);
    let mut a = Matrix { data: [[T::of(0.0); N]; N] };
    for i in 0..N { for j in 0..N {
        let s: f64 = (0..N).map(|k| l[i][k] * l[j][k]).sum::<f64>() - if i == p && j == p { below } else { 0.0 };
        a.data[i][j] = T::of(s * sc * sc);
    } }
    for x in a.data.iter().flatten() { c.mix(x.bits()); }
    let name = || format!("{} n={N} pivot {p} is {} A={:?}", T::NAME, -below, a.data);
    match guard(|| (a.cholesky_lower().is_none(), a.cholesky_solve(&Vector { data: [T::of(1.0); N] }).is_none())) {
        Ok((f, s)) => { c.ok(f, "cholesky-accepted-semidefinite", name); c.ok(s, "cholesky-solve-accepted-semidefinite", name); }
        Err(e) => c.fail("cholesky-panic", format!("{e} {}", name())),
    }
    c.ev("exactly semidefinite matrices");
}

fn chol<T: Num, const N: usize>(r: &mut Rng, c: &mut Case) {
    let k = r.below(6);
    if k == 5 { return semidefinite::<T, N>(r, c); }
    let wide = if T::U > 1e-10 { 30.0 } else { 3e4 };
    let q = orth(r, N);
    let mut d = vec![vec![0.0; N]; N];
    for i in 0..N { d[i][i] = r.logu(1.0, wide) * if k == 3 { 1e-3 } else { 1.0 }; }
    let indefinite = k == 2;
    if indefinite { let i = r.below(N); d[i][i] = -r.range(0.5, 2.0) * wide; }
    let mut s = mm(&mm(&q, &d), &(0..N).map(|i| (0..N).map(|j| q[j][i]).collect()).collect::<Vec<_>>());
    if k == 4 {
        // quantities in very different units: rows and columns scaled alike, together or apart
        let (lo, hi) = if T::U > 1e-10 { (1e-6, 1e4) } else { (1e-12, 1e8) };
        let all = r.chance(0.5).then(|| r.logu(lo, hi));
        let w: Vec<f64> = (0..N).map(|_| { let v = r.logu(lo, hi); all.unwrap_or(v) }).collect();
        for i in 0..N { for j in 0..N { s[i][j] *= w[i] * w[j]; } }
        c.ev("positive definite in mixed units");
    }
    let mut a = Matrix { data: [[T::of(0.0); N]; N] };
    for i in 0..N { for j in 0..N { a.data[i][j] = T::of(0.5 * (s[i][j] + s[j][i])); } }
    for x in a.data.iter().flatten() { c.mix(x.bits()); }
    let name = || format!("{} n={N} A={:?}", T::NAME, a.data);
    let mut b = Vector { data: [T::of(0.0); N] };
    for x in b.data.iter_mut() { *x = T::of(r.wild(2.0)); }
    let ch = match guard(|| a.cholesky_lower()) { Ok(v) => v, Err(e) => { c.fail("cholesky-panic", format!("{e} {}", name())); return; } };
    if indefinite {
        c.ok(ch.is_none(), "cholesky-accepted-indefinite", name);
        match guard(|| a.cholesky_solve(&b)) { Ok(v) => { c.ok(v.is_none(), "cholesky-solve-accepted-indefinite", name); } Err(e) => c.fail("cholesky-panic", e) }
        c.ev("indefinite matrices");
        return;
    }
    let Some(ch) = ch else { c.fail("cholesky-refused", name()); return; };
    let l = qm(&ch.l);
    for i in 0..N {
        c.ok(l[i][i] > 0.0 && (i + 1..N).all(|j| l[i][j] == 0.0), "cholesky-shape", || format!("row {i} {:?} {}", ch.l.data[i], name()));
    }
    let (p, pa) = (la::mul(&l, &la::tr(&l)), la::mul(&absm(&l), &absm(&la::tr(&l))));
    for i in 0..N { for j in 0..N {
        let e = (p[i][j] - a.data[i][j].q()).abs() as f64;
        if !c.ok(e <= 4.0 * (N as f64 + 2.0) * T::U * pa[i][j] as f64, "cholesky-product", || format!("[{i}][{j}] err {e:e} {}", name())) { return; }
    } }
    for (key, x) in [("cholesky-solve-factor", Some(ch.solve(&b))), ("cholesky-solve", a.cholesky_solve(&b))] {
        let Some(x) = x else { c.fail("cholesky-solve-refused", name()); continue; };
        let xq = qv(&x);
        let xa: Vec<Q> = xq.iter().map(|v| v.abs()).collect();
        let (ax, tol) = (la::mulv(&qm(&a), &xq), la::mulv(&pa, &xa));
        for i in 0..N {
            let e = (ax[i] - b.data[i].q()).abs() as f64;
            if !c.ok(e <= 12.0 * (N as f64 + 2.0) * T::U * tol[i] as f64 + 1e-300, key, || format!("row {i} residual {e:e} {}", name())) { break; }
        }
    }
    c.ev("Cholesky factorisations");
    c.state((N as u64) << 8 | k as u64 | 1 << 41);
    c.sample(|| name());
}

macro_rules! table { ($r:expr, $case:expr; $($f:expr),* $(,)?) => {{
    let t: &[fn(&mut Rng, &mut Case)] = &[$($f),*];
    let k = ($case.idx as usize) % t.len();
    t[k]($r, $case)
}} }
fn main() {
    let mut x = Ctx::from_args("C03");
    x.family("linear", 12_000, 600_000, |r, c| table!(r, c; linear::<f64,1,1>, linear::<f64,2,3>, linear::<f32,2,1>, linear::<f64,3,1>, linear::<f32,3,4>, linear::<f64,4,2>, linear::<f32,4,1>, linear::<f64,5,5>,
        linear::<f64,6,1>, linear::<f32,6,2>, linear::<f64,7,3>, linear::<f64,8,2>, linear::<f64,9,1>, linear::<f64,10,4>, linear::<f64,12,2>, linear::<f32,9,2>));
    x.family("inverse3", 4000, 300_000, |r, c| table!(r, c; inv3::<f64>, inv3::<f32>));
    x.family("singular", 6000, 200_000, |r, c| table!(r, c; singular::<f64,1>, singular::<f64,2>, singular::<f32,2>, singular::<f64,3>, singular::<f32,3>, singular::<f64,4>, singular::<f64,5>, singular::<f64,6>, singular::<f32,6>, singular::<f64,8>, singular::<f64,12>));
    x.family("singular3", 2000, 40_000, |r, c| table!(r, c; singular3::<f64>, singular3::<f32>));
    x.family("cholesky", 6000, 300_000, |r, c| table!(r, c; chol::<f64,1>, chol::<f64,2>, chol::<f32,3>, chol::<f64,3>, chol::<f64,4>, chol::<f32,4>, chol::<f64,6>, chol::<f64,7>, chol::<f32,8>, chol::<f64,10>));
    x.require("non-singular systems", 200);
    x.require("factorisations with row exchanges", 50);
    x.require("Cholesky factorisations", 50);
    x.require("indefinite matrices", 20);
    x.require("exactly semidefinite matrices", 20);
    x.require("positive definite in mixed units", 20);
    x.require("systems of small scale", 20);
    x.finish()
}
