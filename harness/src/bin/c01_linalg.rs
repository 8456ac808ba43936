//! C01: dense linear algebra against binary128 references.
#![feature(f128)]
use aether_core::math::algorithms::MatrixAlgorithms;
use aether_core::math::{Matrix, Tensor3, Tensor4, TensorView, TensorViewMut, Vector};
use aether_core::utils::{ToDegrees, ToRadians};
use aether_monitors::fw::*;
use aether_monitors::num::*;

fn rm<T: Num, const M: usize, const N: usize>(r: &mut Rng, f: Fill) -> Matrix<T, M, N> {
    let mut m = Matrix { data: [[T::of(0.0); N]; M] };
    for row in m.data.iter_mut() { for x in row.iter_mut() { *x = draw(r, f); } }
    m
}
fn rv<T: Num, const N: usize>(r: &mut Rng, f: Fill) -> Vector<T, N> {
    let mut m = Vector { data: [T::of(0.0); N] };
    for x in m.data.iter_mut() { *x = draw(r, f); }
    m
}
fn mixm<T: Num, const M: usize, const N: usize>(c: &mut Case, m: &Matrix<T, M, N>) {
    for row in &m.data { for x in row { c.mix(x.bits()); } }
}

fn prod<T: Num, const M: usize, const N: usize, const P: usize>(r: &mut Rng, c: &mut Case) {
    let (fa, fb) = (fill(r), fill(r));
    let mut a: Matrix<T, M, N> = rm(r, fa);
    let mut b: Matrix<T, N, P> = rm(r, fb);
    let special = r.chance(0.15);
    let mut nan_row = None;
    let mut nan_col = None;
    if special {
        if r.chance(0.5) {
            let (i, k) = (r.below(M), r.below(N));
            a.data[i][k] = T::of(f64::NAN);
            nan_row = Some(i);
        } else {
            let (k, j) = (r.below(N), r.below(P));
            b.data[k][j] = T::of(f64::NAN);
            nan_col = Some(j);
        }
    }
    mixm(c, &a);
    mixm(c, &b);
    let outs: [(&str, Matrix<T, M, P>); 5] = [
        ("val*val", a * b),
        ("ref*ref", &a * &b),
        ("val*ref", a * &b),
        ("ref*val", &a * b),
        ("strided", a.mul_matrix_strided(&b)),
    ];
    let exact = matches!((fa, fb), (Fill::Int, Fill::Int));
    c.ev("matrix products");
    if special { c.ev("products with a NaN operand"); }
    if exact { c.ev("exact integer products"); }
    let k = (N as f64 + 3.0) * T::U * 1.01;
    for i in 0..M {
        for j in 0..P {
            if nan_row == Some(i) || nan_col == Some(j) {
                for (n, o) in &outs {
                    c.ok(o.data[i][j].nan(), "nan-lost", || format!("{} {M}x{N}x{P} {n} [{i}][{j}] = {:?} although an operand is NaN", T::NAME, o.data[i][j]));
                }
                continue;
            }
            let mut s: f128 = 0.0;
            let mut m: f128 = 0.0;
            for l in 0..N { let t = a.data[i][l].q() * b.data[l][j].q(); s += t; m += t.abs(); }
            let tol = if exact { 0.0 } else { m as f64 * k + T::TINY * N as f64 };
            for (n, o) in &outs {
                let e = (o.data[i][j].q() - s).abs() as f64;
                c.ok(e <= tol, "product", || format!("{} {M}x{N}x{P} {n} [{i}][{j}] got {:?} want {:?} err {e:e} tol {tol:e} fills {fa:?},{fb:?}", T::NAME, o.data[i][j], s as f64));
            }
        }
    }
    // matrix * vector, all spellings
    let v: Vector<T, N> = rv(r, fb);
    let outs: [(&str, Vector<T, M>); 5] = [("val*val", a * v), ("ref*ref", &a * &v), ("val*ref", a * &v), ("ref*val", &a * v), ("unrolled", a.mul_vector_unrolled(&v))];
    for i in 0..M {
        if nan_row == Some(i) {
            for (n, o) in &outs { c.ok(o.data[i].nan(), "matvec-nan-lost", || format!("{n}")); }
            continue;
        }
        let (mut s, mut m): (f128, f128) = (0.0, 0.0);
        for l in 0..N { let t = a.data[i][l].q() * v.data[l].q(); s += t; m += t.abs(); }
        let tol = if exact { 0.0 } else { m as f64 * k + T::TINY * N as f64 };
        for (n, o) in &outs {
            let e = (o.data[i].q() - s).abs() as f64;
            c.ok(e <= tol, "matvec", || format!("{} {M}x{N} {n} [{i}] got {:?} want {:?} err {e:e} tol {tol:e}", T::NAME, o.data[i], s as f64));
        }
    }
    c.state(hash_str(T::NAME) ^ ((M * 10000 + N * 100 + P) as u64) << 3 ^ (fa as u64) << 40 ^ (fb as u64) << 48);
    c.sample(|| format!("{} {M}x{N}x{P} fills {fa:?} {fb:?} a00={:?} b00={:?}", T::NAME, a.data[0][0], b.data[0][0]));
}

fn near<T: Num>(c: &mut Case, key: &'static str, got: T, want: f128, rel: f64, ctx: &dyn Fn() -> String) {
    let e = (got.q() - want).abs() as f64;
    let tol = rel * T::U * (want.abs() as f64) + T::TINY;
    c.ok(e <= tol, key, || format!("{} got {got:?} want {:e} err {e:e} tol {tol:e} {}", T::NAME, want as f64, ctx()));
}

fn elem<T: Num, const M: usize, const N: usize>(r: &mut Rng, c: &mut Case) {
    let f = fill(r);
    let a: Matrix<T, M, N> = rm(r, f);
    let b: Matrix<T, M, N> = rm(r, f);
    let mut s: T = draw(r, Fill::Norm);
    if s.f().abs() < 1e-3 { s = T::of(1.5); }
    mixm(c, &a);
    mixm(c, &b);
    let (add, sub, neg, scl, div, t) = (a + b, a - b, -a, a * s, a / s, a.transpose());
    let mut mx = 0.0f64;
    for i in 0..M { for j in 0..N {
        let (x, y) = (a.data[i][j], b.data[i][j]);
        let ctx = || format!("{M}x{N} [{i}][{j}] a={x:?} b={y:?} s={s:?}");
        near(c, "add", add.data[i][j], x.q() + y.q(), 2.0, &ctx);
        near(c, "sub", sub.data[i][j], x.q() - y.q(), 2.0, &ctx);
        near(c, "neg", neg.data[i][j], -x.q(), 0.0, &ctx);
        near(c, "scale", scl.data[i][j], x.q() * s.q(), 2.0, &ctx);
        near(c, "div", div.data[i][j], x.q() / s.q(), 4.0, &ctx);
        c.ok(t.data[j][i] == x, "transpose", ctx);
        c.ok(a[(i, j)] == x && a[i][j] == x, "index", ctx);
        mx = mx.max(x.f().abs());
    } }
    c.ok(a.max_abs().f() == mx, "max-abs", || format!("{M}x{N} max_abs {:?} want {mx:e}", a.max_abs()));
    // writes through both index forms land where they read back, and nowhere else
    let (i, j) = (r.below(M), r.below(N));
    let (mut w1, mut w2) = (a, a);
    w1[(i, j)] = T::of(77.0);
    w2[i][j] = T::of(77.0);
    let mut want = a.data;
    want[i][j] = T::of(77.0);
    c.ok(w1.data == want && w2.data == want, "index-write", || format!("({i},{j})"));
    // casts
    let up: Matrix<f64, M, N> = a.cast::<f64>();
    let dn: Matrix<f32, M, N> = a.cast::<f32>();
    let same: Matrix<T, M, N> = a.cast::<T>();
    c.ok(same == a, "cast-id", || format!("{a:?}"));
    let up2: Matrix<f64, M, N> = Matrix::<f64, M, N>::from(dn);
    let dn2: Matrix<f32, M, N> = Matrix::<f32, M, N>::from(up);
    for i in 0..M { for j in 0..N {
        let x = a.data[i][j].f();
        c.ok(up.data[i][j] == x && dn.data[i][j] == x as f32 && up2.data[i][j] == dn.data[i][j] as f64 && dn2.data[i][j] == x as f32, "cast", || format!("[{i}][{j}] {x:e}"));
    } }
    // outer
    let u: Vector<T, M> = rv(r, f);
    let v: Vector<T, N> = rv(r, f);
    let o = Matrix::outer(&u, &v);
    for i in 0..M { for j in 0..N { near(c, "outer", o.data[i][j], u.data[i].q() * v.data[j].q(), 2.0, &|| format!("{M}x{N} [{i}][{j}]")); } }
    // constructors
    let (z, one, def) = (Matrix::<T, M, N>::zeros(), Matrix::<T, M, N>::ones(), Matrix::<T, M, N>::default());
    c.ok(z.data.iter().flatten().all(|x| x.f() == 0.0) && def == z && one.data.iter().flatten().all(|x| x.f() == 1.0), "zeros-ones", || format!("{M}x{N}"));
    c.ok(Matrix::new(a.data) == a, "new", || String::new());
    // Display prints every entry row by row
    let txt = format!("{a}");
    let rows: Vec<Vec<f64>> = txt.trim_matches(|ch| ch == '[' || ch == ']').split(';').map(|l| l.split_whitespace().map(|w| w.parse::<T2>().map(|v| v.0).unwrap_or(f64::NAN)).collect()).collect();
    let good = rows.len() == M && rows.iter().enumerate().all(|(i, l)| l.len() == N && l.iter().enumerate().all(|(j, v)| T::of(*v) == a.data[i][j]));
    c.ok(good, "display", || format!("{M}x{N} {txt}"));
    c.ev("elementwise sweeps");
    c.state(hash_str(T::NAME) ^ (M * 100 + N) as u64 ^ (f as u64) << 32);
    c.sample(|| format!("{} {M}x{N} {f:?} a00={:?} s={s:?}", T::NAME, a.data[0][0]));
}
struct T2(f64);
impl std::str::FromStr for T2 { type Err = (); fn from_str(s: &str) -> Result<Self, ()> { s.parse::<f64>().map(T2).map_err(|_| ()) } }

fn square<T: Num, const N: usize>(r: &mut Rng, c: &mut Case) {
    let f = fill(r);
    let a: Matrix<T, N, N> = rm(r, f);
    let d: Vector<T, N> = rv(r, f);
    mixm(c, &a);
    if let (4, Some(m)) = (N, (&a as &dyn std::any::Any).downcast_ref::<Matrix<T, 4, 4>>()) { let v = m.as_flat_array(); for k in 0..16 { c.ok(v[k] == m.data[k / 4][k % 4], "flat", || format!("{v:?} for {m:?}")); } }
    let id = Matrix::<T, N, N>::identity();
    let (dg, dv) = (Matrix::<T, N, N>::diag(&d.data), Matrix::<T, N, N>::diag_from_vector(&d));
    for i in 0..N { for j in 0..N {
        c.ok(id.data[i][j].f() == (i == j) as u8 as f64, "identity", || format!("{N} [{i}][{j}]"));
        let w = if i == j { d.data[i].f() } else { 0.0 };
        c.ok(dg.data[i][j].f() == w && dv.data[i][j].f() == w, "diag", || format!("{N} [{i}][{j}]"));
    } }
    c.ok(a * id == a && id * a == a, "identity-neutral", || format!("{N} {a:?}"));
    let (mut s, mut m): (f128, f128) = (0.0, 0.0);
    for i in 0..N { s += a.data[i][i].q(); m += a.data[i][i].q().abs(); }
    let e = (a.trace().q() - s).abs() as f64;
    c.ok(e <= m as f64 * T::U * (N as f64 + 1.0), "trace", || format!("{N} err {e:e}"));
    c.ev("square helpers");
}

fn vecs<T: Num, const N: usize>(r: &mut Rng, c: &mut Case) {
    let f = fill(r);
    let a: Vector<T, N> = rv(r, f);
    let mut b: Vector<T, N> = rv(r, f);
    if r.chance(0.1) { let k = T::of(r.sign() * r.logu(0.1, 10.0)); b = a * k; }
    let mut s: T = draw(r, Fill::Norm);
    if s.f().abs() < 1e-3 { s = T::of(-2.5); }
    for x in a.data.iter().chain(&b.data) { c.mix(x.bits()); }
    let adds = [a + b, &a + &b, a + &b, &a + b, { let mut t = a; t += b; t }, { let mut t = a; t += &b; t }];
    let subs = [a - b, &a - &b, a - &b, &a - b, { let mut t = a; t -= b; t }, { let mut t = a; t -= &b; t }];
    let (negs, scl, div) = ([-a, -&a], [a * s, &a * s], [a / s, &a / s]);
    for i in 0..N {
        let (x, y) = (a.data[i], b.data[i]);
        let ctx = || format!("{N} [{i}] a={x:?} b={y:?} s={s:?}");
        for o in &adds { near(c, "vadd", o.data[i], x.q() + y.q(), 2.0, &ctx); }
        for o in &subs { near(c, "vsub", o.data[i], x.q() - y.q(), 2.0, &ctx); }
        for o in &negs { near(c, "vneg", o.data[i], -x.q(), 0.0, &ctx); }
        for o in &scl { near(c, "vscale", o.data[i], x.q() * s.q(), 2.0, &ctx); }
        for o in &div { near(c, "vdiv", o.data[i], x.q() / s.q(), 4.0, &ctx); }
    }
    let (mut d, mut m, mut na, mut nb): (f128, f128, f128, f128) = (0.0, 0.0, 0.0, 0.0);
    for i in 0..N { let t = a.data[i].q() * b.data[i].q(); d += t; m += t.abs(); na += a.data[i].q() * a.data[i].q(); nb += b.data[i].q() * b.data[i].q(); }
    let tol = m as f64 * T::U * (N as f64 + 2.0) + T::TINY * N as f64;
    for (n, g) in [("dot", a.dot(&b)), ("&*&", &a * &b), ("*&", a * &b), ("&*", &a * b), ("*", a * b)] {
        let e = (g.q() - d).abs() as f64;
        c.ok(e <= tol, "dot", || format!("{} {N} {n} got {g:?} want {:e} err {e:e}", T::NAME, d as f64));
    }
    let (qa, qb) = (na.sqrt(), nb.sqrt());
    let nt = |q: f128| q as f64 * T::U * (N as f64 * 0.5 + 3.0) + T::TINY;
    for g in [a.norm(), a.magnitude()] {
        let e = (g.q() - qa).abs() as f64;
        c.ok(e <= nt(qa), "norm", || format!("{} {N} got {g:?} want {:e} {:?}", T::NAME, qa as f64, a.data));
    }
    if qa as f64 > 1e-9 {
        let k = (N as f64 * 0.5 + 6.0) * T::U;
        let (t, tn) = a.try_normalize();
        c.ok((tn.q() - qa).abs() as f64 <= nt(qa), "try-normalize-norm", || format!("{tn:?}"));
        for o in [a.normalize(), t] { for i in 0..N {
            let w = a.data[i].q() / qa;
            let e = (o.data[i].q() - w).abs() as f64;
            c.ok(e <= w.abs() as f64 * k + T::TINY, "normalize", || format!("{} {N} [{i}] got {:?} want {:e}", T::NAME, o.data[i], w as f64));
        } }
        c.ev("normalisations");
    } else if (qa as f64) < 1e-13 {
        let (t, tn) = a.try_normalize();
        c.ok(t == a && (tn.q() - qa).abs() as f64 <= nt(qa), "try-normalize-tiny", || format!("{a:?} -> {t:?} {tn:?}"));
        c.ev("degenerate normalisations");
    }
    // just above the 1e-12 below which a vector has no direction
    let q = draw::<T>(r, Fill::Norm).f().abs();
    let g = T::of(1e-12 * (1.001 + 1e3 * q * q * q * q));
    let mut z = Vector { data: [T::of(0.0); N] };
    z.data[r.below(N)] = g;
    let (t, tn) = z.try_normalize();
    c.ok((tn.f() - g.f()).abs() <= 4.0 * T::U * g.f() && (0..N).all(|i| (t.data[i].f() - (z.data[i].f() != 0.0) as u8 as f64).abs() <= 8.0 * T::U), "try-normalize-small", || format!("{} {z:?} -> {t:?} {tn:?}", T::NAME));
    if N > 1 {
        let (ab, ba) = (a.angle(&b).f(), b.angle(&a).f());
        let okrange = |x: f64| x >= 0.0 && x <= std::f64::consts::PI * (1.0 + 4.0 * T::U);
        if qa as f64 > 1e-30 && qb as f64 > 1e-30 && qa as f64 * (qb as f64) > T::TINY * 1e6 && (qa as f64) < 1e30 {
            // reference: theta = 2 atan2(|u-v|, |u+v|) on the unit vectors
            let (mut p, mut q2): (f128, f128) = (0.0, 0.0);
            for i in 0..N { let (u, v) = (a.data[i].q() / qa, b.data[i].q() / qb); p += (u - v) * (u - v); q2 += (u + v) * (u + v); }
            let th = 2.0 * p.sqrt().atan2(q2.sqrt()) as f64;
            let de = (2.0 * N as f64 + 8.0) * T::U;
            let tol = (de / th.sin().abs().max(1e-300)).min((8.0 * de).sqrt()) * 2.0 + 8.0 * T::U;
            for g in [ab, ba] { c.ok(okrange(g) && (g - th).abs() <= tol, "angle", || format!("{} {N} got {g:e} want {th:e} tol {tol:e} a={:?} b={:?}", T::NAME, a.data, b.data)); }
            c.ev("angles");
        }
    }
    // reshaping, iteration, collection
    let (row, col) = (a.row(), a.col());
    for i in 0..N { c.ok(row.data[0][i] == a.data[i] && col.data[i][0] == a.data[i] && a[i] == a.data[i], "row-col", || format!("{i}")); }
    let it: Vec<T> = a.iter().copied().collect();
    let it2: Vec<T> = a.into_iter().collect();
    let it3: Vec<T> = (&a).into_iter().copied().collect();
    let it4: Vec<T> = a.iter_copied().collect();
    let back: Vector<T, N> = it.iter().copied().collect();
    let fr: Vector<T, N> = Vector::from(a.data);
    c.ok(it[..] == a.data[..] && it2 == it && it3 == it && it4 == it && back == a && fr == a && Vector::new(a.data) == a && a.as_ref() == &a.data, "iterate-collect", || format!("{a:?} -> {back:?}"));
    let mut mm = a;
    for x in mm.iter_mut() { *x = *x + T::of(1.0); }
    let mut m2 = a;
    for x in &mut m2 { *x = *x + T::of(1.0); }
    let mp = a.map(|x| x + T::of(1.0));
    let mut m4 = a;
    for x in m4.as_mut().iter_mut() { *x = *x + T::of(1.0); }
    c.ok(mm == mp && m2 == mp && m4 == mp && (0..N).all(|i| mp.data[i] == a.data[i] + T::of(1.0)), "map", || format!("{a:?}"));
    for (what, n) in [("short", N - 1), ("long", N + 1)] {
        let r = guard(|| (0..n).map(|_| T::of(1.0)).collect::<Vector<T, N>>());
        c.ok(r.is_err(), "collect-wrong-length", || format!("{what}: collected {n} items into {N}"));
    }
    let txt = format!("{a}");
    let ws: Vec<f64> = txt.trim_matches(|ch| ch == '[' || ch == ']').split_whitespace().map(|w| w.parse::<f64>().unwrap_or(f64::NAN)).collect();
    c.ok(ws.len() == N && ws.iter().zip(&a.data).all(|(x, y)| T::of(*x) == *y), "vdisplay", || txt.clone());
    c.ok(Vector::<T, N>::zeros().data.iter().all(|x| x.f() == 0.0) && Vector::<T, N>::ones().data.iter().all(|x| x.f() == 1.0) && Vector::<T, N>::default() == Vector::<T, N>::zeros(), "vzeros", || String::new());
    c.ev("vector sweeps");
    c.state(hash_str(T::NAME) ^ N as u64 ^ (f as u64) << 32 ^ 1 << 60);
    c.sample(|| format!("{} N={N} {f:?} {:?}", T::NAME, a.data));
}

fn three<T: Num>(r: &mut Rng, c: &mut Case) {
    let f = fill(r);
    let a: Vector<T, 3> = rv(r, f);
    let b: Vector<T, 3> = rv(r, f);
    for x in a.data.iter().chain(&b.data) { c.mix(x.bits()); }
    let x = a.cross(&b);
    for i in 0..3 {
        let (j, k) = ((i + 1) % 3, (i + 2) % 3);
        let (p, q) = (a.data[j].q() * b.data[k].q(), a.data[k].q() * b.data[j].q());
        let e = (x.data[i].q() - (p - q)).abs() as f64;
        c.ok(e <= (p.abs() + q.abs()) as f64 * 3.0 * T::U + T::TINY, "cross", || format!("{} [{i}] got {:?} want {:e} a={:?} b={:?}", T::NAME, x.data[i], (p - q) as f64, a.data, b.data));
    }
    c.ev("cross products");
}

fn angles(r: &mut Rng, c: &mut Case) {
    let v = Vector::new([r.wild(400.0), r.wild(1.0), r.wild(1e5), r.range(-7.0, 7.0)]);
    for x in v.data { c.mixf(x); }
    let (d, g) = (v.to_degrees(), v.to_radians());
    let pi = aether_monitors::hp::PI;
    for i in 0..4 {
        let x = v.data[i] as f128;
        c.close("to-degrees", d.data[i], (x * 180.0 / pi) as f64, 1e-15 * (x * 180.0 / pi).abs() as f64 + 1e-300, || format!("{:e}", v.data[i]));
        c.close("to-radians", g.data[i], (x / 180.0 * pi) as f64, 1e-15 * (x / 180.0 * pi).abs() as f64 + 1e-300, || format!("{:e}", v.data[i]));
        let back = g.to_degrees().data[i];
        c.close("degrees-radians-round-trip", back, v.data[i], 2e-15 * v.data[i].abs() + 1e-300, || format!("{:e}", v.data[i]));
        let s = v.data[i].to_radians();
        c.close("scalar-to-radians", ToRadians::to_radians(v.data[i]), s, 1e-15 * s.abs() + 1e-300, || String::new());
    }
}

fn tensors<T: Num, const A: usize, const B: usize, const C: usize, const D: usize>(r: &mut Rng, c: &mut Case) {
    let mut d3 = [[[T::of(0.0); C]; B]; A];
    let mut d4 = [[[[T::of(0.0); D]; C]; B]; A];
    let mut n = 0.0;
    for i in 0..A { for j in 0..B { for k in 0..C {
        d3[i][j][k] = T::of((i * 10000 + j * 100 + k) as f64 + r.unit().floor());
        for l in 0..D { d4[i][j][k][l] = T::of(n); n += 1.0; }
    } } }
    let mut t3 = Tensor3::<T, A, B, C>::new(d3);
    let mut t4 = Tensor4::<T, A, B, C, D>::new(d4);
    c.ok(Tensor3::<T, A, B, C>::dims() == (A, B, C) && Tensor4::<T, A, B, C, D>::dims() == (A, B, C, D), "tensor-dims", || String::new());
    let flat = t3.as_flat().to_vec();
    c.ok(flat.len() == A * B * C, "tensor-flat-len", || format!("{} != {}", flat.len(), A * B * C));
    let shape = [A, B, C];
    let mut copy = flat.clone();
    let shape4 = [A, B, C, D];
    let flat4: Vec<T> = (0..A * B * C * D).map(|x| T::of(x as f64)).collect();
    for i in 0..A { for j in 0..B { for k in 0..C {
        let w = d3[i][j][k];
        c.ok(t3[(i, j, k)] == w && flat[(i * B + j) * C + k] == w, "tensor-layout", || format!("({i},{j},{k})"));
        let tv = TensorView { data: &flat, shape: &shape };
        c.ok(*tv.get(&[i, j, k]) == w, "tensor-view", || format!("({i},{j},{k})"));
        let mut tvm = TensorViewMut { data: &mut copy, shape: &shape };
        *tvm.get_mut(&[i, j, k]) = w + T::of(1.0);
        c.ok(copy[(i * B + j) * C + k] == w + T::of(1.0), "tensor-view-mut", || format!("({i},{j},{k})"));
        for l in 0..D {
            c.ok(t4[(i, j, k, l)] == d4[i][j][k][l] && *TensorView { data: &flat4, shape: &shape4 }.get(&[i, j, k, l]) == d4[i][j][k][l], "tensor4", || format!("({i},{j},{k},{l})"));
        }
    } } }
    let (i, j, k, l) = (r.below(A), r.below(B), r.below(C), r.below(D));
    c.mix((i * 1000 + j * 100 + k * 10 + l) as u64);
    t3[(i, j, k)] = T::of(-5.0);
    d3[i][j][k] = T::of(-5.0);
    c.ok(t3.data == d3, "tensor-write", || format!("({i},{j},{k})"));
    let p = (i * B + j) * C + k;
    t3.as_flat_mut()[p] = T::of(-6.0);
    d3[i][j][k] = T::of(-6.0);
    c.ok(t3.data == d3, "tensor-flat-write", || format!("({i},{j},{k})"));
    t4[(i, j, k, l)] = T::of(-5.0);
    d4[i][j][k][l] = T::of(-5.0);
    c.ok(t4.data == d4, "tensor4-write", || format!("({i},{j},{k},{l})"));
    // out of range anywhere must not silently return some other element
    for bad in [(A, 0, 0), (0, B, 0), (0, 0, C)] {
        let t = t3;
        c.ok(guard(|| t[bad]).is_err(), "tensor-oob", || format!("{bad:?} accepted for {A}x{B}x{C}"));
    }
    c.ok(guard(|| flat.as_ptr() as usize).is_ok(), "x", || String::new());
    c.ev("tensor sweeps");
}

macro_rules! shapes { ($c:expr, $r:expr, $case:expr; $(($m:literal,$n:literal,$p:literal)),* $(,)?) => {{
    let table: &[fn(&mut Rng, &mut Case)] = &[$(prod::<f64,$m,$n,$p>, prod::<f32,$m,$n,$p>),*];
    let k = ($case.idx as usize) % table.len();
    table[k]($r, $case)
}} }
macro_rules! table { ($r:expr, $case:expr; $($f:expr),* $(,)?) => {{
    let t: &[fn(&mut Rng, &mut Case)] = &[$($f),*];
    let k = ($case.idx as usize) % t.len();
    t[k]($r, $case)
}} }

fn main() {
    let mut x = Ctx::from_args("C01");
    x.family("products", 8000, 400_000, |r, c| {
        shapes!(c, r, c; (1,1,1),(1,3,1),(2,2,2),(3,3,3),(4,4,4),(6,6,6),(5,7,2),(8,8,8),(9,9,9),(8,9,8),(9,8,8),(8,8,9),(7,8,8),
            (16,16,16),(17,17,17),(15,16,17),(5,33,7),(33,1,33),(1,40,1),(32,32,32),(3,20,5),(20,3,40),(2,48,18),(31,47,29),(1,1,17),(1,17,16),(17,1,1),(3,3,1),(6,3,6),(4,1,4),(10,4,3),(3,65,70),(40,2,100),(2,100,3),(70,33,65))
    });
    x.family("elementwise", 4000, 200_000, |r, c| {
        table!(r, c; elem::<f64,1,1>, elem::<f32,1,1>, elem::<f64,3,3>, elem::<f32,3,3>, elem::<f64,4,6>, elem::<f32,4,6>, elem::<f64,6,4>, elem::<f64,1,9>, elem::<f64,9,1>, elem::<f32,12,17>, elem::<f64,17,12>, elem::<f64,2,5>)
    });
    x.family("square", 2000, 60_000, |r, c| {
        table!(r, c; square::<f64,1>, square::<f32,2>, square::<f64,3>, square::<f64,4>, square::<f32,6>, square::<f64,9>, square::<f64,17>)
    });
    x.family("vectors", 8000, 400_000, |r, c| {
        table!(r, c; vecs::<f64,1>, vecs::<f64,2>, vecs::<f64,3>, vecs::<f32,3>, vecs::<f64,4>, vecs::<f32,4>, vecs::<f64,6>, vecs::<f32,6>, vecs::<f64,9>, vecs::<f32,16>, vecs::<f64,17>, vecs::<f64,33>)
    });
    x.family("cross", 4000, 200_000, |r, c| table!(r, c; three::<f64>, three::<f32>));
    x.family("degrees", 2000, 40_000, angles);
    x.family("tensors", 400, 8000, |r, c| table!(r, c; tensors::<f64,2,3,4,2>, tensors::<f32,1,1,1,1>, tensors::<f64,5,2,3,4>, tensors::<f64,3,3,3,3>, tensors::<f64,3,1,4,2>, tensors::<f64,4,5,1,3>, tensors::<f32,2,1,1,7>, tensors::<f64,1,6,2,1>));
    x.require("matrix products", 500);
    x.require("products with a NaN operand", 20);
    x.require("angles", 50);
    x.finish()
}
