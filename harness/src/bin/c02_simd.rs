//! C02: every accelerated kernel agrees with the exact result and stays inside its operands.
#![feature(f128)]
use aether_core::math::{Matrix, Vector};
use aether_monitors::fw::*;
use aether_monitors::num::*;

/// Operand in its own exactly-sized heap block (red zones on both sides under ASan), plus
/// a variant embedded between canaries at every alignment residue of its scalar.
fn boxed<V: Copy>(v: V) -> Box<V> { Box::new(v) }
#[repr(C)]
#[derive(Clone, Copy)]
struct Canary<V: Copy, const OFF: usize> { pre: [u8; OFF], v: V, post: [u64; 4] }

fn rm<T: Num, const M: usize, const N: usize>(r: &mut Rng, f: Fill) -> Matrix<T, M, N> {
    let mut m = Matrix { data: [[T::of(0.0); N]; M] };
    for row in m.data.iter_mut() { for x in row.iter_mut() { *x = draw(r, f); } }
    m
}
fn rv<T: Num, const N: usize>(r: &mut Rng, f: Fill) -> Vector<T, N> {
    let mut m = Vector { data: [T::of(0.0); N] };
    for x in m.data.iter_mut() { *x = draw(r, f); }
    m
}
fn sprinkle<T: Num>(r: &mut Rng, xs: &mut [T]) -> bool {
    if r.chance(0.15) {
        let v = *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0]);
        let i = r.below(xs.len());
        xs[i] = T::of(v);
        return true;
    }
    false
}

/// Oracle for one inner product: exact sum with a bound valid for any association and any use of
/// fused multiply-add. Non-finite operands: the extended-real value when it is determined.
fn judge<T: Num>(c: &mut Case, what: &'static str, kernel: &str, got: T, xs: &[T], ys: &[T], exact: bool) {
    let mut nonfinite = false;
    let mut acc = 0.0f64; // extended-real accumulation only for special values
    for (x, y) in xs.iter().zip(ys) {
        let t = x.f() * y.f();
        if !x.f().is_finite() || !y.f().is_finite() { nonfinite = true; }
        acc += t;
    }
    if nonfinite {
        c.ev("non-finite lanes");
        // each product and the total in the extended reals: NaN iff 0*inf, NaN operand, or +inf with -inf
        let (mut pos, mut neg, mut nan) = (false, false, false);
        for (x, y) in xs.iter().zip(ys) {
            let t = x.f() * y.f();
            if t.is_nan() { nan = true; } else if t == f64::INFINITY { pos = true; } else if t == f64::NEG_INFINITY { neg = true; }
        }
        let _ = acc;
        let good = if nan || (pos && neg) { got.nan() } else if pos { got.f() == f64::INFINITY } else if neg { got.f() == f64::NEG_INFINITY } else { true };
        c.ok(good, what, || format!("{kernel} {} non-finite lane: got {got:?} from {xs:?} . {ys:?}", T::NAME));
        return;
    }
    let (mut s, mut m): (f128, f128) = (0.0, 0.0);
    for (x, y) in xs.iter().zip(ys) { let t = x.q() * y.q(); s += t; m += t.abs(); }
    let n = xs.len() as f64;
    let tol = if exact { 0.0 } else { m as f64 * T::U * (n + 3.0) * 1.01 + T::TINY * n };
    let e = (got.q() - s).abs() as f64;
    c.ok(e <= tol, what, || format!("{kernel} {} got {got:?} want {:e} err {e:e} tol {tol:e} from {xs:?} . {ys:?}", T::NAME, s as f64));
}

fn has(_f: &str) -> bool {
    #[cfg(target_arch = "x86_64")]
    match _f {
        "avx" => return std::is_x86_feature_detected!("avx"),
        "fma" => return std::is_x86_feature_detected!("fma"),
        _ => return true,
    }
    #[allow(unreachable_code)]
    true
}

#[cfg(all(feature = "anysimd", target_arch = "x86_64"))]
use aether_core::math::arch::x86::{matrix_simd as mk, vector_simd as vk};

macro_rules! matvec {
    ($name:ident, $t:ty, $n:literal, $safe:ident, [$(($kn:literal, $k:ident, $($feat:literal),*)),*]) => {
        fn $name<const M: usize>(r: &mut Rng, c: &mut Case) {
            let (fa, fb) = (fill(r), fill(r));
            let mut a: Matrix<$t, M, $n> = rm(r, fa);
            let mut v: Vector<$t, $n> = rv(r, fb);
            let mut special = false;
            for row in a.data.iter_mut() { special |= sprinkle(r, row); }
            special |= sprinkle(r, &mut v.data);
            for x in a.data.iter().flatten().chain(&v.data) { c.mix(x.bits()); }
            let exact = !special && matches!((fa, fb), (Fill::Int, Fill::Int));
            let (ba, bv) = (boxed(a), boxed(v));
            let can_a = boxed(Canary::<_, 8> { pre: [0xA5; 8], v: a, post: [0xDEAD_BEEF_DEAD_BEEF; 4] });
            let can_v = boxed(Canary::<_, 8> { pre: [0xA5; 8], v, post: [0xDEAD_BEEF_DEAD_BEEF; 4] });
            let mut outs: Vec<(&'static str, Vector<$t, M>)> = vec![("dispatch", ba.$safe(&bv)), ("dispatch-unaligned", can_a.v.$safe(&can_v.v))];
            #[cfg(all(feature = "anysimd", target_arch = "x86_64"))]
            {
                $( if true $(&& has($feat))* {
                    outs.push(($kn, unsafe { mk::$k(&*ba, &*bv) }));
                    outs.push(($kn, unsafe { mk::$k(&can_a.v, &can_v.v) }));
                    c.ev(concat!("kernel ", $kn));
                } )*
            }
            for (n, o) in &outs { for i in 0..M { judge::<$t>(c, "matvec", n, o.data[i], &a.data[i], &v.data, exact); } }
            c.ok(can_a.pre == [0xA5; 8] && can_a.post == [0xDEAD_BEEF_DEAD_BEEF; 4] && can_v.post == [0xDEAD_BEEF_DEAD_BEEF; 4] && (special || (can_a.v == a && can_v.v == v)), "operand-clobbered", || String::new());
            c.state(hash_str(stringify!($name)) ^ M as u64 ^ (fa as u64) << 20 ^ (fb as u64) << 30);
            c.sample(|| format!("{} M={M} {fa:?} {fb:?} kernels={:?}", stringify!($name), outs.iter().map(|o| o.0).collect::<Vec<_>>()));
        }
    };
}
matvec!(mv6_f64, f64, 6, mul_vec6_simd, [("vec6_avx_fma_f64", mul_vec6_avx_fma_f64, "avx", "fma"), ("vec6_avx_f64", mul_vec6_avx_f64, "avx"), ("vec6_fma128_f64", mul_vec6_fma128_f64, "fma"), ("vec6_sse2_f64", mul_vec6_sse2_f64, "sse")]);
matvec!(mv4_f64, f64, 4, mul_vec4_simd, [("vec4_avx_fma_f64", mul_vec4_avx_fma_f64, "avx", "fma"), ("vec4_avx_f64", mul_vec4_avx_f64, "avx")]);
matvec!(mv6_f32, f32, 6, mul_vec6_simd, [("vec6_avx_fma_f32", mul_vec6_avx_fma_f32, "avx", "fma"), ("vec6_avx_f32", mul_vec6_avx_f32, "avx"), ("vec6_fma128_f32", mul_vec6_fma128_f32, "fma"), ("vec6_sse_f32", mul_vec6_sse_f32, "sse")]);
matvec!(mv4_f32, f32, 4, mul_vec4_simd, [("vec4_sse_fma_f32", mul_vec4_sse_fma_f32, "fma"), ("vec4_sse_f32", mul_vec4_sse_f32, "sse")]);

macro_rules! matmul {
    ($name:ident, $t:ty, [$(($kn:literal, $k:ident, $($feat:literal),*)),*]) => {
        fn $name<const M: usize, const N: usize, const P: usize>(r: &mut Rng, c: &mut Case) {
            let (fa, fb) = (fill(r), fill(r));
            let mut a: Matrix<$t, M, N> = rm(r, fa);
            let mut b: Matrix<$t, N, P> = rm(r, fb);
            let i = r.below(M);
            let k = r.below(N);
            let mut special = sprinkle(r, &mut a.data[i]);
            special |= sprinkle(r, &mut b.data[k]);
            for x in a.data.iter().flatten().chain(b.data.iter().flatten()) { c.mix(x.bits()); }
            let exact = !special && matches!((fa, fb), (Fill::Int, Fill::Int));
            let (ba, bb) = (boxed(a), boxed(b));
            let can_a = boxed(Canary::<_, 8> { pre: [1; 8], v: a, post: [7; 4] });
            let can_b = boxed(Canary::<_, 8> { pre: [1; 8], v: b, post: [7; 4] });
            let mut outs: Vec<(&'static str, Box<Matrix<$t, M, P>>)> = vec![("dispatch", boxed(ba.mul_matrix_simd(&bb))), ("dispatch-unaligned", boxed(can_a.v.mul_matrix_simd(&can_b.v)))];
            #[cfg(all(feature = "anysimd", target_arch = "x86_64"))]
            { $( if true $(&& has($feat))* {
                outs.push(($kn, boxed(unsafe { mk::$k(&*ba, &*bb) })));
                outs.push(($kn, boxed(unsafe { mk::$k(&can_a.v, &can_b.v) })));
                c.ev(concat!("kernel ", $kn));
            } )* }
            for j in 0..P {
                let col: Vec<$t> = (0..N).map(|k| b.data[k][j]).collect();
                for (n, o) in &outs { for i in 0..M { judge::<$t>(c, "matmul", n, o.data[i][j], &a.data[i], &col, exact); } }
            }
            c.ok(can_a.post == [7; 4] && can_b.post == [7; 4] && can_b.pre == [1; 8], "operand-clobbered", || String::new());
            c.state(hash_str(stringify!($name)) ^ ((M * 10000 + N * 100 + P) as u64) << 3 ^ (fa as u64) << 40 ^ (fb as u64) << 48);
            c.sample(|| format!("{} {M}x{N}x{P} {fa:?} {fb:?}", stringify!($name)));
        }
    };
}
matmul!(mm_f64, f64, [("matrix_avx_fma_f64", mul_matrix_avx_fma_f64, "avx", "fma"), ("matrix_avx_f64", mul_matrix_avx_f64, "avx")]);
matmul!(mm_f32, f32, [("matrix_avx_fma_f32", mul_matrix_avx_fma_f32, "avx", "fma"), ("matrix_avx_f32", mul_matrix_avx_f32, "avx")]);

macro_rules! fixed {
    ($name:ident, $t:ty, $n:literal, $m:ident) => {
        fn $name(r: &mut Rng, c: &mut Case) {
            let (fa, fb) = (fill(r), fill(r));
            let mut a: Matrix<$t, $n, $n> = rm(r, fa);
            let mut b: Matrix<$t, $n, $n> = rm(r, fb);
            let mut special = false;
            for row in a.data.iter_mut() { special |= sprinkle(r, row); }
            for row in b.data.iter_mut() { special |= r.chance(0.2) && sprinkle(r, row); }
            for x in a.data.iter().flatten().chain(b.data.iter().flatten()) { c.mix(x.bits()); }
            let exact = !special && matches!((fa, fb), (Fill::Int, Fill::Int));
            let (ba, bb) = (boxed(a), boxed(b));
            let o = ba.$m(&bb);
            for j in 0..$n {
                let col: Vec<$t> = (0..$n).map(|k| b.data[k][j]).collect();
                for i in 0..$n { judge::<$t>(c, "fixed-matmul", stringify!($name), o.data[i][j], &a.data[i], &col, exact); }
            }
            c.ev("fixed-size products");
            c.sample(|| format!("{} {fa:?} {fb:?}", stringify!($name)));
        }
    };
}
fixed!(m3_f32, f32, 3, mul_mat3_simd);
fixed!(m3_f64, f64, 3, mul_mat3_simd);
fixed!(m4_f32, f32, 4, mul_mat4_simd);
fixed!(m4_f64, f64, 4, mul_mat4_simd);
fixed!(m6_f32, f32, 6, mul_mat6_simd);
fixed!(m6_f64, f64, 6, mul_mat6_simd);

macro_rules! dot4 {
    ($name:ident, $t:ty, [$(($kn:literal, $k:ident, $($feat:literal),*)),*]) => {
        fn $name(r: &mut Rng, c: &mut Case) {
            let (fa, fb) = (fill(r), fill(r));
            let mut a: Vector<$t, 4> = rv(r, fa);
            let mut b: Vector<$t, 4> = rv(r, fb);
            let special = sprinkle(r, &mut a.data) | sprinkle(r, &mut b.data);
            for x in a.data.iter().chain(&b.data) { c.mix(x.bits()); }
            let exact = !special && matches!((fa, fb), (Fill::Int, Fill::Int));
            let (ba, bb) = (boxed(a), boxed(b));
            let mut outs: Vec<(&'static str, $t)> = vec![("dispatch", ba.dot4_simd(&bb))];
            #[cfg(all(feature = "anysimd", target_arch = "x86_64"))]
            { $( if true $(&& has($feat))* { outs.push(($kn, unsafe { vk::$k(&*ba, &*bb) })); c.ev(concat!("kernel ", $kn)); } )* }
            for (n, o) in &outs { judge::<$t>(c, "dot4", n, *o, &a.data, &b.data, exact); }
            c.sample(|| format!("{} {:?} {:?}", stringify!($name), a.data, b.data));
        }
    };
}
dot4!(d4_f64, f64, [("dot4_avx_fma_f64", dot4_avx_fma_f64, "avx", "fma"), ("dot4_avx_f64", dot4_avx_f64, "avx")]);
dot4!(d4_f32, f32, [("dot4_sse_fma_f32", dot4_sse_fma_f32, "fma"), ("dot4_sse_f32", dot4_sse_f32, "sse")]);

macro_rules! table { ($r:expr, $case:expr; $($f:expr),* $(,)?) => {{
    let t: &[fn(&mut Rng, &mut Case)] = &[$($f),*];
    let k = ($case.idx as usize) % t.len();
    if cfg!(target_arch = "aarch64") { $case.ev("NEON cases") }
    t[k]($r, $case)
}} }

fn main() {
    let mut x = Ctx::from_args("C02");
    x.family("matvec", 8000, 400_000, |r, c| table!(r, c;
        mv6_f64::<1>, mv6_f64::<2>, mv6_f64::<3>, mv6_f64::<6>, mv6_f64::<7>, mv6_f64::<12>,
        mv6_f32::<1>, mv6_f32::<3>, mv6_f32::<6>, mv6_f32::<7>, mv6_f32::<12>,
        mv4_f64::<1>, mv4_f64::<3>, mv4_f64::<4>, mv4_f64::<5>, mv4_f32::<1>, mv4_f32::<3>, mv4_f32::<4>, mv4_f32::<9>));
    x.family("matmul", 6000, 300_000, |r, c| table!(r, c;
        mm_f64::<1,1,1>, mm_f64::<2,2,2>, mm_f64::<3,3,3>, mm_f64::<4,4,4>, mm_f64::<5,5,5>, mm_f64::<6,6,6>, mm_f64::<3,2,7>, mm_f64::<7,3,8>, mm_f64::<2,5,9>, mm_f64::<8,8,8>, mm_f64::<9,4,11>, mm_f64::<16,16,16>, mm_f64::<1,17,12>, mm_f64::<13,2,17>, mm_f64::<5,20,3>, mm_f64::<20,18,19>,
        mm_f32::<1,1,1>, mm_f32::<2,2,2>, mm_f32::<3,3,3>, mm_f32::<4,4,4>, mm_f32::<5,5,5>, mm_f32::<6,6,6>, mm_f32::<7,7,7>, mm_f32::<8,8,8>, mm_f32::<3,2,7>, mm_f32::<7,3,8>, mm_f32::<2,5,9>, mm_f32::<9,4,15>, mm_f32::<16,16,16>, mm_f32::<1,17,12>, mm_f32::<13,2,17>, mm_f32::<5,20,3>, mm_f32::<20,18,19>, mm_f32::<4,9,24>));
    x.family("fixed", 6000, 200_000, |r, c| table!(r, c; m3_f32, m3_f64, m4_f32, m4_f64, m6_f32, m6_f64));
    x.family("dot4", 6000, 200_000, |r, c| table!(r, c; d4_f64, d4_f32));
    if cfg!(target_arch = "aarch64") { x.require("NEON cases", 50) }
    x.require("non-finite lanes", 10);
    #[cfg(all(feature = "anysimd", target_arch = "x86_64", not(miri)))]
    if has("avx") && has("fma") {
        for k in ["kernel vec6_avx_fma_f64", "kernel vec6_avx_f64", "kernel vec6_fma128_f64", "kernel vec6_sse2_f64", "kernel vec4_avx_fma_f64", "kernel vec4_avx_f64",
            "kernel vec6_avx_fma_f32", "kernel vec6_avx_f32", "kernel vec6_fma128_f32", "kernel vec6_sse_f32", "kernel vec4_sse_fma_f32", "kernel vec4_sse_f32",
            "kernel matrix_avx_fma_f64", "kernel matrix_avx_f64", "kernel matrix_avx_fma_f32", "kernel matrix_avx_f32",
            "kernel dot4_avx_fma_f64", "kernel dot4_avx_f64", "kernel dot4_sse_fma_f32", "kernel dot4_sse_f32"] { x.require(k, 10); }
    }
    x.finish()
}
