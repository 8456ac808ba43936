//! C17: xorshift64* sequence, its real and normal draws.
#![feature(f128)]
use aether_monitors::fw::*;
use aether_monitors::hp;
use aether_rand::randomizers::XorShift64Star;

const MUL: u64 = 0x2545F4914F6CDD1D;
fn inv_mul() -> u64 { let mut y = MUL; for _ in 0..6 { y = y.wrapping_mul(2u64.wrapping_sub(MUL.wrapping_mul(y))); } y }
/// independent statement of the published recurrence, with its inverse
fn step(mut x: u64) -> u64 { x ^= x >> 12; x ^= x << 25; x ^= x >> 27; x }
fn unstep(mut x: u64) -> u64 {
    let r = |x: u64, s: u32| { let mut y = x; for _ in 0..6 { y = x ^ (y >> s) } y };
    x = r(x, 27);
    let mut y = x; for _ in 0..3 { y = x ^ (y << 25) } x = y;
    r(x, 12)
}
/// the seed whose first output is `out`
fn seed_for(out: u64) -> u64 { unstep(out.wrapping_mul(inv_mul())) }
fn seed(r: &mut Rng) -> u64 {
    match r.below(8) { 0 => *r.pick(&[0, 1, 2, u64::MAX, 1 << 63, 0x9E3779B97F4A7C15, 42]), 1 => 1 << r.below(64), 2 => !(1 << r.below(64)), 3 => seed_for(r.u64() | 0xFFFF_FFC0_0000_0000), 4 => seed_for((r.u64() >> 40).max(1)), 5 => seed_for(((1u64 << 53) - 1 - r.u64() % 4) << 11 | r.u64() & 0x7FF), 6 => seed_for(1 + r.u64() % 2047), _ => r.u64() }
}
fn state0(s: u64) -> u64 { if s == 0 { 0x9E3779B97F4A7C15 } else { s } }

fn main() {
    let mut ctx = Ctx::from_args("C17");
    ctx.family("sequence", 20_000, 400_000, |r, c| {
        let s = seed(r);
        c.mix(s);
        let mut g = XorShift64Star::new(s);
        let mut x = state0(s);
        let n = if r.chance(0.02) { 20_000 } else { 64 };
        for i in 0..n {
            x = step(x);
            let got = g.next_u64();
            if !c.ok(got == x.wrapping_mul(MUL) && got != 0, "sequence", || format!("seed {s:#x}, draw {i}: {got:#x}, published {:#x}", x.wrapping_mul(MUL))) { return }
            if i == n / 2 { let mut h = g; let mut k = g.clone(); let (a, b) = (h.next_u64(), k.next_u64()); let mut y = g; c.ok(a == b && y.next_u64() == a, "replay", || format!("copies of the generator disagree at seed {s:#x}")); }
        }
        if s == 0 { c.ev("zero seed") }
        c.evn("outputs compared", n);
    });
    ctx.require("zero seed", 10);
    // period: the observed state map over GF(2) has order 2^64-1
    ctx.serial("full-period", 1, 1, |_r, c| {
        let im = inv_mul();
        let m: Vec<u64> = (0..64).map(|i| XorShift64Star::new(1 << i).next_u64().wrapping_mul(im)).collect();
        let ap = |m: &[u64], v: u64| (0..64).filter(|i| v >> i & 1 == 1).fold(0, |a, i| a ^ m[i]);
        let mulm = |a: &[u64], b: &[u64]| -> Vec<u64> { b.iter().map(|v| ap(a, *v)).collect() };
        // linearity of what was observed
        let mut q = 0x1234_5678_9ABC_DEF1u64;
        for _ in 0..10_000 { q = splitmix(q); c.ok(XorShift64Star::new(q).next_u64().wrapping_mul(im) == ap(&m, q), "linear", || format!("state {q:#x}")); }
        let pow = |mut e: u64| { let id: Vec<u64> = (0..64).map(|i| 1u64 << i).collect(); let (mut acc, mut b) = (id, m.clone()); while e > 0 { if e & 1 == 1 { acc = mulm(&acc, &b) } b = mulm(&b, &b); e >>= 1; } acc };
        let id: Vec<u64> = (0..64).map(|i| 1u64 << i).collect();
        c.ok(pow(u64::MAX) == id, "period-divides", || "M^(2^64-1) is not the identity".into());
        for p in [3u64, 5, 17, 257, 641, 65_537, 6_700_417] { c.ok(pow(u64::MAX / p) != id, "period-full", || format!("order divides (2^64-1)/{p}")); }
        c.ev("maximal order shown");
    });
    ctx.require("maximal order shown", 1);
    ctx.family("reals", 40_000, 800_000, |r, c| {
        let s = seed(r);
        c.mix(s);
        let (mut g, mut h, mut k) = (XorShift64Star::new(s), XorShift64Star::new(s), XorShift64Star::new(s));
        let mut x = state0(s);
        for i in 0..24 {
            x = step(x);
            let u = x.wrapping_mul(MUL) >> 11;
            let want = u as f64 * (0.5f64).powi(53);
            let (a, b, f) = (g.next_f64(), h.next_real::<f64>(), k.next_real::<f32>());
            c.ok(a == want && b == want && (0.0..1.0).contains(&a), "f64-draw", || format!("seed {s:#x} draw {i}: {a:e} {b:e}, want {want:e}"));
            c.ok((0.0..1.0).contains(&f), "f32-range", || format!("seed {s:#x} draw {i}: f32 draw {f:e} is outside [0,1) (f64 draw {want:.17})"));
            c.ok((f as f64 - want).abs() <= (want * 6e-8).max(1e-30), "f32-draw", || format!("seed {s:#x} draw {i}: f32 draw {f:e}, f64 draw {want:e}"));
            if want > 1.0 - 1.0 / (1u64 << 26) as f64 { c.ev("draw within 2^-26 of one") }
            if u == 0 { c.ev("draw exactly zero") }
        }
    });
    ctx.require("draw within 2^-26 of one", 1000);
    ctx.require("draw exactly zero", 1000);
    ctx.family("normals", 20_000, 400_000, |r, c| {
        let s = seed(r);
        c.mix(s);
        let (mut g, mut h, mut k, mut u) = (XorShift64Star::new(s), XorShift64Star::new(s), XorShift64Star::new(s), XorShift64Star::new(s));
        for i in 0..12 {
            let (u1, u2) = (u.next_f64(), u.next_f64());
            let (a, b, f) = (g.normal01(), h.normal01_real::<f64>(), k.normal01_real::<f32>());
            c.ok(a.is_finite() && a.to_bits() == b.to_bits() && f.is_finite(), "normal-finite", || format!("seed {s:#x} draw {i}: {a:e} {b:e} {f:e}"));
            if u1 > 0.0 {
                // Box-Muller of the two uniforms
                let l = -2.0 * u1.ln();
                let th = 2.0f128 * hp::PI * u2 as f128;
                let want = l.sqrt() * th.cos() as f64;
                c.close("normal-f64", a, want, 4e-15 * (1.0 + l.sqrt()), || format!("seed {s:#x} draw {i} u1 {u1:e} u2 {u2:e}"));
                // f32: the radius is ill-conditioned near u1 = 1
                let tol = 2e-6 * (1.0 + l.sqrt()) + if u1 > 0.9 { (1.3e-7f64).sqrt() * 1.5 } else { 0.0 };
                c.close("normal-f32", f as f64, want, tol, || format!("seed {s:#x} draw {i} u1 {u1:e} u2 {u2:e}"));
            } else { c.ev("normal from a zero uniform"); c.ok(a.abs() <= 12.5, "normal-zero", || format!("{a}")); }
        }
    });
    ctx.require("normal from a zero uniform", 100);
    // distribution of long streams (thresholds far beyond any seed's fluctuation)
    ctx.family("distribution", 24, 400, |r, c| {
        let s = seed(r);
        c.mix(s);
        let mut g = XorShift64Star::new(s);
        const N: usize = 200_000;
        for _ in 0..64 { g.next_u64(); }
        let (mut hi, mut lo, mut bits) = (vec![0f64; 256], vec![0f64; 256], [0f64; 64]);
        let mut serial = vec![0f64; 256];
        let mut last = 0usize;
        for _ in 0..N { let x = g.next_u64(); hi[(x >> 56) as usize] += 1.0; lo[(x >> 11 & 255) as usize] += 1.0; for b in 0..64 { bits[b] += (x >> b & 1) as f64 } let t = (x >> 60) as usize; serial[last * 16 + t] += 1.0; last = t; }
        let chi = |h: &[f64]| { let e = N as f64 / h.len() as f64; h.iter().map(|o| (o - e) * (o - e) / e).sum::<f64>() };
        for (n, h) in [("high byte", &hi), ("mantissa low byte", &lo), ("serial pairs", &serial)] { let x = chi(h); c.ok(x < 255.0 + 9.0 * 22.6 && x > 255.0 - 9.0 * 22.6, "uniform", || format!("seed {s:#x}: chi-square of {n} = {x} over 255 degrees of freedom")); }
        for (b, k) in bits.iter().enumerate().skip(1) { let z = (k - N as f64 / 2.0) / (N as f64 / 4.0).sqrt(); c.ok(z.abs() < 8.0, "bit-balance", || format!("seed {s:#x}: bit {b} set {k} times of {N}")); }
        let (mut m, mut v, mut k4, mut bins) = (0.0, 0.0, 0.0, [0f64; 20]);
        const M: usize = 100_000;
        for _ in 0..M { let z = g.normal01(); m += z; v += z * z; k4 += z * z * z * z; let cdf = 0.5 * libm_erfc(-z / std::f64::consts::SQRT_2); bins[((cdf * 20.0) as usize).min(19)] += 1.0; }
        let n = M as f64;
        c.ok((m / n).abs() < 8.0 / n.sqrt() && (v / n - 1.0).abs() < 8.0 * (2.0 / n).sqrt() && (k4 / n - 3.0).abs() < 8.0 * (96.0 / n).sqrt(), "normal-moments", || format!("seed {s:#x}: mean {} variance {} fourth moment {}", m / n, v / n, k4 / n));
        let x: f64 = bins.iter().map(|o| (o - n / 20.0).powi(2) / (n / 20.0)).sum();
        c.ok(x < 19.0 + 9.0 * 6.2, "normal-distribution", || format!("seed {s:#x}: chi-square {x} over 19 degrees of freedom"));
        c.evn("distribution draws", (N + M) as u64);
    });
    ctx.finish();
}
/// complementary error function, relative error below 2e-7 (Numerical Recipes erfcc): ample for 20 bins
fn libm_erfc(x: f64) -> f64 {
    let z = x.abs();
    let t = 1.0 / (1.0 + 0.5 * z);
    let a = t * (-z * z - 1.26551223 + t * (1.00002368 + t * (0.37409196 + t * (0.09678418 + t * (-0.18628806 + t * (0.27886807 + t * (-1.13520398 + t * (1.48851587 + t * (-0.82215223 + t * 0.17087277))))))))).exp();
    if x >= 0.0 { a } else { 2.0 - a }
}
