//! C18: the evaluation log of the deterministic optimiser, checked against its stated rules.
#![feature(f128)]
use aether_core::math::Vector;
use aether_monitors::fw::*;
use aether_monitors::num::*;
use aether_opt::gradient_descent::GradientDescentGeneric;
use std::cell::RefCell;
use std::ops::Mul;

#[derive(Clone, Copy, Debug)]
enum E<T: Copy, const N: usize> { F([T; N], T), G([T; N], [T; N]) }

#[derive(Clone, Debug)]
enum Obj<const N: usize> {
    /// 0.5 (x-c)' A (x-c) + k
    Quad { a: [[f64; N]; N], c: [f64; N], k: f64 },
    Rosen, Waves, Abs,
    Flat, Uphill, Cliff, NanOutside(f64), Steep,
}
impl<const N: usize> Obj<N> {
    fn f(&self, x: &[f64; N]) -> f64 {
        match self {
            Obj::Quad { a, c, k } => { let mut s = 0.0; for i in 0..N { for j in 0..N { s += 0.5 * (x[i] - c[i]) * a[i][j] * (x[j] - c[j]) } } s + k }
            Obj::Rosen => (0..N - 1).map(|i| 10.0 * (x[i + 1] - x[i] * x[i]).powi(2) + (1.0 - x[i]).powi(2)).sum::<f64>() + x[N - 1] * x[N - 1] * 0.01,
            Obj::Waves => x.iter().map(|v| v.sin() + 0.01 * v * v).sum(),
            Obj::Abs => x.iter().map(|v| v.abs()).sum(),
            Obj::Flat => 1.0,
            Obj::Uphill => -x.iter().map(|v| v * v).sum::<f64>(),
            Obj::Cliff => x.iter().map(|v| if *v > 0.3 { v + 100.0 } else { v * v }).sum(),
            Obj::NanOutside(r) => { let s: f64 = x.iter().map(|v| v * v).sum(); if s > r * r { f64::NAN } else { s } }
            Obj::Steep => x.iter().map(|v| v.powi(6)).sum(),
        }
    }
    fn g(&self, x: &[f64; N]) -> [f64; N] {
        std::array::from_fn(|i| match self {
            Obj::Quad { a, c, .. } => (0..N).map(|j| a[i][j] * (x[j] - c[j])).sum(),
            Obj::Rosen => { let mut s = 0.0; if i + 1 < N { s += -40.0 * x[i] * (x[i + 1] - x[i] * x[i]) - 2.0 * (1.0 - x[i]) } if i > 0 { s += 20.0 * (x[i] - x[i - 1] * x[i - 1]) } if i == N - 1 { s += 0.02 * x[i] } s }
            Obj::Waves => x[i].cos() + 0.02 * x[i],
            Obj::Abs => if x[i] >= 0.0 { 1.0 } else { -1.0 },
            Obj::Flat => 0.5,
            // a gradient with the wrong sign: every step goes up
            Obj::Uphill => 2.0 * x[i],
            Obj::Cliff | Obj::NanOutside(_) => 2.0 * x[i],
            Obj::Steep => 6.0 * x[i].powi(5),
        })
    }
    fn name(&self) -> &'static str { match self { Obj::Quad { .. } => "quadratic", Obj::Rosen => "rosenbrock", Obj::Waves => "waves", Obj::Abs => "abs", Obj::Flat => "flat", Obj::Uphill => "wrong gradient", Obj::Cliff => "cliff", Obj::NanOutside(_) => "nan outside", Obj::Steep => "sextic" } }
}
fn quad<const N: usize>(r: &mut Rng, cond: f64) -> (Obj<N>, f64, f64) {
    // A = sum of reflections of a diagonal: eigenvalues known
    let d: [f64; N] = std::array::from_fn(|i| if i == 0 { 1.0 } else { r.logu(1.0, cond) });
    let sc = r.logu(0.1, 10.0);
    let mut a = [[0.0; N]; N];
    for i in 0..N { a[i][i] = d[i] * sc }
    for _ in 0..2 {
        let u: [f64; N] = std::array::from_fn(|_| r.normal());
        let n: f64 = u.iter().map(|v| v * v).sum::<f64>();
        if n < 1e-9 { continue }
        let h: [[f64; N]; N] = std::array::from_fn(|i| std::array::from_fn(|j| (i == j) as u8 as f64 - 2.0 * u[i] * u[j] / n));
        let ha: [[f64; N]; N] = std::array::from_fn(|i| std::array::from_fn(|j| (0..N).map(|k| h[i][k] * a[k][j]).sum()));
        a = std::array::from_fn(|i| std::array::from_fn(|j| (0..N).map(|k| ha[i][k] * h[k][j]).sum()));
    }
    let (mn, mx) = (d.iter().cloned().fold(f64::MAX, f64::min) * sc, d.iter().cloned().fold(0.0, f64::max) * sc);
    (Obj::Quad { a, c: std::array::from_fn(|_| r.normal() * 2.0), k: *r.pick(&[0.0, 0.0, 1.0, -3.0]) }, mn, mx)
}
type Bounds<T, const N: usize> = Option<([T; N], [T; N])>;
fn bounds<T: Num, const N: usize>(r: &mut Rng) -> Bounds<T, N> {
    if r.chance(0.3) { return None }
    let (mut lo, mut hi) = ([T::of(f64::NEG_INFINITY); N], [T::of(f64::INFINITY); N]);
    for i in 0..N { match r.below(5) { 0 => {} 1 => lo[i] = T::of(r.normal()), 2 => hi[i] = T::of(r.normal()), 3 => { let v = T::of(r.normal()); lo[i] = v; hi[i] = v } _ => { let (a, b) = (r.normal(), r.normal()); lo[i] = T::of(a.min(b)); hi[i] = T::of(a.max(b)) } } }
    Some((lo, hi))
}
fn proj<T: Num, const N: usize>(b: &Bounds<T, N>, x: [T; N]) -> [T; N] { match b { None => x, Some((lo, hi)) => std::array::from_fn(|i| if x[i] < lo[i] { lo[i] } else if x[i] > hi[i] { hi[i] } else { x[i] }) } }
fn bitseq<T: Num, const N: usize>(a: &[T; N], b: &[T; N]) -> bool { (0..N).all(|i| a[i] == b[i]) }
fn nrm<T: Num, const N: usize>(a: &[T; N]) -> f64 { a.iter().map(|v| v.f() * v.f()).sum::<f64>().sqrt() }

fn run<T: Num + Mul<Output = T>, const N: usize>(r: &mut Rng, c: &mut Case) where Vector<T, N>: Copy {
    let (mut lmin, mut lmax) = (0.0, 0.0);
    let solve = r.chance(0.35); // a well-posed convex problem to be solved
    let obj = match if solve { 0 } else { r.below(10) } { 0 | 9 => { let (q, a, b) = quad::<N>(r, if solve { 30.0 } else { 1e3 }); lmin = a; lmax = b; q } 1 if N > 1 => Obj::Rosen, 1 | 2 => Obj::Waves, 3 => Obj::Abs, 4 => Obj::Flat, 5 => Obj::Uphill, 6 => Obj::Cliff, 7 => Obj::NanOutside(r.logu(0.5, 10.0)), _ => Obj::Steep };
    let b = bounds::<T, N>(r);
    let x0: [T; N] = std::array::from_fn(|_| T::of(match r.below(4) { 0 => r.normal(), 1 => r.normal() * 5.0, 2 => 0.0, _ => r.int(-3, 3) as f64 }));
    let mut gd = GradientDescentGeneric::<T, N>::new();
    let bt = if solve { true } else { r.chance(0.6) };
    let lr = if solve { r.logu(0.1, 10.0) / lmax } else { match r.below(8) { 0 => r.logu(1e-4, 1e-1), 1 => *r.pick(&[0.0, -1.0]), 2 => 1e10, 3 if bt => *r.pick(&[f64::INFINITY, f64::NAN]), 4 => 1.0, _ => r.logu(1e-3, 1.0) } };
    let (c1, tau) = if solve { (r.logu(2e-3, 0.3), r.range(0.3, 0.8)) } else { (*r.pick(&[0.0, 1e-4, 0.1, 0.5, 0.9]), match r.below(6) { 0 => -1.0, 1 => 1.0, 2 => f64::NAN, 3 => 0.9, 4 => 0.1, _ => r.range(0.05, 0.95) }) };
    let mu = if solve || r.chance(0.5) { 0.0 } else { *r.pick(&[0.5, 0.9, 0.3, -1.0, 5.0]) };
    let (tg, ts) = if solve { let e = if T::U > 1e-10 { 1e-3 } else { 1e-7 }; (e * lmax.min(1.0), e * r.logu(0.01, 1.0)) } else { (*r.pick(&[0.0, 1e-6, 1e-2, -1.0]), *r.pick(&[0.0, 1e-6, 1e-3, -1.0])) };
    let iters = if solve { 20_000 } else { *r.pick(&[0u32, 1, 2, 10, 40, 120]) };
    // options left alone keep their documented defaults
    let keep = if !solve && r.chance(0.2) { r.below(32) } else { 0 };
    let (bt, (c1, tau), lr, mu, (tg, ts)) = (bt || keep & 1 != 0, if keep & 2 != 0 { (1e-4, 0.5) } else { (c1, tau) }, if keep & 4 != 0 { 1e-2 } else { lr }, if keep & 8 != 0 { 0.0 } else { mu }, if keep & 16 != 0 { (1e-6, 1e-6) } else { (tg, ts) });
    let lr = if bt || lr.is_finite() { lr } else { 1.0 };
    c.ok(gd.max_iters == 10_000, "default-iterations", || format!("{}", gd.max_iters));
    if keep & 1 == 0 { gd.backtracking(bt); }
    if keep & 2 == 0 { gd.armijo(T::of(c1), T::of(tau)); }
    if keep & 4 == 0 { gd.learning_rate(T::of(lr)); }
    if keep & 8 == 0 { gd.momentum(T::of(mu)); }
    if keep & 16 == 0 { gd.tolerances(T::of(tg), T::of(ts)); }
    if keep != 0 { c.ev("runs with default options") }
    gd.max_iters(iters);
    if r.chance(0.1) { gd.set_bounds([T::of(1.0); N], [T::of(2.0); N]); gd.clear_bounds(); }
    if let Some((lo, hi)) = b { gd.set_bounds(lo, hi); }
    c.mix(hash_str(&format!("{obj:?}{b:?}{x0:?}{bt}{lr}{c1}{tau}{mu}{iters}")));
    let log: RefCell<Vec<E<T, N>>> = RefCell::new(vec![]);
    let arr = |x: &Vector<T, N>| -> [T; N] { std::array::from_fn(|i| x[i]) };
    let f64s = |x: &[T; N]| -> [f64; N] { std::array::from_fn(|i| x[i].f()) };
    let val = |x: &[T; N]| T::of(obj.f(&f64s(x)));
    let budget = std::cell::Cell::new(0u64);
    // 1e-20 is reached after at most log(lr/1e-20)/log(1/tau) shrinks
    let teff = { let t = T::of(tau); if !(t > T::ZERO) { 0.5 } else if t >= T::ONE { 0.9 } else { t.f() } };
    let lre = if lr.is_finite() { lr.max(0.0) } else { 1.0 };
    let trials = (((lre.max(1e-20) / 1e-20).ln() / (1.0 / teff).ln()).ceil() as u64 + 3) * if bt { 1 } else { 0 } + 1;
    let cap = 4 + (iters as u64) * trials;
    let what = || format!("{} N={N} {} bounds {b:?} start {x0:?} lr {lr} backtracking {bt} c1 {c1} tau {tau} momentum {mu} tol {tg} {ts} limit {iters}", T::NAME, obj.name());
    let res = guard(|| gd.minimize(Vector::new(x0),
        |x| { budget.set(budget.get() + 1); if budget.get() > cap { panic!("objective evaluated more than {cap} times") } let p = arr(x); let v = val(&p); log.borrow_mut().push(E::F(p, v)); v },
        |x| { let p = arr(x); let g = obj.g(&f64s(&p)).map(T::of); log.borrow_mut().push(E::G(p, g)); Vector::new(g) }));
    let (x, fx, used, conv) = match res { Ok(v) => v, Err(e) => return c.fail("did-not-terminate", format!("{e}; {}", what())) };
    let x = arr(&x);
    let log = log.into_inner();
    c.ev("runs");
    c.ev(T::NAME);
    let p0 = proj(&b, x0);
    if !bitseq(&p0, &x0) { c.ev("start outside the bounds") }
    let inb = |p: &[T; N]| bitseq(&proj(&b, *p), p);
    // feasibility of everything evaluated and returned
    let tame = lr.is_finite() && log.iter().all(|e| match e { E::G(p, g) => p.iter().chain(g).all(|v| v.f().is_finite()), E::F(p, _) => p.iter().all(|v| v.f().abs() < T::of(f64::MAX).f().min(1e37)) || bt });
    if tame { for e in &log { let (p, k) = match e { E::F(p, _) => (p, "objective"), E::G(p, _) => (p, "gradient") }; if !c.ok(inb(p), "infeasible-evaluation", || format!("{k} evaluated at {p:?}; {}", what())) { break } } }
    if tame { c.ok(inb(&x), "infeasible-result", || format!("returned {x:?}; {}", what())); c.ev("feasibility traces"); }
    // honesty
    let v = val(&x);
    c.ok(v.bits() == fx.bits() || (v.nan() && fx.nan()), "value-of-result", || format!("returned value {fx}, objective at the returned point {v}; {}", what()));
    c.ok(used <= iters && (conv || used == iters), "iterations", || format!("used {used}, converged {conv}; {}", what()));
    let gs: Vec<([T; N], [T; N])> = log.iter().filter_map(|e| if let E::G(p, g) = e { Some((*p, *g)) } else { None }).collect();
    c.ok(gs.len() as u64 <= iters as u64 && (gs.len() as u32 == used || gs.len() as u32 == used + 1), "gradient-count", || format!("{} gradients for {used} iterations; {}", gs.len(), what()));
    // the iterates: every gradient point, then the result
    let mut its: Vec<[T; N]> = gs.iter().map(|(p, _)| *p).collect();
    if its.is_empty() { c.ok(bitseq(&x, &p0), "no-iteration-moves", || format!("returned {x:?} without an iteration; {}", what())); return }
    c.ok(bitseq(&its[0], &p0), "first-iterate", || format!("first gradient at {:?}, projected start {p0:?}; {}", its[0], what()));
    if gs.len() as u32 == used { its.push(x); } else { c.ok(bitseq(&x, its.last().unwrap()), "stopped-elsewhere", || what()); }
    let f0 = val(&p0);
    let (tg, ts) = (tg.max(0.0), ts.max(0.0));
    let finite = gs.iter().all(|(_, g)| g.iter().all(|v| v.f().is_finite()));
    if bt && !f0.nan() {
        for w in its.windows(2) { let (a, z) = (val(&w[0]), val(&w[1])); if !c.ok(z <= a, "line-search-went-up", || format!("f({:?}) = {a} then f({:?}) = {z}; {}", w[0], w[1], what())) { break } if z < a { c.ev("descending line-search steps") } }
        c.ok(fx <= f0, "worse-than-start", || format!("f start {f0}, returned {fx}; {}", what()));
    }
    // stopping rules, both ways
    let gn: Vec<f64> = gs.iter().map(|(_, g)| nrm(g)).collect();
    let sn: Vec<f64> = its.windows(2).map(|w| nrm(&std::array::from_fn::<T, N, _>(|i| w[1][i] - w[0][i]))).collect();
    let sl = 16.0 * T::U;
    if conv {
        let by_g = gs.len() as u32 == used + 1 && *gn.last().unwrap() <= tg * (1.0 + sl) + 4.0 * T::TINY.sqrt();
        let by_s = gs.len() as u32 == used && sn.last().is_some_and(|s| *s <= ts * (1.0 + sl) + 4.0 * T::TINY.sqrt());
        c.ok(by_g || by_s, "converged-without-reason", || format!("gradient norm {:?}, step {:?}; {}", gn.last(), sn.last(), what()));
        c.ev(if by_g { "converged by gradient" } else { "converged by step" });
    } else { c.ev("hit the iteration limit") }
    if finite {
        let early = |v: &[f64], t: f64, n: usize| v.iter().take(n).position(|s| *s < t * (1.0 - sl) && s.is_finite());
        c.ok(early(&gn, tg, gn.len() - (conv && gs.len() as u32 == used + 1) as usize).is_none(), "ignored-gradient-rule", || format!("gradient norms {:?}; {}", &gn[..gn.len().min(6)], what()));
        c.ok(early(&sn, ts, sn.len() - (conv && gs.len() as u32 == used) as usize).is_none(), "ignored-step-rule", || format!("steps {:?}; {}", &sn[..sn.len().min(6)], what()));
    }
    // the update law
    let lrt = { let v = T::of(lr); if v <= T::ZERO { T::ZERO } else { v } };
    let mut_ = { let v = T::of(mu); if v < T::ZERO { T::ZERO } else if v > T::of(0.999999) { T::of(0.999999) } else { v } };
    if !bt && finite && lre < 1e9 {
        for k in 0..its.len() - 1 {
            let mut bad = None;
            for i in 0..N {
                let (xk, g) = (its[k][i].q(), gs[k].1[i].q());
                let vel = if k > 0 { its[k][i].q() - its[k - 1][i].q() } else { 0.0 };
                let un = xk - lrt.q() * g + mut_.q() * vel;
                let want = match &b { Some((lo, hi)) => un.max(lo[i].q()).min(hi[i].q()), None => un };
                let tol = 8.0 * T::U * ((xk.abs() + (lrt.q() * g).abs() + 2.0 * (mut_.q() * vel).abs()) as f64 + if k > 0 { its[k - 1][i].f().abs() } else { 0.0 }) + T::TINY;
                let err = ((its[k + 1][i].q() - want) as f64).abs();
                if !(err <= tol) && want.is_finite() && (want as f64).abs() < 1e30 { bad = Some((i, want as f64, err, tol)); }
            }
            if !c.ok(bad.is_none(), "fixed-step-law", || format!("iteration {k}: (axis, expected, error, tolerance) {bad:?}, got {:?} from {:?} gradient {:?}; {}", its[k + 1], its[k], gs[k].1, what())) { break }
            if mut_ > T::ZERO && k > 0 { c.ev("momentum steps compared") }
        }
        c.ev("fixed-step traces");
    }
    if bt && finite && lr.is_finite() && lrt > T::ZERO && lre < 1e9 {
        // between two gradients: trials at lr, lr tau, ...; the first satisfying sufficient decrease is taken
        let mut k = 0usize;
        let mut i = log.iter().position(|e| matches!(e, E::G(..))).unwrap();
        while i < log.len() {
            let E::G(p, g) = log[i] else { break };
            let fp = val(&p).f();
            // direction: steepest descent with momentum, or without where that would climb
            let w: [f64; N] = std::array::from_fn(|d| if k > 0 { mut_.f() * (p[d].f() - its[k - 1][d].f()) / lrt.f() } else { 0.0 });
            let (gw, g0) = ((0..N).map(|d| g[d].f() * w[d]).sum::<f64>(), nrm(&g).powi(2));
            let unsure = (gw - g0).abs() <= 1e3 * T::U * ((0..N).map(|d| (g[d].f() * w[d]).abs()).sum::<f64>() + g0) + 1e3 * T::TINY;
            let climbs = gw >= g0 && mut_ > T::ZERO;
            let dir: [f64; N] = std::array::from_fn(|d| -g[d].f() + if climbs { 0.0 } else { w[d] });
            let g2 = if climbs { g0 } else { g0 - gw };
            if mut_ > T::ZERO && unsure { while { i += 1; i < log.len() && matches!(log[i], E::F(..)) } {} k += 1; c.ev("direction too close to call"); continue }
            if k > 0 && mut_ > T::ZERO { c.ev(if climbs { "climbing momentum dropped" } else { "line searches along momentum" }) }
            let mut j = i + 1;
            let mut s = lrt.f();
            let mut bad = None;
            while j < log.len() { let E::F(q, fq) = log[j] else { break };
                for d in 0..N { let want = p[d].f() + s * dir[d]; let want = match &b { Some((lo, hi)) => if want < lo[d].f() { lo[d].f() } else if want > hi[d].f() { hi[d].f() } else { want }, None => want }; let tol = 64.0 * (j - i) as f64 * T::U * s * (g[d].f().abs() + w[d].abs()) + 4.0 * T::U * (p[d].f().abs() + want.abs()) + T::TINY; if !((q[d].f() - want).abs() <= tol) && want.abs() < 1e30 { bad = Some(format!("trial {} at {q:?}, expected axis {d} {want}", j - i - 1)) } }
                let last = !matches!(log.get(j + 1), Some(E::F(..)));
                let slope = if b.is_some() { (0..N).map(|d| g[d].f() * (q[d].f() - p[d].f())).sum::<f64>().min(0.0) } else { -s * g2 };
                let rhs = fp + T::of(c1).f() * slope;
                let slack = 16.0 * N as f64 * T::TINY + 8.0 * T::U * (fp.abs() + fq.f().abs() + s * g2) + if b.is_some() { 8.0 * T::U * (0..N).map(|d| g[d].f().abs() * (q[d].f().abs() + p[d].f().abs())).sum::<f64>() } else { 0.0 } + if mut_ > T::ZERO { 32.0 * T::U * s * (g0 + gw.abs()) } else { 0.0 };
                if !last && fq.f() < rhs - slack && fq.f().is_finite() { bad = Some(format!("trial {} satisfied sufficient decrease ({} < {rhs}) and was not taken", j - i - 1, fq)) }
                if last && bitseq(&its[(k + 1).min(its.len() - 1)], &q) && fq.f() > rhs + slack { bad = Some(format!("accepted trial {} without sufficient decrease ({} > {rhs})", j - i - 1, fq)) }
                if !last { c.ev("rejected trials") }
                s *= teff; j += 1; }
            if !c.ok(bad.is_none(), "line-search-law", || format!("iteration {k} from {p:?}: {}; {}", bad.clone().unwrap(), what())) { break }
            k += 1; i = j;
        }
        c.ev(if b.is_some() { "bounded line-search traces" } else { "line-search traces" });
    }
    if solve {
        if let Obj::Quad { k, .. } = &obj {
            let g = obj.g(&f64s(&x));
            let res = nrm(&std::array::from_fn::<T, N, _>(|i| { let y = T::of(x[i].f() - g[i]); let y = match &b { Some((lo, hi)) => if y < lo[i] { lo[i] } else if y > hi[i] { hi[i] } else { y }, None => y }; T::of(x[i].f() - y.f()) }));
            let s = lrt.f().min(teff * 2.0 * (1.0 - c1) / lmax);
            let big = v.f().abs() + f0.f().abs() * T::U + k.abs() + x.iter().map(|v| v.f().abs()).fold(0.0, f64::max).powi(2) * lmax;
            let tol = 4.0 * (tg + (1.0f64.max(1.0 / s) + lmax + 2.0) * ts + (256.0 * T::U * big * (1.0 / s + lmax)).sqrt());
            c.close("constrained-minimiser", res, 0.0, tol, || format!("projected gradient at {x:?}, smallest curvature {lmin}; {}", what()));
            c.ev("convex problems solved");
            if b.is_some() { c.ev("bounded convex problems solved") }
        }
    }
    c.state(hash_str(&format!("{}{bt}{conv}{}{}", obj.name(), b.is_some(), mut_ > T::ZERO)));
}

/// a tolerance met exactly is met: all quantities are powers of two, so no rounding decides
fn equality<T: Num + Mul<Output = T>, const N: usize>(r: &mut Rng, c: &mut Case) where Vector<T, N>: Copy {
    let (ax, e, l) = (r.below(N), r.int(-6, 6) as i32, r.int(-6, 3) as i32);
    let (g, lr) = (r.sign() * 2f64.powi(e), 2f64.powi(l));
    let kind = r.below(4); // zero gradient, gradient at the tolerance, step at the tolerance, zero step
    let (g, lr, tg, ts) = match kind { 0 => (0.0, lr, 0.0, 0.0), 1 => (g, lr, g.abs(), 0.0), 2 => (g, lr, 0.0, g.abs() * lr), _ => (g, 0.0, 0.0, 0.0) };
    let bt = r.chance(0.5) && kind != 3;
    let mut gd = GradientDescentGeneric::<T, N>::new();
    gd.backtracking(bt).armijo(T::of(0.5), T::of(0.5)).learning_rate(T::of(lr)).momentum(T::ZERO).tolerances(T::of(tg), T::of(ts)).max_iters(50);
    let x0: [T; N] = std::array::from_fn(|i| if i == ax { T::ZERO } else { T::of(r.int(-4, 4) as f64) });
    let big = r.chance(0.5);
    if big { gd.set_bounds([T::of(-1e6); N], [T::of(1e6); N]); }
    c.mix(hash_str(&format!("{ax}{g}{lr}{kind}{bt}{big}{}", T::NAME)));
    let what = || format!("{} N={N} linear objective slope {g} on axis {ax}, step {lr}, backtracking {bt}, tolerances {tg} {ts}", T::NAME);
    let (x, _, used, conv) = match guard(|| gd.minimize(Vector::new(x0), |x| T::of(g) * x[ax], |_| Vector::new(std::array::from_fn(|i| if i == ax { T::of(g) } else { T::ZERO })))) { Ok(v) => v, Err(e) => return c.fail("panic", format!("{e}; {}", what())) };
    c.ok(conv && used <= 1, "ignored-exact-tolerance", || format!("converged {conv} after {used} iterations at {:?}; {}", (0..N).map(|i| x[i].f()).collect::<Vec<_>>(), what()));
    c.ev("tolerances met exactly");
}
fn main() {
    let mut ctx = Ctx::from_args("C18");
    ctx.family("trace", 20_000, 500_000, |r, c| match r.below(7) { 0 => run::<f64, 1>(r, c), 1 => run::<f64, 2>(r, c), 2 => run::<f64, 3>(r, c), 3 => run::<f64, 6>(r, c), 4 => run::<f32, 1>(r, c), 5 => run::<f32, 2>(r, c), _ => run::<f32, 4>(r, c) });
    ctx.family("equality", 4_000, 40_000, |r, c| match r.below(4) { 0 => equality::<f64, 1>(r, c), 1 => equality::<f64, 3>(r, c), 2 => equality::<f32, 2>(r, c), _ => equality::<f32, 1>(r, c) });
    ctx.require("tolerances met exactly", 1000);
    for e in ["start outside the bounds", "descending line-search steps", "converged by gradient", "converged by step", "hit the iteration limit", "fixed-step traces", "line-search traces", "momentum steps compared", "rejected trials", "bounded convex problems solved", "line searches along momentum", "bounded line-search traces"] { ctx.require(e, 200) }
    ctx.require("runs with default options", 300);
    ctx.require("climbing momentum dropped", 30);
    ctx.finish();
}
