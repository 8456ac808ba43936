//! C12: one-step integrators against their polynomials in binary128, Newton's iteration replayed from its call log.
#![feature(f128)]
use aether_core::attitude::Euler;
use aether_core::coordinate::Cartesian;
use aether_core::math::Vector;
use aether_core::numerical_methods::integration::{EulerIntegrate, Rk4Integrate, TrapezoidalIntegrate};
use aether_core::numerical_methods::solvers::newton::NewtonRaphson;
use aether_core::reference_frame::ReferenceFrame;
use aether_monitors::fw::*;
use aether_monitors::num::*;
use std::cell::RefCell;
type Q = f128;
#[derive(Debug, Clone, Copy, PartialEq, Default)] struct A;
impl ReferenceFrame for A {}
#[derive(Debug, Clone, Copy, PartialEq, Default)] struct B;
impl ReferenceFrame for B {}

/// state types of the integrators, seen as plain arrays
trait State<T: Num, const N: usize>: Rk4Integrate<T> + EulerIntegrate<T> + TrapezoidalIntegrate<Scalar = T> + Sized {
    const NAME: &'static str;
    fn mk(x: [T; N]) -> Self;
    fn arr(&self) -> [T; N];
}
impl<T: Num, const N: usize> State<T, N> for Vector<T, N> { const NAME: &'static str = "vector"; fn mk(x: [T; N]) -> Self { Vector::new(x) } fn arr(&self) -> [T; N] { self.data } }
impl<T: Num> State<T, 3> for Cartesian<T, A> { const NAME: &'static str = "cartesian"; fn mk(x: [T; 3]) -> Self { Cartesian::new(x[0], x[1], x[2]) } fn arr(&self) -> [T; 3] { self.data.data } }
impl<T: Num> State<T, 3> for Euler<T, A, B> { const NAME: &'static str = "euler"; fn mk(x: [T; 3]) -> Self { Euler::new(x[0], x[1], x[2]) } fn arr(&self) -> [T; 3] { self.data.data } }

fn steps<T: Num>(r: &mut Rng) -> T { T::of(match r.below(8) { 0 => 0.0, 1 => r.sign() * r.logu(1e-9, 1e-3), 2 => r.sign() * r.logu(1.0, 50.0), 3 => *r.pick(&[1.0, 0.5, 0.1, -1.0, 0.01]), _ => r.sign() * r.logu(1e-3, 1.0) }) }
fn q<T: Num, const N: usize>(x: [T; N]) -> [Q; N] { x.map(|v| v.q()) }
fn mx(x: &[Q]) -> f64 { x.iter().fold(0.0 as Q, |a, v| if v.abs() > a { v.abs() } else { a }) as f64 }

/// nonlinear test right-hand sides, component i of f(x), with any scalar
fn nl(kind: usize, i: usize, x: &[Q]) -> Q {
    let n = x.len(); let (a, b) = (x[i], x[(i + 1) % n]);
    match kind { 0 => a * (1.0 - a), 1 => b * b - a, 2 => (a + b).sin(), 3 => 1.0 / (1.0 + a * a), _ => -a * a * b / 4.0 }
}
fn rk4<T: Num, const N: usize, S: State<T, N>>(r: &mut Rng, c: &mut Case) {
    let f = fill(r);
    let x: [T; N] = std::array::from_fn(|_| draw(r, f));
    let dt: T = steps(r);
    for v in x.iter().chain([&dt]) { c.mix(v.bits()); }
    let (h, xq) = (dt.q(), q(x));
    if r.chance(0.6) {
        // linear system x' = A x + b: one step is the degree-4 Taylor polynomial of the flow
        let g = *r.pick(&[Fill::Int, Fill::Norm, Fill::Sparse, Fill::Wide]);
        let s = 1.0 / (N as f64 * (1.0 + dt.f().abs())) * r.logu(1e-2, 2.0);
        let a: [[T; N]; N] = std::array::from_fn(|_| std::array::from_fn(|_| { let v: T = draw(r, g); T::of((v.f() * s).clamp(-100.0, 100.0)) }));
        let b: [T; N] = std::array::from_fn(|_| if r.chance(0.5) { T::of(0.0) } else { draw(r, Fill::Norm) });
        let rhs = |s: &S| { let x = s.arr(); S::mk(std::array::from_fn(|i| { let mut t = b[i]; for j in 0..N { t += a[i][j] * x[j]; } t })) };
        let got = match guard(|| S::mk(x).integrate_rk4(rhs, dt).arr()) { Ok(v) => q(v), Err(e) => { c.fail("panic", e); return; } };
        let mut term: [Q; N] = std::array::from_fn(|i| b[i].q() + (0..N).map(|j| a[i][j].q() * xq[j]).sum::<Q>());
        let mut want = xq; let mut fac = h;
        for k in 2..=5 {
            for i in 0..N { want[i] += fac * term[i]; }
            term = std::array::from_fn(|i| (0..N).map(|j| a[i][j].q() * term[j]).sum::<Q>());
            fac = fac * h / k as Q;
        }
        let l = h.abs() as f64 * (0..N).map(|i| a[i].iter().map(|v| v.f().abs()).sum::<f64>()).fold(0.0, f64::max);
        let tol = 16.0 * T::U * (1.0 + l).powi(4) * (N as f64 + 8.0) * (mx(&xq) + h.abs() as f64 * mx(&q(b))) + T::TINY;
        for i in 0..N { c.close("rk4-linear", got[i] as f64, want[i] as f64, tol, || format!("{} {} N={N} component {i} x={x:?} dt={dt:?} A={a:?} b={b:?}", S::NAME, T::NAME)); }
        c.ev("linear RK4 steps");
    } else {
        let kind = r.below(5);
        // well-conditioned range for the nonlinear fields
        let x: [T; N] = std::array::from_fn(|_| T::of(r.range(-1.5, 1.5)));
        let dt = T::of(dt.f().clamp(-0.4, 0.4)); let h = dt.q(); let xq = q(x);
        let calls = RefCell::new(0usize);
        let rhs = |s: &S| { *calls.borrow_mut() += 1; let x = q(s.arr()); S::mk(std::array::from_fn(|i| T::of(nl(kind, i, &x) as f64))) };
        let got = match guard(|| S::mk(x).integrate_rk4(rhs, dt).arr()) { Ok(v) => q(v), Err(e) => { c.fail("panic", e); return; } };
        let ev = |x: &[Q; N]| -> [Q; N] { std::array::from_fn(|i| nl(kind, i, x)) };
        let at = |k: &[Q; N], s: Q| -> [Q; N] { std::array::from_fn(|i| xq[i] + s * k[i]) };
        let k1 = ev(&xq); let k2 = ev(&at(&k1, h / 2.0)); let k3 = ev(&at(&k2, h / 2.0)); let k4 = ev(&at(&k3, h));
        for i in 0..N {
            let w = xq[i] + h / 6.0 * (k1[i] + 2.0 * k2[i] + 2.0 * k3[i] + k4[i]);
            c.close("rk4-nonlinear", got[i] as f64, w as f64, 3e3 * T::U, || format!("{} {} field {kind} component {i} x={x:?} dt={dt:?}", S::NAME, T::NAME));
        }
        if dt.f() == 0.0 { c.ok((0..N).all(|i| got[i] == xq[i]), "zero-step", || format!("{} x={x:?}", S::NAME)); }
        c.state((kind * 8 + N) as u64);
        c.ev("nonlinear RK4 steps");
    }
    // increment integrators
    let y: [T; N] = std::array::from_fn(|_| draw(r, f));
    let (e, t) = (S::mk(x).integrate_euler(dt).arr(), S::mk(x).integrate_trapezoidal(&S::mk(y), dt).arr());
    for i in 0..N {
        let (a, b) = (x[i].q(), y[i].q());
        c.close("euler-increment", e[i].f(), (a * h) as f64, 2.0 * T::U * (a * h).abs() as f64 + T::TINY, || format!("{} {} x={x:?} dt={dt:?} got {e:?}", S::NAME, T::NAME));
        c.close("trapezoid-increment", t[i].f(), ((a + b) / 2.0 * h) as f64, 4.0 * T::U * ((a.abs() + b.abs()) / 2.0 * h.abs()) as f64 + T::TINY, || format!("{} {} x={x:?} last={y:?} dt={dt:?} got {t:?}", S::NAME, T::NAME));
    }
    if dt.f() == 0.0 { c.ok(e.iter().chain(&t).all(|v| v.f() == 0.0), "zero-step", || format!("{e:?} {t:?}")); c.ev("zero steps"); }
    c.ev("increments");
}
/// histories: accumulated quadratures and order of convergence
fn history<T: Num>(r: &mut Rng, c: &mut Case) {
    // piecewise-linear signal: the accumulated trapezoid is its exact integral
    let n = 3 + r.below(if c.thorough { 300 } else { 40 });
    let mut last: [T; 3] = std::array::from_fn(|_| T::of(r.normal()));
    let (mut acc, mut want, mut mag) = (Vector::new([T::of(0.0); 3]), [0.0 as Q; 3], 0.0f64);
    let (mut ea, mut ew) = (Vector::new([T::of(0.0); 3]), [0.0 as Q; 3]);
    for _ in 0..n {
        let now: [T; 3] = std::array::from_fn(|_| T::of(r.normal()));
        let dt = T::of(r.logu(1e-3, 1.0));
        acc = acc + Vector::new(now).integrate_trapezoidal(&Vector::new(last), dt);
        ea = ea + Vector::new(last).integrate_euler(dt);
        for i in 0..3 { want[i] += (now[i].q() + last[i].q()) / 2.0 * dt.q(); ew[i] += last[i].q() * dt.q(); mag += ((now[i].f().abs() + last[i].f().abs()) * dt.f()).abs(); }
        last = now;
        c.mix(dt.bits());
    }
    for i in 0..3 {
        c.close("trapezoid-history", acc.data[i].f(), want[i] as f64, T::U * mag * (n as f64 + 4.0), || format!("{} steps", n));
        c.close("euler-history", ea.data[i].f(), ew[i] as f64, T::U * mag * (n as f64 + 4.0), || format!("{} steps", n));
    }
    // order: logistic growth has a closed form
    let x0 = r.range(0.05, 0.9); let end = r.range(1.0, 4.0);
    let run = |m: usize| { let h = end / m as f64; let mut x = Vector::new([x0]); for _ in 0..m { x = x.integrate_rk4(|v| Vector::new([v.data[0] * (1.0 - v.data[0])]), h); } x.data[0] };
    let exact = { let e = (end as Q).exp() * x0 as Q; (e / (1.0 - x0 as Q + e)) as f64 };
    let (m1, m2) = (8, 32);
    let (e1, e2) = ((run(m1) - exact).abs(), (run(m2) - exact).abs());
    c.mixf(x0); c.mixf(end);
    let bound = 2e-2 * (end / m2 as f64).powi(4) * end;
    c.ok(e2 <= bound, "rk4-error-bound", || format!("x0={x0} end={end}: errors {e1:e} {e2:e} bound {bound:e}"));
    c.ev("integration histories");
}
fn newton<T: Num>(r: &mut Rng, c: &mut Case) {
    let kind = r.below(7);
    let p = 2 + r.below(4);
    let a = r.logu(1e-3, 1e3);
    let co: Vec<f64> = (0..=4).map(|_| r.int(-5, 5) as f64).collect();
    let f = |x: f64| match kind { 0 | 1 => x.powi(p as i32) - a, 2 => x * x + a, 3 => co.iter().rev().fold(0.0, |s, k| s * x + k), 4 => x.cos() - x, 5 => 3.0, _ => x.atan() };
    let df = |x: f64| { let e = 1e-4 * (1.0 + x.abs()); match kind { 0 | 1 => p as f64 * x.powi(p as i32 - 1), 2 => 2.0 * x, 4 => -x.sin() - 1.0, 5 => 0.0, 6 => 1.0 / (1.0 + x * x), _ => (f(x + e) - f(x - e)) / (2.0 * e) } };
    let max = match r.below(6) { 0 => 0, 1 => 1, 2 => r.below(6), _ => 30 + r.below(100) };
    let root = a.powf(1.0 / p as f64);
    let tol = T::of(match r.below(6) { 0 => 0.0, 1 => f64::NAN, _ => r.logu(if T::U > 1e-10 { 1e-4 } else { 1e-10 }, 1e-2) * root.max(0.1) });
    let guess = T::of(match kind { 0 => root * r.range(1.0, 20.0), 2 if r.chance(0.3) => 0.0, _ => r.wild(5.0) });
    c.mix(guess.bits()); c.mix(tol.bits()); c.mix(kind as u64); c.mix(max as u64); c.mixf(a);
    let log = RefCell::new(Vec::<(T, T)>::new());
    let dlog = RefCell::new(Vec::<(T, T)>::new());
    let res = guard(|| NewtonRaphson::new(tol, max).solve(guess,
        |x: T| { if log.borrow().len() > max + 5 { panic!("more than {max} iterations"); } let v = T::of(f(x.f())); log.borrow_mut().push((x, v)); v },
        |x: T| { if dlog.borrow().len() > max + 5 { panic!("more than {max} iterations"); } let v = T::of(df(x.f())); dlog.borrow_mut().push((x, v)); v }));
    let (log, dlog) = (log.into_inner(), dlog.into_inner());
    let ctx = || format!("{} kind {kind} p={p} a={a} guess={guess:?} tol={tol:?} max={max}: {res:?} after {} evaluations, last {:?} slope {:?}", T::NAME, log.len(), log.last(), dlog.last());
    let res2 = match &res { Ok(v) => v, Err(_) => { c.fail("panic-or-loop", ctx()); return; } };
    c.ok(log.len() <= max && dlog.len() <= max, "iteration-limit", ctx);
    // the visited points follow the Newton recurrence
    let value = |x: T| T::of(f(x.f())); let slope = |x: T| T::of(df(x.f()));
    let next = |x: T| x - value(x) / slope(x);
    let near = |a: T, b: T| { let (a, b) = (a.f(), b.f()); a.to_bits() == b.to_bits() || a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 8.0 * T::U * (a.abs() + b.abs()) };
    if let Some((x0, _)) = dlog.first() { c.ok(x0.bits() == guess.bits(), "starts-at-guess", ctx); }
    let pts: Vec<T> = dlog.iter().map(|p| p.0).collect();
    for w in pts.windows(2) {
        let n = next(w[0]);
        let big = (n.f() - w[0].f()).abs() + w[0].f().abs();
        if !c.ok(near(n, w[1]) || (n.f() - w[1].f()).abs() <= 8.0 * T::U * big, "recurrence", || format!("{:?} -> {:?} expected {n:?}; {}", w[0], w[1], ctx())) { return; }
    }
    let step = |x: T| (next(x).f() - x.f()).abs();
    let slack = |x: T| 16.0 * T::U * (x.f().abs() + next(x).f().abs());
    match res2 {
        Ok(x) => {
            let g = match pts.last() { Some(g) => *g, None => { c.fail("answer-without-evaluation", ctx()); return; } };
            c.ok(slope(g).f() != 0.0 && (near(next(g), *x) || (next(g).f() - x.f()).abs() <= slack(g)) && (x.f() - g.f()).abs() < tol.f() + slack(g), "answer-within-tolerance", ctx);
            if kind == 0 { c.close("root", x.f(), root, (p as f64 - 1.0) * tol.f() + 64.0 * T::U * root, ctx); c.ev("roots found on convex functions"); }
            c.ok(kind != 5 && (kind != 2 || a < 20.0 * tol.f() * (1.0 + x.f().abs() + tol.f())), "answer-without-root", ctx);
            c.ev("solver answers");
        }
        Err(_) => {
            match pts.last() {
                Some(g) if slope(*g).f() == 0.0 => { c.ev("vanishing slope refusals"); }
                _ => { c.ok(dlog.len() == max, "gave-up-early", ctx); c.ev("iteration limit refusals"); }
            }
            // no visited step may have satisfied the tolerance
            for g in &pts { if slope(*g).f() != 0.0 { c.ok(!(step(*g) < tol.f() - slack(*g)), "ignored-convergence", || format!("at {g:?}; {}", ctx())); } }
            if kind == 0 && max >= 100 && tol.f() > 0.0 { c.fail("no-convergence", ctx()); }
        }
    }
    c.state(kind as u64 * 4 + match res2 { Ok(_) => 0, Err(_) => 1 });
    c.sample(ctx);
}
fn main() {
    let mut x = Ctx::from_args("C12");
    x.family("rk4", 40_000, 1_500_000, |r, c| match c.idx % 10 {
        0 => rk4::<f64, 1, Vector<f64, 1>>(r, c), 1 => rk4::<f64, 2, Vector<f64, 2>>(r, c), 2 => rk4::<f64, 4, Vector<f64, 4>>(r, c), 3 => rk4::<f64, 6, Vector<f64, 6>>(r, c),
        4 => rk4::<f32, 3, Vector<f32, 3>>(r, c), 5 => rk4::<f64, 3, Cartesian<f64, A>>(r, c), 6 => rk4::<f32, 3, Cartesian<f32, A>>(r, c), 7 => rk4::<f64, 3, Euler<f64, A, B>>(r, c), 8 => rk4::<f32, 3, Euler<f32, A, B>>(r, c),
        _ => rk4::<f64, 13, Vector<f64, 13>>(r, c) });
    x.family("history", 4_000, 60_000, |r, c| if c.idx % 3 == 0 { history::<f32>(r, c) } else { history::<f64>(r, c) });
    x.family("newton", 60_000, 2_000_000, |r, c| if c.idx % 3 == 0 { newton::<f32>(r, c) } else { newton::<f64>(r, c) });
    for (e, n) in [("linear RK4 steps", 1000), ("nonlinear RK4 steps", 1000), ("increments", 1000), ("zero steps", 100), ("integration histories", 500), ("solver answers", 1000), ("vanishing slope refusals", 100), ("iteration limit refusals", 100), ("roots found on convex functions", 500)] { x.require(e, n); }
    x.finish()
}
