//! C05: attitude propagation against the exact solution of q' = 1/2 q w in binary128.
#![feature(f128)]
use aether_core::attitude::{Quaternion, Rotation};
use aether_core::coordinate::Cartesian;
use aether_core::math::Vector;
use aether_core::reference_frame::ReferenceFrame;
use aether_monitors::fw::*;
use aether_monitors::num::*;

type Q = f128;
type Q4 = [Q; 4];
#[derive(Debug, Clone, Copy, PartialEq, Default)] struct A;
impl ReferenceFrame for A {}
#[derive(Debug, Clone, Copy, PartialEq, Default)] struct B;
impl ReferenceFrame for B {}

fn ham(p: &Q4, o: &Q4) -> Q4 {
    [p[0]*o[0]-p[1]*o[1]-p[2]*o[2]-p[3]*o[3], p[0]*o[1]+p[1]*o[0]+p[2]*o[3]-p[3]*o[2], p[0]*o[2]-p[1]*o[3]+p[2]*o[0]+p[3]*o[1], p[0]*o[3]+p[1]*o[2]-p[2]*o[1]+p[3]*o[0]]
}
fn nrm(q: &[Q]) -> Q { q.iter().fold(0.0, |s: Q, x| s + x * x).sqrt() }
fn scale(q: &Q4, s: Q) -> Q4 { q.map(|x| x * s) }
fn qq<T: Num, F: ReferenceFrame, G: ReferenceFrame>(q: &Quaternion<T, F, G>) -> Q4 { [q.w().q(), q.i().q(), q.j().q(), q.k().q()] }
/// exp of half the rotation vector
fn delta(w: &[Q; 3], dt: Q) -> Q4 {
    let m = nrm(w);
    if m == 0.0 { return [1.0, 0.0, 0.0, 0.0]; }
    let h = m * dt / 2.0;
    let (c, s) = (h.cos(), h.sin() / m);
    [c, w[0] * s, w[1] * s, w[2] * s]
}
/// distance of two unit quaternions as rotations (sign-free)
fn dist(a: &Q4, b: &Q4) -> f64 {
    let d = |s: Q| nrm(&[a[0] - s * b[0], a[1] - s * b[1], a[2] - s * b[2], a[3] - s * b[3]]) as f64;
    let (p, m) = (d(1.0), d(-1.0));
    if p < m { p } else if m <= p { m } else { f64::NAN }
}
fn unit<T: Num>(r: &mut Rng) -> Quaternion<T, A, B> {
    let q = match r.below(4) { 0 => { let mut q = [0.0; 4]; q[r.below(4)] = r.sign(); q } _ => r.unit4() };
    let q = Quaternion::new(T::of(q[0]), T::of(q[1]), T::of(q[2]), T::of(q[3]));
    q.normalized()
}
fn rate<T: Num>(r: &mut Rng) -> [T; 3] {
    let m = match r.below(6) { 0 => 0.0, 1 => r.logu(1e-12, 1e-3), 2 => r.logu(1.0, 1e3), _ => r.logu(1e-3, 10.0) };
    let mut u = r.unit3();
    if r.chance(0.3) { let i = r.below(3); u = [0.0; 3]; u[i] = r.sign(); }
    u.map(|x| T::of(x * m))
}
fn step<T: Num>(r: &mut Rng) -> T {
    T::of(match r.below(6) { 0 => 0.0, 1 => r.sign() * r.logu(1e-9, 1e-3), 2 => r.sign() * r.logu(1.0, 20.0), _ => r.sign() * r.logu(1e-3, 1.0) })
}
fn v3<T: Num>(w: &[T; 3]) -> [Q; 3] { [w[0].q(), w[1].q(), w[2].q()] }

fn constant<T: Num>(r: &mut Rng, c: &mut Case) {
    let (q, mut w, mut dt) = (unit::<T>(r), rate::<T>(r), step::<T>(r));
    if r.chance(0.15) {
        // extreme rates over matching steps: the angle stays of order one
        let e = if T::U > 1e-10 { 14.0 } else { 100.0 };
        let m = 10f64.powf(r.range(-e, e));
        w = r.unit3().map(|x| T::of(x * m));
        dt = T::of(r.sign() * r.logu(1e-3, 6.0) / m);
        c.ev("extreme rates");
    }
    for x in q.data.data.iter().chain(&w) { c.mix(x.bits()); }
    let (wq, tq) = (v3(&w), dt.q());
    let angle = (nrm(&wq) * tq).abs() as f64;
    let tol = T::U * (24.0 + 8.0 * angle);
    let ctx = || format!("{} q={:?} w={w:?} dt={dt:?}", T::NAME, q.data.data);
    let d = Quaternion::<T, B, B>::from_angular_velocity(Vector::new(w), dt);
    let want = delta(&wq, tq);
    c.close("rate-quaternion", dist(&qq(&d), &want), 0.0, tol, || format!("got {:?} want {:?} {}", d.data.data, want.map(|x| x as f64), ctx()));
    let rot = Rotation::from_quaternion(q);
    let one = rot.integrate(Vector::new(w), dt);
    let exact = ham(&qq(&q), &want);
    c.close("one-step", dist(&qq(one.quaternion()), &exact), 0.0, tol + 16.0 * T::U, || format!("got {:?} want {:?} {}", one.quaternion().data.data, exact.map(|x| x as f64), ctx()));
    c.close("unit", nrm(&qq(one.quaternion())) as f64, 1.0, 24.0 * T::U, || ctx());
    if angle == 0.0 { c.ev("zero rotations"); }
    if dt.f() < 0.0 { c.ev("reversed steps"); }
    // there and back
    let back = one.integrate(Vector::new(w), -dt);
    c.close("there-and-back", dist(&qq(back.quaternion()), &qq(&q)), 0.0, 2.0 * tol + 32.0 * T::U, || ctx());
    // split into sub-steps
    let n = 1 + r.below(12);
    let mut s = rot;
    let h = dt / T::of(n as f64);
    for _ in 0..n { s = s.integrate(Vector::new(w), h); }
    c.close("sub-steps", dist(&qq(s.quaternion()), &exact), 0.0, 2.0 * tol + 32.0 * T::U * n as f64, || format!("{n} sub-steps {}", ctx()));
    c.evn("exact-solution steps", 2 + n as u64);
    c.state(((angle.max(1e-30).log2() as i64) as u64) ^ (n as u64) << 32);
    c.sample(|| ctx());
}

fn history<T: Num>(r: &mut Rng, c: &mut Case) {
    let n = if c.thorough { 20_000 } else { 1500 };
    let q = unit::<T>(r);
    let mut s = Rotation::from_quaternion(q);
    let mut e = qq(&q);
    let mut tol = 16.0 * T::U;
    for k in 0..n {
        let (w, dt) = (rate::<T>(r), T::of(step::<T>(r).f() * 0.1));
        let a = (nrm(&v3(&w)) * dt.q()).abs() as f64;
        s = s.integrate(Vector::new(w), dt);
        e = ham(&e, &delta(&v3(&w), dt.q()));
        tol += T::U * (24.0 + 8.0 * a);
        c.mix(w[0].bits());
        if k % 97 == 0 || k + 1 == n {
            if !c.close("history", dist(&qq(s.quaternion()), &e), 0.0, tol, || format!("{} after {k} steps", T::NAME)) { return; }
            if !c.close("history-unit", nrm(&qq(s.quaternion())) as f64, 1.0, 16.0 * T::U * (k as f64 + 2.0), || format!("{} after {k} steps", T::NAME)) { return; }
        }
    }
    c.evn("steps in long histories", n);
}

/// Rate plus angular acceleration: Taylor solution of q' = 1/2 q (w + a t) in binary128.
fn accel<T: Num>(r: &mut Rng, c: &mut Case) {
    let q0 = unit::<T>(r);
    let s = T::of(if r.chance(0.3) { r.logu(0.2, 5.0) } else { 1.0 });
    let q = Quaternion::<T, A, B>::new(q0.w() * s, q0.i() * s, q0.j() * s, q0.k() * s);
    let dt = T::of(match r.below(5) { 0 => 0.0, _ => r.sign() * r.logu(1e-3, 0.3) });
    let (mut w, mut a) = ([T::of(0.0); 3], [T::of(0.0); 3]);
    let m = r.below(4);
    if m != 0 { let k = r.logu(0.05, 3.0); w = r.unit3().map(|x| T::of(x * k)); }
    if m != 1 { let k = r.logu(0.05, 3.0); a = r.unit3().map(|x| T::of(x * k)); }
    for x in q.data.data.iter().chain(&w).chain(&a) { c.mix(x.bits()); }
    let n0 = nrm(&qq(&q));
    let mut cur = scale(&qq(&q), 1.0 / n0);
    let mut prev: Q4 = [0.0; 4];
    let (wq, aq) = (v3(&w), v3(&a));
    let (wq, aq): (Q4, Q4) = ([0.0, wq[0], wq[1], wq[2]], [0.0, aq[0], aq[1], aq[2]]);
    let (mut sum, mut p, mut rem): (Q4, Q, Q) = (cur, 1.0, 0.0);
    for n in 1..60 {
        let (x, y) = (ham(&cur, &wq), ham(&prev, &aq));
        let mut next: Q4 = [0.0; 4];
        for i in 0..4 { next[i] = (x[i] + y[i]) / (2.0 * n as Q); }
        prev = cur;
        cur = next;
        p *= dt.q();
        for i in 0..4 { sum[i] += cur[i] * p; }
        if n >= 4 { rem += nrm(&cur) * p.abs(); }
    }
    let got = q.integrate(Cartesian::new(w[0], w[1], w[2]), Cartesian::new(a[0], a[1], a[2]), dt);
    let tol = 2.2 * rem as f64 + 64.0 * T::U;
    let ctx = || format!("{} q={:?} w={w:?} a={a:?} dt={dt:?}", T::NAME, q.data.data);
    c.close("rate-and-acceleration", dist(&qq(&got), &sum), 0.0, tol, || format!("got {:?} want {:?} {}", got.data.data, sum.map(|x| x as f64), ctx()));
    c.close("rate-and-acceleration-unit", nrm(&qq(&got)) as f64, 1.0, 16.0 * T::U, || ctx());
    if dt.f() == 0.0 { c.ev("zero steps"); } else { c.ev("accelerated steps"); }
    c.sample(|| ctx());
}

macro_rules! table { ($r:expr, $case:expr; $($f:expr),* $(,)?) => {{
    let t: &[fn(&mut Rng, &mut Case)] = &[$($f),*];
    let k = ($case.idx as usize) % t.len();
    t[k]($r, $case)
}} }
fn main() {
    let mut x = Ctx::from_args("C05");
    x.family("constant-rate", 20_000, 1_000_000, |r, c| table!(r, c; constant::<f64>, constant::<f64>, constant::<f32>));
    x.family("history", 32, 200, |r, c| table!(r, c; history::<f64>, history::<f32>));
    x.family("acceleration", 12_000, 500_000, |r, c| table!(r, c; accel::<f64>, accel::<f64>, accel::<f32>));
    x.require("exact-solution steps", 5000);
    x.require("accelerated steps", 2000);
    x.require("zero steps", 100);
    x.require("reversed steps", 500);
    x.finish()
}
