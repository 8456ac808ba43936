//! C06: reference-frame transforms against their textbook matrices in binary128.
#![feature(f128)]
#![allow(non_snake_case)]
use aether_core::attitude::DirectionCosineMatrix as Dcm;
use aether_core::coordinate::Cartesian;
use aether_core::math::{Matrix, Vector};
use aether_core::reference_frame::transforms::*;
use aether_core::reference_frame::*;
use aether_monitors::fw::*;
use aether_monitors::la;
use aether_monitors::num::*;
type Q = f128;

fn r1(axis: usize, a: Q) -> la::M {
    let (c, s) = (a.cos(), a.sin());
    let (p, q) = ((axis + 1) % 3, (axis + 2) % 3);
    let mut m = la::eye(3);
    m[p][p] = c; m[q][q] = c; m[p][q] = s; m[q][p] = -s;
    m
}
fn mul3(a: &la::M, b: &la::M, d: &la::M) -> la::M { la::mul(&la::mul(a, b), d) }
fn mm<T: Num>(m: &Matrix<T, 3, 3>) -> la::M { m.data.iter().map(|r| r.iter().map(|x| x.q()).collect()).collect() }
fn diff(a: &la::M, b: &la::M) -> f64 {
    let mut m = 0.0f64;
    for i in 0..3 { for j in 0..3 { let e = (a[i][j] - b[i][j]).abs() as f64; if e.is_nan() { return f64::INFINITY; } if e > m { m = e; } } }
    m
}
fn f(m: &la::M) -> Vec<Vec<f64>> { m.iter().map(|r| r.iter().map(|x| *x as f64).collect()).collect() }
fn same(c: &mut Case, key: &'static str, got: &la::M, want: &la::M, tol: f64, ctx: &dyn Fn() -> String) -> bool {
    c.close(key, diff(got, want), 0.0, tol, || format!("{} got {:?} want {:?}", ctx(), f(got), f(want)))
}
fn rigid(c: &mut Case, key: &'static str, m: &la::M, tol: f64, ctx: &dyn Fn() -> String) {
    let e = diff(&la::mul(m, &la::tr(m)), &la::eye(3));
    let d = (la::inv_det(m).1 - 1.0).abs() as f64;
    c.close(key, e.max(d), 0.0, tol, || format!("not a proper rotation: {} {:?}", ctx(), f(m)));
}
fn angle<T: Num>(r: &mut Rng) -> T {
    let h = std::f64::consts::FRAC_PI_2;
    T::of(match r.below(6) { 0 => h * r.int(-4, 4) as f64, 1 => h * r.int(-4, 4) as f64 + r.sign() * r.logu(1e-12, 1e-3), 2 => r.range(-50.0, 50.0), _ => r.range(-3.2, 3.2) })
}

fn angles<T: Num>(r: &mut Rng, c: &mut Case) {
    let (a, b, g) = (angle::<T>(r), angle::<T>(r), angle::<T>(r));
    for x in [a, b, g] { c.mix(x.bits()); }
    let (qa, qb, qg) = (a.q(), b.q(), g.q());
    let tol = 16.0 * T::U;
    let ctx = || format!("{} a={a:?} b={b:?} g={g:?}", T::NAME);
    // rate matrix: M v = w x v, antisymmetric
    let m = mm(&angular_rate_dcm(a, b, g));
    let w = [qa, qb, qg];
    let v = [r.normal() as Q, r.normal() as Q, r.normal() as Q];
    let (x, y) = (la::mulv(&m, &v), la::cross(&w, &v));
    c.ok(x.iter().zip(&y).all(|(p, q)| (p - q).abs() <= 1e-25 * (1.0 + q.abs()) * 100.0), "rate-matrix", || format!("{} {:?}", ctx(), f(&m)));
    // wind axes relative to the body: rotate by -alpha about y, then by beta about z
    let m = mm(&aircraft_wind_to_body(a, b));
    rigid(c, "wind-rigid", &m, 4.0 * tol, &ctx);
    same(c, "wind-value", &m, &la::mul(&r1(2, qb), &r1(1, -qa)), tol, &ctx);
    // aeroballistic wind relative to the body: roll about x by -phi', then -alpha' about y
    let m = mm(&aeroballistic_wind_to_body(a, b));
    rigid(c, "aeroballistic-rigid", &m, 4.0 * tol, &ctx);
    same(c, "aeroballistic-value", &m, &la::mul(&r1(1, -qa), &r1(0, -qb)), tol, &ctx);
    // flight path relative to geographic: heading about z, then flight path angle about y
    let m = mm(&flight_path_to_geographic(a, b));
    rigid(c, "flight-path-rigid", &m, 4.0 * tol, &ctx);
    same(c, "flight-path-value", &m, &la::mul(&r1(1, qb), &r1(2, qa)), tol, &ctx);
    // body and local level: roll-pitch-yaw; either direction of the pair, but exactly one of them
    let d = body_to_ned(a, b, g);
    let m = mm(d.as_matrix());
    rigid(c, "body-ned-rigid", &m, 4.0 * tol, &ctx);
    let nb = mul3(&r1(0, qa), &r1(1, qb), &r1(2, qg));
    let (e1, e2) = (diff(&m, &nb), diff(&m, &la::tr(&nb)));
    c.close("body-ned-value", e1.min(e2), 0.0, tol, || format!("{} got {:?}", ctx(), f(&m)));
    c.ok(e2 <= tol, "body-to-ned-direction", || format!("the transform typed body to local level maps local level to body: {} got {:?} want {:?}", ctx(), f(&m), f(&la::tr(&nb))));
    // Earth-fixed to local level: rows are north, east, down at that latitude and longitude
    let d = itrf_to_ned(a, b);
    let m = mm(d.as_matrix());
    rigid(c, "local-level-rigid", &m, 4.0 * tol, &ctx);
    let (sp, cp, sl, cl) = (qa.sin(), qa.cos(), qb.sin(), qb.cos());
    same(c, "local-level-value", &m, &vec![vec![-sp * cl, -sp * sl, cp], vec![-sl, cl, 0.0], vec![-cp * cl, -cp * sl, -sp]], tol, &ctx);
    let p: Cartesian<T, NED<T>> = d * Cartesian::<T, ITRF<T>>::new(T::of((cp * cl) as f64), T::of((cp * sl) as f64), T::of(sp as f64));
    for (i, want) in [0.0, 0.0, -1.0].iter().enumerate() { c.close("up-is-minus-down", p.data.data[i].f(), *want, 4.0 * tol, || ctx()); }
    c.ev("angle transforms");
    c.state(hash_str(T::NAME) ^ (((a.f() * 4.0).round() as i64 & 15) << 8 | ((b.f() * 4.0).round() as i64 & 15)) as u64);
    c.sample(|| ctx());
}

fn earth<T: Num>(r: &mut Rng, c: &mut Case) {
    let wz = T::of(match r.below(4) { 0 => 7.292115e-5, 1 => -7.292115e-5, 2 => r.range(-1.0, 1.0), _ => 7.2921151467e-5 });
    let t = T::of(match r.below(5) { 0 => 0.0, 1 => r.range(-86164.1, 86164.1), 2 => r.range(-3e9, 3e9) * 7.3e-5 / wz.f().abs().max(1e-5), 3 => r.int(-100, 100) as f64 * 43082.05, _ => r.range(0.0, 1e5) });
    c.mix(wz.bits());
    c.mix(t.bits());
    let w = Cartesian::<T, ITRF<T>>::new(T::of(r.normal()), T::of(r.normal()), wz);
    let th = wz.q() * t.q();
    let tol = T::U * (8.0 + 2.0 * (th.abs() as f64));
    let ctx = || format!("{} wz={wz:?} t={t:?}", T::NAME);
    let (ci, ic) = (icrf_to_itrf(t, w), itrf_to_icrf(t, w));
    let (a, b) = (mm(ci.as_matrix()), mm(ic.as_matrix()));
    same(c, "inertial-to-fixed", &a, &r1(2, th), tol, &ctx);
    same(c, "fixed-to-inertial", &b, &r1(2, -th), tol, &ctx);
    rigid(c, "inertial-rigid", &a, 32.0 * T::U, &ctx);
    rigid(c, "fixed-rigid", &b, 32.0 * T::U, &ctx);
    same(c, "pair-inverse", &la::mul(&a, &b), &la::eye(3), 32.0 * T::U, &ctx);
    let v = Cartesian::<T, ICRF<T>>::new(T::of(r.normal() * 7e6), T::of(r.normal() * 7e6), T::of(r.normal() * 7e6));
    let back = ic * (ci * v);
    for i in 0..3 { c.close("position-round-trip", back.data.data[i].f(), v.data.data[i].f(), 32.0 * T::U * la::norm(&v.data.data.map(|x| x.q())) as f64, || ctx()); }
    // the rotating frame itself
    let itrf = ITRF::<T> { epoch: T::of(match r.below(3) { 0 => 0.0, 1 => r.range(-1e5, 1e5), _ => t.f() }) };
    let om = itrf.angular_velocity();
    c.ok(itrf.epoch() == itrf.epoch && om.x().f() == 0.0 && om.y().f() == 0.0 && (om.z().f() - 7.2921150e-5).abs() < 1e-11, "earth-rate", || format!("{:?}", om.data));
    let q = itrf.orientation_at(t);
    let dt = t.q() - itrf.epoch.q();
    let th = 7.2921150e-5f64 as Q * dt;
    let tol = T::U * (8.0 + 4.0 * (th.abs() as f64)) + 7.3e-5 * T::U * (t.f().abs() + itrf.epoch.f().abs());
    let qv = [q.w().q(), q.i().q(), q.j().q(), q.k().q()];
    let w = [(th / 2.0).cos(), 0.0, 0.0, (th / 2.0).sin()];
    for i in 0..4 { c.close("orientation", qv[i] as f64, w[i] as f64, tol, || format!("[{i}] {} epoch={:?}", ctx(), itrf.epoch)); }
    let d = mm(Dcm::from(&q).as_matrix());
    same(c, "orientation-matrix", &d, &r1(2, th), 4.0 * tol + 32.0 * T::U, &ctx);
    c.ev("Earth rotation transforms");
    c.sample(|| ctx());
}

fn holders<T: Num>(r: &mut Rng, c: &mut Case) {
    let v = [T::of(r.normal()), T::of(r.normal()), T::of(r.normal()), T::of(r.normal()), T::of(r.normal()), T::of(r.normal())];
    for x in v { c.mix(x.bits()); }
    let b = Body::new(Cartesian::new(v[0], v[1], v[2]), Cartesian::new(v[3], v[4], v[5]));
    let a = Assembly::new(Cartesian::new(v[0], v[1], v[2]), Cartesian::new(v[3], v[4], v[5]));
    c.ok(b.mass_center.data.data == [v[0], v[1], v[2]] && b.lever_arm.data.data == [v[3], v[4], v[5]], "body-keeps", || format!("{v:?}"));
    c.ok(a.mass_center.data.data == [v[0], v[1], v[2]] && a.lever_arm.data.data == [v[3], v[4], v[5]], "assembly-keeps", || format!("{v:?}"));
    let z = Vector::<T, 3>::zeros();
    let (bd, ad) = (Body::<T>::default(), Assembly::<T>::default());
    c.ok(bd.mass_center.data == z && bd.lever_arm.data == z && ad.mass_center.data == z && ad.lever_arm.data == z, "holder-default", || String::new());
    let p = Pose::<T, Body<T>>::identity();
    let x = Cartesian::<T, Body<T>>::new(v[0], v[1], v[2]);
    let y = p.R_local_to_assembly * x;
    c.ok(y.data.data == x.data.data && p.r_cm_in_assembly.data == z && p.R_local_to_assembly.as_matrix() == &Matrix::identity(), "pose-identity", || format!("{:?}", y.data));
    c.ev("frame holders");
}
macro_rules! table { ($r:expr, $case:expr; $($f:expr),* $(,)?) => {{
    let t: &[fn(&mut Rng, &mut Case)] = &[$($f),*];
    let k = ($case.idx as usize) % t.len();
    t[k]($r, $case)
}} }
fn main() {
    let mut x = Ctx::from_args("C06");
    x.family("angles", 20_000, 800_000, |r, c| table!(r, c; angles::<f64>, angles::<f64>, angles::<f32>));
    x.family("earth-rotation", 20_000, 800_000, |r, c| table!(r, c; earth::<f64>, earth::<f64>, earth::<f32>));
    x.family("holders", 1000, 10_000, |r, c| table!(r, c; holders::<f64>, holders::<f32>));
    x.require("angle transforms", 1000);
    x.require("Earth rotation transforms", 1000);
    x.finish()
}
