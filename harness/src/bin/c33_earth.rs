//! C33: the Earth model's rotation, apparent forces and gravity-gradient torque against mechanics in binary128.
#![feature(f128)]
use aether_core::coordinate::Cartesian;
use aether_core::math::Matrix;
use aether_core::reference_frame::{ICRF, ITRF};
use aether_models::terrestrial::{earth::Earth, iers::constants as ie, wgs84::transforms as tf};
use aether_monitors::{fw::*, la, num::*};
type Q = f128;
const U: f64 = f64::EPSILON;
const RATE: f64 = 7.292115146706979e-5;

fn it(v: [f64; 3]) -> Cartesian<f64, ITRF<f64>> { Cartesian::new(v[0], v[1], v[2]) }
fn qv(v: [f64; 3]) -> Vec<Q> { v.iter().map(|x| *x as Q).collect() }
fn rate(r: &mut Rng) -> f64 { match r.below(5) { 0 => 0.0, 1 => r.sign() * r.logu(1e-12, 10.0), 2 => -RATE, _ => RATE } }
fn vec3(r: &mut Rng, lo: f64, hi: f64) -> [f64; 3] {
    let s = r.logu(lo, hi);
    match r.below(8) { 0 => { let k = r.below(3); std::array::from_fn(|i| if i == k { r.sign() * s } else { 0.0 }) } 1 => [0.0; 3], 2 => { let mut v: [f64; 3] = std::array::from_fn(|_| r.normal() * s); v[r.below(3)] *= 1e-9; v } _ => std::array::from_fn(|_| r.normal() * s) }
}
fn time(r: &mut Rng) -> f64 { match r.below(7) { 0 => 0.0, 1 => r.int(-1000, 1000) as f64 * 43082.05, 2 => r.sign() * r.logu(1e-9, 1.0), 3 => r.range(-4e9, 4e9), 4 => (r.int(-100_000, 100_000) * 3600) as f64, _ => r.range(-2e5, 2e5) } }
/// rows of the matrix that takes inertial axes to axes turned by the angle about z
fn turned(a: Q) -> la::M { let (c, s) = (a.cos(), a.sin()); vec![vec![c, s, 0.0], vec![-s, c, 0.0], vec![0.0, 0.0, 1.0]] }

fn rotation(r: &mut Rng, c: &mut Case) {
    let (w, t) = (rate(r), time(r));
    let mut e = if r.chance(0.5) { Earth::new() } else { Earth::default() };
    if w != RATE { e.rotational_velocity = it([0.0, 0.0, w]); c.ev("other rates") }
    c.mixf(w); c.mixf(t);
    let a = w as Q * t as Q;
    let want = turned(a);
    let tol = U * (4.0 + 2.0 * a.abs() as f64);
    let (x, y) = (e.icrf_to_itrf(t), e.itrf_to_icrf(t));
    let ctx = || format!("rate {w:e} time {t:?}: {:?} and back {:?}", x.as_matrix().data, y.as_matrix().data);
    for i in 0..3 { for j in 0..3 {
        c.close("inertial-to-fixed", x.as_matrix()[(i, j)], want[i][j] as f64, tol, ctx);
        c.close("fixed-to-inertial", y.as_matrix()[(i, j)], want[j][i] as f64, tol, ctx);
        let p: Q = (0..3).map(|k| x.as_matrix()[(i, k)] as Q * y.as_matrix()[(k, j)] as Q).sum();
        c.close("mutually-inverse", p as f64, (i == j) as u8 as f64, 8.0 * U, ctx);
    } }
    // one turn after another
    let t2 = time(r);
    let (b, s) = (e.icrf_to_itrf(t2), e.icrf_to_itrf(t + t2));
    let lost = w.abs() * (t.abs() + t2.abs()) * U * 8.0 + 16.0 * U;
    for i in 0..3 { for j in 0..3 {
        let p: Q = (0..3).map(|k| b.as_matrix()[(i, k)] as Q * x.as_matrix()[(k, j)] as Q).sum();
        c.close("turns-add", s.as_matrix()[(i, j)], p as f64, lost, || format!("rate {w:e} times {t:?} {t2:?}"));
    } }
    // a vector there and back, and the axis untouched
    let v = vec3(r, 1e-3, 1e12); let n = la::norm(&qv(v)) as f64;
    let f = x * Cartesian::<f64, ICRF<f64>>::new(v[0], v[1], v[2]);
    let k = y * f;
    for i in 0..3 { c.close("there-and-back", k.data.data[i], v[i], 8.0 * U * n, || format!("{v:?} {}", ctx())); }
    c.ok(f.z() == v[2], "axis-component", || format!("{v:?} became {:?}; {}", f.data.data, ctx()));
    c.close("length", f.norm(), n, 8.0 * U * n, || format!("{v:?} {}", ctx()));
    // single precision
    let (w4, t4) = (w as f32, t as f32);
    let z: Cartesian<f32, ITRF<f32>> = Cartesian::new(0.0, 0.0, w4);
    let (x4, y4) = (tf::icrf_to_itrf(t4, z), tf::itrf_to_icrf(t4, z));
    let a4 = (w4 * t4) as Q; let want = turned(a4);
    for i in 0..3 { for j in 0..3 {
        c.close("single-precision", x4.as_matrix()[(i, j)].f(), want[i][j] as f64, 4e-7, || format!("rate {w4:e} time {t4:?}"));
        c.close("single-precision", y4.as_matrix()[(i, j)].f(), want[j][i] as f64, 4e-7, || format!("back, rate {w4:e} time {t4:?}"));
    } }
    c.ev("rotations");
    c.state((((a as f64).rem_euclid(6.283185307179586) * 10.0) as u64) | ((t < 0.0) as u64) << 8 | (((t.abs() + 1.0).log10()) as u64) << 9);
    c.sample(ctx);
}
fn forces(r: &mut Rng, c: &mut Case) {
    let mut e = Earth::new();
    let w = match r.below(4) { 0 => vec3(r, 1e-9, 1.0), 1 => [0.0, 0.0, rate(r)], _ => [0.0, 0.0, RATE] };
    e.rotational_velocity = it(w);
    if w[0] != 0.0 || w[1] != 0.0 { c.ev("tilted axes") }
    let (p, v) = (vec3(r, 1e-3, 1e12), vec3(r, 1e-6, 3e8));
    let m = match r.below(8) { 0 => 0.0, _ => r.logu(1e-9, 1e25) };
    for x in w.iter().chain(&p).chain(&v) { c.mixf(*x) } c.mixf(m);
    let (wq, pq, vq) = (qv(w), qv(p), qv(v));
    let ctx = || format!("axis {w:?} position {p:?} velocity {v:?} mass {m:e}");
    let cor = e.solve_coriolis_force(it(v), m).data.data;
    let cen = e.solve_centrifugal_force(it(p), m).data.data;
    let (wv, wp) = (la::cross(&wq, &vq), la::cross(&wq, &pq));
    let wwp = la::cross(&wq, &wp);
    let (nw, np, nv, mq) = (la::norm(&wq), la::norm(&pq), la::norm(&vq), m as Q);
    let (sc, sf) = ((2.0 * mq * nw * nv) as f64, (mq * nw * nw * np) as f64);
    for i in 0..3 {
        c.close("coriolis", cor[i], (-2.0 * mq * wv[i]) as f64, 4.0 * U * sc, || format!("{cor:?}; {}", ctx()));
        c.close("centrifugal", cen[i], (-mq * wwp[i]) as f64, 6.0 * U * sf, || format!("{cen:?}; {}", ctx()));
    }
    // the first does no work, the second points straight out from the axis
    c.close("coriolis-work", la::dot(&qv(cor), &vq) as f64, 0.0, 8.0 * U * sc * nv as f64, ctx);
    c.close("centrifugal-along-axis", la::dot(&qv(cen), &wq) as f64, 0.0, 12.0 * U * sf * nw as f64, ctx);
    c.ok(la::dot(&qv(cen), &pq) as f64 >= -24.0 * U * sf * np as f64, "centrifugal-outward", ctx);
    c.ev("apparent forces");
}
/// a body left to itself in inertial space, watched from the turning axes
fn mechanics(r: &mut Rng, c: &mut Case) {
    let w = if r.chance(0.7) { RATE } else { r.sign() * r.logu(1e-7, 1e-2) };
    let mut e = Earth::new(); e.rotational_velocity = it([0.0, 0.0, w]);
    let (t, x0, v0) = (r.range(-1e5, 1e5), vec3(r, 1e3, 1e9), vec3(r, 1.0, 1e5));
    let m = r.logu(1e-3, 1e6);
    for x in x0.iter().chain(&v0) { c.mixf(*x) } c.mixf(t); c.mixf(w);
    let a = w as Q * t as Q;
    let (x, v) = ((0..3).map(|i| x0[i] as Q + v0[i] as Q * t as Q).collect::<Vec<Q>>(), qv(v0));
    let rm = turned(a);
    // R' and R'' of the turning axes
    let (s, k, wq) = (a.sin(), a.cos(), w as Q);
    let d1: la::M = vec![vec![-s * wq, k * wq, 0.0], vec![-k * wq, -s * wq, 0.0], vec![0.0; 3]];
    let d2: la::M = vec![vec![-k * wq * wq, -s * wq * wq, 0.0], vec![s * wq * wq, -k * wq * wq, 0.0], vec![0.0; 3]];
    let ap = |m: &la::M, v: &[Q]| -> Vec<Q> { m.iter().map(|r| la::dot(r, v)).collect() };
    let pos = ap(&rm, &x);
    let vel: Vec<Q> = ap(&d1, &x).iter().zip(ap(&rm, &v)).map(|(a, b)| a + b).collect();
    let acc: Vec<Q> = ap(&d2, &x).iter().zip(ap(&d1, &v)).map(|(a, b)| a + 2.0 * b).collect();
    let f64s = |v: &[Q]| -> [f64; 3] { std::array::from_fn(|i| v[i] as f64) };
    // where the code itself puts the body
    let seen = e.icrf_to_itrf(t) * Cartesian::<f64, ICRF<f64>>::new(x[0] as f64, x[1] as f64, x[2] as f64);
    for i in 0..3 { c.close("seen-from-the-fixed-axes", seen.data.data[i], pos[i] as f64, U * (8.0 + 2.0 * a.abs() as f64) * la::norm(&x) as f64, || format!("t {t} x {x0:?} v {v0:?}")); }
    let (p, u) = (f64s(&pos), f64s(&vel));
    let (cor, cen) = (e.solve_coriolis_force(it(u), m).data.data, e.solve_centrifugal_force(it(p), m).data.data);
    let size = m * (w * w * la::norm(&pos) as f64 + 2.0 * w.abs() * la::norm(&vel) as f64);
    for i in 0..3 { c.close("equation-of-motion", cor[i] + cen[i], m * acc[i] as f64, 16.0 * U * size, || format!("t {t} x0 {x0:?} v0 {v0:?} rate {w} mass {m} coriolis {cor:?} centrifugal {cen:?}")); }
    c.ev("free bodies watched");
}
fn torque(r: &mut Rng, c: &mut Case) {
    let e = if r.chance(0.5) { Earth::new() } else { Earth::default() };
    let mut p = vec3(r, 1.0, 1e12); if p == [0.0; 3] { p = [0.0, 0.0, 7e6] }
    let n = la::norm(&qv(p));
    // inertia with the principal axes along an arbitrary frame, or along the position
    let s = r.logu(1e-6, 1e9);
    let (mut im, kind) = ([[0.0f64; 3]; 3], r.below(4));
    match kind {
        0 => for i in 0..3 { im[i][i] = s },
        1 => for i in 0..3 { im[i][i] = s * r.range(0.5, 1.5) },
        _ => { for i in 0..3 { im[i][i] = s * r.range(1.0, 2.0); for j in 0..i { im[i][j] = s * r.normal() * 0.2; im[j][i] = im[i][j] } } }
    }
    for x in p { c.mixf(x) } for x in im.iter().flatten() { c.mixf(*x) }
    let g = e.solve_gravitational_torque(it(p), Matrix::new(im)).data.data;
    let pq = qv(p);
    let iv: Vec<Q> = (0..3).map(|i| (0..3).map(|j| im[i][j] as Q * pq[j]).sum()).collect();
    let k = 3.0 * 3.986004418e14f128 / (n * n * n * n * n);
    let w: Vec<Q> = la::cross(&pq, &iv).iter().map(|x| x * k).collect();
    let big: Q = im.iter().flatten().map(|x| x.abs() as Q).sum::<Q>() * n * n * k;
    let tol = 8.0 * U * big as f64 + 1e-300;
    let ctx = || format!("position {p:?} inertia {im:?} torque {g:?}");
    for i in 0..3 { c.close("torque", g[i], w[i] as f64, tol, ctx); }
    c.close("torque-across-the-vertical", (la::dot(&qv(g), &pq) / n) as f64, 0.0, 2.0 * tol, ctx);
    if kind == 0 { for i in 0..3 { c.close("spherical-body", g[i], 0.0, tol, ctx); } c.ev("spherical bodies") }
    // the other side of the orbit feels the same
    let o = e.solve_gravitational_torque(it(p.map(|x| -x)), Matrix::new(im)).data.data;
    c.ok(o == g, "torque-even", || format!("{o:?}; {}", ctx()));
    c.ev("torques");
}
fn planet(_r: &mut Rng, c: &mut Case) {
    let (e, d) = (Earth::new(), Earth::default());
    for (n, g, w, tol) in [
        ("mass", e.mass, (3.986004418e14f128 / 6.67428e-11f128) as f64, 1e-4), ("radius", e.radius, 6378136.6, 1e-7), ("mu", e.gravitational_constant, 3.986004418e14, 1e-15), ("mu of the default", d.gravitational_constant, 3.986004418e14, 1e-15),
        ("turns per sidereal day", e.rotational_velocity.z() * 86164.09890369732, 6.283185307179586, 1e-8), ("rate of the default", d.rotational_velocity.z(), e.rotational_velocity.z(), 0.0),
        ("iers mu", ie::geocentric_gravitational_constant, 3.986004418e14, 1e-15), ("iers radius", ie::earth_equatorial_radius, 6378136.6, 1e-7),
    ] { c.mixf(g); c.close("planet", g, w, tol * w.abs(), || format!("{n} = {g:e}")); }
    for x in [&e, &d] { c.ok(x.rotational_velocity.x() == 0.0 && x.rotational_velocity.y() == 0.0, "spin-axis", || format!("{:?}", x.rotational_velocity)); }
    c.ev("planets");
}
fn main() {
    let mut x = Ctx::from_args("C33");
    x.family("rotation", 60_000, 1_500_000, rotation);
    x.family("forces", 100_000, 2_500_000, forces);
    x.family("mechanics", 60_000, 1_500_000, mechanics);
    x.family("torque", 80_000, 2_000_000, torque);
    x.serial("planet", 1, 1, planet);
    for e in ["rotations", "other rates", "apparent forces", "tilted axes", "free bodies watched", "torques", "spherical bodies"] { x.require(e, 1000) }
    x.finish()
}
