//! C08: geodetic <-> Earth-fixed positions on the WGS84 ellipsoid, both inverses, and its derived constants.
#![feature(f128)]
use aether_models::terrestrial::earth::Earth;
use aether_models::terrestrial::wgs84::{constants as k, transforms as tf};
use aether_core::math::Matrix;
use aether_core::coordinate::Cartesian;
use aether_core::reference_frame::{ICRF, ITRF};
use aether_monitors::fw::*;
use aether_monitors::hp::PI;
use aether_monitors::la;
use aether_monitors::num::*;
type Q = f128;

const A: Q = 6378137.0;
const F: Q = 1.0 / 298.257223563;
fn e2() -> Q { F * (2.0 - F) }
/// closed-form position on the ellipsoid normal
fn fwd(lat: Q, lon: Q, h: Q) -> [Q; 3] {
    let s = lat.sin();
    let n = A / (1.0 - e2() * s * s).sqrt();
    [(n + h) * lat.cos() * lon.cos(), (n + h) * lat.cos() * lon.sin(), (n * (1.0 - e2()) + h) * s]
}
fn dist(a: &[Q; 3], b: &[Q; 3]) -> f64 { ((a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])).sqrt() as f64 }

fn lat(r: &mut Rng) -> f64 {
    let h = std::f64::consts::FRAC_PI_2;
    match r.below(8) { 0 => r.sign() * h, 1 => r.sign() * (h - r.logu(1e-12, 1e-2)), 2 => r.sign() * r.logu(1e-14, 1e-2), 3 => 0.0, _ => (r.unit() * 2.0 - 1.0).asin() }
}
fn lon(r: &mut Rng) -> f64 {
    let h = std::f64::consts::FRAC_PI_2;
    match r.below(6) { 0 => h * r.int(-2, 2) as f64, 1 => r.sign() * (2.0 * h - r.logu(1e-13, 1e-2)), _ => r.range(-3.14159, 3.14159) }
}
fn hgt(r: &mut Rng) -> f64 {
    match r.below(6) { 0 => 0.0, 1 => r.range(-10_000.0, 0.0), 2 => r.logu(1e-3, 1e4), 3 => r.logu(1e5, 1e9), 4 => r.range(0.0, 4e7), _ => r.range(-500.0, 30_000.0) }
}

fn forward<T: Num>(r: &mut Rng, c: &mut Case) {
    let wrap = if r.chance(0.2) { 2.0 * std::f64::consts::PI * r.int(-2, 2) as f64 } else { 0.0 };
    let (p, l, h) = (T::of(lat(r)), T::of(lon(r) + wrap), T::of(hgt(r)));
    for x in [p, l, h] { c.mix(x.bits()); }
    let g = tf::geocentric_to_ecef(p, l, h);
    let w = fwd(p.q(), l.q(), h.q());
    let ctx = || format!("{} lat={p:?} lon={l:?} h={h:?} got {:?}", T::NAME, g.data.data);
    let tol = 1e-8 + 24.0 * T::U * (6.4e6 + h.f().abs()) * (1.0 + l.f().abs() / 8.0);
    let gq = [g.x().q(), g.y().q(), g.z().q()];
    c.close("forward", dist(&gq, &w), 0.0, tol, || format!("{} want {:?}", ctx(), w.map(|x| x as f64)));
    c.ev("forward conversions");
    c.sample(ctx);
}

fn inverse<T: Num>(r: &mut Rng, c: &mut Case, name: &'static str, f: impl Fn(T, T, T) -> [T; 3]) {
    let (p, l, h) = (lat(r), lon(r), hgt(r));
    let w = fwd(p as Q, l as Q, h as Q);
    let (x, y, z) = (T::of(w[0] as f64), T::of(w[1] as f64), T::of(w[2] as f64));
    for v in [x, y, z] { c.mix(v.bits()); }
    check_inverse(c, name, x, y, z, Some((p, l, h)), f);
    c.state(((p * 8.0).round() as i64 & 31) as u64 | ((l * 8.0).round() as i64 & 63) as u64 * 32 | ((h.abs() + 1.0).log10() as u64) << 12 | ((h < 0.0) as u64) << 16);
}
fn check_inverse<T: Num>(c: &mut Case, name: &'static str, x: T, y: T, z: T, known: Option<(f64, f64, f64)>, f: impl Fn(T, T, T) -> [T; 3]) {
    let [p, l, h] = f(x, y, z);
    let here = [x.q(), y.q(), z.q()];
    let rad = la::norm(&here) as f64;
    let back = fwd(p.q(), l.q(), h.q());
    let ctx = || format!("{} {name} x={x:?} y={y:?} z={z:?} known {known:?} got lat={p:?} lon={l:?} h={h:?}", T::NAME);
    // 0.1 mm covers the four decimals the semi-minor axis is given with
    let tol = 1e-4 + 64.0 * T::U * rad.max(6.4e6);
    c.close("inverse-position", dist(&back, &here), 0.0, tol, || format!("reconverted {:?} {}", back.map(|x| x as f64), ctx()));
    let pi = std::f64::consts::PI * (1.0 + 2.0 * T::U);
    c.ok(p.f().abs() <= pi / 2.0 && l.f().abs() <= pi, "inverse-range", ctx);
    if let Some((p0, l0, h0)) = known {
        let u = T::U;
        c.close("inverse-height", h.f(), h0, tol, ctx);
        c.close("inverse-latitude", (p.f() - p0) * 6.4e6, 0.0, tol + 8.0 * u * 6.4e6, ctx);
        if p0.abs() < 1.5607 {
            let mut d = (l.f() - l0).abs();
            if d > 3.5 { d = (d - 2.0 * PI as f64).abs(); }
            c.close("inverse-longitude", d, 0.0, 12.0 * u / p0.cos().max(1e-3), ctx);
        }
    }
    c.ev("inverse conversions");
    c.sample(ctx);
}
fn raw<T: Num>(r: &mut Rng, c: &mut Case, f: impl Fn(T, T, T) -> [T; 3], name: &'static str) {
    // positions given directly, on axes and planes; from 6300 km out
    let s = match r.below(3) { 0 => r.range(6.36e6, 7e6), 1 => r.logu(6.4e6, 1e9), _ => 6378137.0 };
    let mut v = r.unit3().map(|x| x * s);
    match r.below(5) {
        0 => { let i = r.below(3); for j in 0..3 { v[j] = if j == i { r.sign() * s } else { 0.0 }; } }
        1 => { v[r.below(2)] = 0.0; }
        2 => { let e = r.logu(1e-12, 1e-4); v = [v[0] * e, v[1] * e, r.sign() * s]; }
        3 => { v[2] *= r.logu(1e-12, 1e-4); let q = s / (v[0] * v[0] + v[1] * v[1]).sqrt(); v[0] *= q; v[1] *= q; }
        _ => {}
    }
    let v = v.map(T::of);
    for x in v { c.mix(x.bits()); }
    check_inverse(c, name, v[0], v[1], v[2], None, f);
}
fn fer<T: Num>(x: T, y: T, z: T) -> [T; 3] { tf::ecef_to_geocentric_ferrari(x, y, z).data }
fn itr<T: Num>(x: T, y: T, z: T) -> [T; 3] { tf::ecef_to_geocentric(x, y, z).data }

fn agree(r: &mut Rng, c: &mut Case) {
    let (p, l, h) = (lat(r), lon(r), hgt(r));
    let e = if r.chance(0.5) { Earth::new() } else { Earth::default() };
    for x in [p, l, h] { c.mixf(x); }
    let g = e.geocentric_to_ecef(p, l, h);
    let (a, b) = (e.ecef_to_geocentric_ferrari(g.x(), g.y(), g.z()), e.ecef_to_geocentric(g.x(), g.y(), g.z()));
    let ctx = || format!("lat={p} lon={l} h={h} ecef={:?} ferrari={:?} iterative={:?}", g.data.data, a.data, b.data);
    let tol = 1e-4 + 1e-13 * h.abs();
    c.close("earth-forward", dist(&[g.x() as Q, g.y() as Q, g.z() as Q], &fwd(p as Q, l as Q, h as Q)), 0.0, 1e-8 + 4e-15 * (6.4e6 + h.abs()), ctx);
    for v in [&a, &b] {
        let back = fwd(v[0] as Q, v[1] as Q, v[2] as Q);
        c.close("earth-round-trip", dist(&back, &[g.x() as Q, g.y() as Q, g.z() as Q]), 0.0, tol, ctx);
        c.close("earth-height", v[2], h, tol, ctx);
    }
    c.close("inverses-agree-height", a[2], b[2], 2.0 * tol, ctx);
    c.close("inverses-agree-latitude", a[0], b[0], 2e-11, ctx);
    // hemispheres mirror
    let m = e.geocentric_to_ecef(-p, l, h);
    c.ok((m.x() - g.x()).abs() <= 1e-8 * (1.0 + h.abs() * 1e-7) && (m.z() + g.z()).abs() <= 1e-8 * (1.0 + h.abs() * 1e-7), "mirror", ctx);
    // Earth rotation of this model
    let w = 7.292115146706979e-5;
    let t = match r.below(4) { 0 => 0.0, 1 => r.range(-1e5, 1e5), 2 => r.range(-3e9, 3e9), _ => r.int(-10, 10) as f64 * 43082.0 };
    let (x, y) = (e.icrf_to_itrf(t), e.itrf_to_icrf(t));
    let th = w as Q * t as Q;
    let want = [[th.cos(), th.sin(), 0.0], [-th.sin(), th.cos(), 0.0], [0.0, 0.0, 1.0 as Q]];
    let tol = 1.2e-16 * (8.0 + 2.0 * th.abs() as f64);
    for i in 0..3 { for j in 0..3 {
        c.close("earth-rotation", x.as_matrix()[(i, j)], want[i][j] as f64, tol, || format!("[{i}][{j}] t={t}"));
        c.close("earth-rotation-back", y.as_matrix()[(i, j)], want[j][i] as f64, tol, || format!("[{i}][{j}] t={t}"));
    } }
    let v = Cartesian::<f64, ICRF<f64>>::new(r.normal() * 1e7, r.normal() * 1e7, r.normal() * 1e7);
    let back = y * (x * v);
    for i in 0..3 { c.close("earth-rotation-inverse", back.data.data[i], v.data.data[i], 1e-14 * (1.0 + v.data.norm()), || format!("t={t}")); }
    // apparent forces of the rotating frame
    let (pos, vel, ms) = ([r.normal() * 7e6, r.normal() * 7e6, r.normal() * 7e6], [r.normal() * 7e3, r.normal() * 7e3, r.normal() * 7e3], r.logu(1e-3, 1e6));
    let ic = |v: [f64; 3]| Cartesian::<f64, ITRF<f64>>::new(v[0], v[1], v[2]);
    let cor = e.solve_coriolis_force(ic(vel), ms).data.data;
    let cen = e.solve_centrifugal_force(ic(pos), ms).data.data;
    let wc = [2.0 * ms * w * vel[1], -2.0 * ms * w * vel[0], 0.0];
    let wf = [ms * w * w * pos[0], ms * w * w * pos[1], 0.0];
    for i in 0..3 {
        c.close("coriolis", cor[i], wc[i], 1e-15 * 8.0 * wc[i].abs(), || format!("v={vel:?} m={ms} {cor:?}"));
        c.close("centrifugal", cen[i], wf[i], 1e-15 * 8.0 * wf[i].abs(), || format!("r={pos:?} m={ms} {cen:?}"));
    }
    // gravity-gradient torque 3 mu / r^5 (r x I r)
    let (d, o) = ([r.logu(1.0, 1e3), r.logu(1.0, 1e3), r.logu(1.0, 1e3)], [r.normal(), r.normal(), r.normal()]);
    let im = [[d[0], o[0], o[1]], [o[0], d[1], o[2]], [o[1], o[2], d[2]]];
    let tq = e.solve_gravitational_torque(ic(pos), Matrix::new(im)).data.data;
    let pq = pos.map(|x| x as Q).to_vec();
    let iv: Vec<Q> = (0..3).map(|i| (0..3).fold(0.0, |s, j| s + im[i][j] as Q * pq[j])).collect();
    let rr = la::norm(&pq);
    let sc = 3.0 * 3.986004418e14 as Q / (rr * rr * rr * rr * rr);
    let wq: Vec<Q> = la::cross(&pq, &iv).iter().map(|x| x * sc).collect();
    let mag = (rr * la::norm(&iv) * sc) as f64;
    for i in 0..3 { c.close("gravity-gradient-torque", tq[i], wq[i] as f64, 4e-15 * mag, || format!("r={pos:?} I={im:?} {tq:?}")); }
    c.ev("model agreement sweeps");
}

fn constants(_r: &mut Rng, c: &mut Case) {
    let w: Q = 7.292115e-5;
    let gm: Q = 3.986004418e14;
    let b = A * (1.0 - F);
    let es = e2();
    let e = es.sqrt();
    let ep2 = es / (1.0 - es);
    let ep = ep2.sqrt();
    let ee = A * e;
    let m = w * w * A * A * b / gm;
    let q0 = 0.5 * ((1.0 + 3.0 / ep2) * ep.atan() - 3.0 / ep);
    let j2 = es / 3.0 * (1.0 - 2.0 / 15.0 * m * ep / q0);
    let r2 = A * (0.5 * (1.0 + (1.0 - es) / e * (0.5 * ((1.0 + e) / (1.0 - e)).ln()))).sqrt();
    let t: &[(&str, f64, Q, f64)] = &[
        ("a", k::a, A, 0.0), ("GM", k::GM, gm, 0.0), ("w", k::w, w, 1e-20), ("c", k::c, 299792458.0, 0.0), ("G", k::G, 6.67428e-11, 1e-25),
        ("b", k::b, b, 1e-4), ("f", k::f, F, 1e-15), ("e", k::e, e, 1e-14), ("e2", k::e2, es, 1e-14), ("e_prime", k::e_prime, ep, 1e-14),
        ("e_prime_squared", k::e_prime_squared, ep2, 1e-14), ("E", k::E, ee, 1e-7), ("R_p", k::R_p, A * A / b, 1e-4), ("AR", k::AR, b / A, 1e-11),
        ("R_1", k::R_1, (2.0 * A + b) / 3.0, 1e-3), ("R_2", k::R_2, r2, 1e-3), ("R_3", k::R_3, (A * A * b).powf(1.0 / 3.0), 1e-2),
        ("m", k::m, m, 1e-14), ("J2geo", k::J2geo, j2, 1e-12), ("c20geo", k::c20geo, -j2 / (5.0 as Q).sqrt(), 1e-14),
        ("U_0", k::U_0, gm / ee * ep.atan() + w * w * A * A / 3.0, 1.0), ("k", k::k, b * k::g_p as Q / (A * k::g_e as Q) - 1.0, 1e-11),
        ("GM_A", k::GM_A, k::G as Q * k::M_A as Q, 1e5), ("GM_prime", k::GM_prime, gm - k::GM_A as Q, 1e6), ("M", k::M, gm / k::G as Q, 1e18),
        ("J2 of the dynamic moments", (k::C_dyn - (k::A_dyn + k::B_dyn) / 2.0) / (k::M * k::a * k::a), -k::c20dyn as Q * (5.0 as Q).sqrt(), 2e-7),
        ("c22 of the dynamic moments", (k::B_dyn - k::A_dyn) / (4.0 * k::M * k::a * k::a), k::c22dyn as Q * ((5.0 / 12.0) as Q).sqrt(), 2e-8),
        ("H", k::H, (k::C_dyn as Q - (k::A_dyn as Q + k::B_dyn as Q) / 2.0) / k::C_dyn as Q, 1e-8),
        ("H_geo", k::H_geo, (k::C_geo as Q - k::A_geo as Q) / k::C_geo as Q, 1e-8), ("J2 of the geometric moments", (k::C_geo - k::A_geo) / (k::M * k::a * k::a), j2, 2e-8),
        ("c20dyn as published", k::c20dyn, -4.84165143790815e-4, 1e-18), ("GPS GM", k::GM_GPSNAV, 3.986005e14, 0.0), ("w_star", k::w_star, 7.2921158553e-5, 1e-16),
    ];
    let (n, got, want, tol) = t[c.idx as usize];
    c.mix(c.idx);
    c.close("constant", got, want as f64, tol, || format!("{n} = {got:e}, derived {:e}", want as f64));
    // equatorial and polar gravity follow from Clairaut / Pizzetti
    let q0p = 3.0 * (1.0 + 1.0 / ep2) * (1.0 - ep.atan() / ep) - 1.0;
    let ge = gm / (A * b) * (1.0 - m - m / 6.0 * ep * q0p / q0);
    let gp = gm / (A * A) * (1.0 + m / 3.0 * ep * q0p / q0);
    c.close("equatorial-gravity", k::g_e, ge as f64, 1e-9, || format!("{}", ge as f64));
    c.close("polar-gravity", k::g_p, gp as f64, 1e-9, || format!("{}", gp as f64));
    c.ok(k::g_e < k::g_mean && k::g_mean < k::g_p, "mean-gravity", || String::new());
    c.ev("constants derived");
    c.sample(|| format!("{n} {got:e}"));
}
const NCONST: u64 = 33;
macro_rules! table { ($r:expr, $case:expr; $($f:expr),* $(,)?) => {{
    let t: &[fn(&mut Rng, &mut Case)] = &[$($f),*];
    let k = ($case.idx as usize) % t.len();
    t[k]($r, $case)
}} }
fn main() {
    let mut x = Ctx::from_args("C08");
    x.family("forward", 60_000, 1_500_000, |r, c| table!(r, c; forward::<f64>, forward::<f64>, forward::<f32>));
    x.family("ferrari", 60_000, 1_500_000, |r, c| inverse::<f64>(r, c, "ferrari", fer));
    x.family("iterative", 60_000, 1_500_000, |r, c| table!(r, c; |r, c| inverse::<f64>(r, c, "iterative", itr), |r, c| inverse::<f64>(r, c, "iterative", itr), |r, c| inverse::<f32>(r, c, "iterative", itr)));
    x.family("positions", 40_000, 1_000_000, |r, c| table!(r, c; |r, c| raw::<f64>(r, c, fer, "ferrari"), |r, c| raw::<f64>(r, c, itr, "iterative")));
    x.family("earth", 40_000, 1_000_000, agree);
    x.all("constants", NCONST, constants);
    x.require("forward conversions", 1000);
    x.require("inverse conversions", 1000);
    x.require("model agreement sweeps", 1000);
    x.finish()
}
