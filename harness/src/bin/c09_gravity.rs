//! C09: WGS84 normal gravity: surface formula, ellipsoidal components and Earth-fixed vector against the
//! gradient of the normal gravity potential evaluated in binary128.
#![feature(f128)]
use aether_core::coordinate::Cartesian;
use aether_core::reference_frame::ITRF;
use aether_models::terrestrial::earth::Earth;
use aether_models::terrestrial::wgs84::gravity::*;
use aether_monitors::fw::*;
use aether_monitors::hp::PI;
use aether_monitors::la;
type Q = f128;
const A: Q = 6378137.0;
const F: Q = 1.0 / 298.257223563;
const GM: Q = 3.986004418e14;
const W: Q = 7.292115e-5;

struct El { e: Q, q0: Q }
fn el() -> El {
    let b = A * (1.0 - F);
    let e = A * (F * (2.0 - F)).sqrt();
    El { e, q0: qf(b / e) }
}
fn qf(t: Q) -> Q { 0.5 * ((1.0 + 3.0 * t * t) * (1.0 / t).atan() - 3.0 * t) }
/// ellipsoidal (u, sin beta, cos beta) of a position
fn uv(k: &El, p: &[Q]) -> (Q, Q, Q) {
    let r2 = p[0] * p[0] + p[1] * p[1];
    let t = r2 + p[2] * p[2] - k.e * k.e;
    let u = (0.5 * t * (1.0 + (1.0 + 4.0 * k.e * k.e * p[2] * p[2] / (t * t)).sqrt())).sqrt();
    (u, p[2] / u, r2.sqrt() / (u * u + k.e * k.e).sqrt())
}
/// normal gravity potential (gravitational plus centrifugal)
fn potential(k: &El, p: &[Q]) -> Q {
    let (u, sb, _) = uv(k, p);
    let r2 = p[0] * p[0] + p[1] * p[1];
    GM / k.e * (k.e / u).atan() + 0.5 * W * W * A * A * qf(u / k.e) / k.q0 * (sb * sb - 1.0 / 3.0) + 0.5 * W * W * r2
}
fn gradient(k: &El, p: &[Q]) -> Vec<Q> {
    let h: Q = la::norm(p) * 1e-8;
    (0..3).map(|i| {
        let (mut a, mut b) = (p.to_vec(), p.to_vec());
        a[i] += h;
        b[i] -= h;
        (potential(k, &a) - potential(k, &b)) / (2.0 * h)
    }).collect()
}
fn surface(lat: Q) -> Q {
    let b = A * (1.0 - F);
    let (s, c) = (lat.sin(), lat.cos());
    let (ge, gp) = (9.7803253359 as Q, 9.8321849379 as Q);
    (A * ge * c * c + b * gp * s * s) / (A * A * c * c + b * b * s * s).sqrt()
}
fn fwd(lat: Q, lon: Q, h: Q) -> Vec<Q> {
    let e2 = F * (2.0 - F);
    let n = A / (1.0 - e2 * lat.sin() * lat.sin()).sqrt();
    vec![(n + h) * lat.cos() * lon.cos(), (n + h) * lat.cos() * lon.sin(), (n * (1.0 - e2) + h) * lat.sin()]
}
fn lat(r: &mut Rng) -> f64 {
    let h = std::f64::consts::FRAC_PI_2;
    match r.below(8) { 0 => r.sign() * h, 1 => r.sign() * (h - r.logu(1e-12, 1e-2)), 2 => r.sign() * r.logu(1e-14, 1e-2), 3 => 0.0, _ => (r.unit() * 2.0 - 1.0).asin() }
}

fn normal(r: &mut Rng, c: &mut Case) {
    let p = lat(r);
    c.mixf(p);
    let g = gravity_normal(p);
    let w = surface(p as Q) as f64;
    c.close("surface-formula", g, w, 2e-11 * w, || format!("latitude {p:e}"));
    c.close("hemispheres", gravity_normal(-p), g, 0.0, || format!("latitude {p:e}"));
    c.ok(g >= 9.7803253358 && g <= 9.832184938, "between-equator-and-pole", || format!("latitude {p:e} g {g}"));
    // the same number is the length of the vector on the ellipsoid
    let l = r.range(-3.2, 3.2);
    let x = fwd(p as Q, l as Q, 0.0);
    let v = gravity_rectangular(x[0] as f64, x[1] as f64, x[2] as f64).data;
    c.close("surface-vector-length", v.norm(), g, 1e-8, || format!("latitude {p:e} longitude {l} vector {:?}", v.data));
    // and points down the ellipsoid normal
    let n = [p.cos() * l.cos(), p.cos() * l.sin(), p.sin()];
    for i in 0..3 { c.close("surface-vector-direction", v[i], -g * n[i], 1e-8, || format!("latitude {p:e} longitude {l} vector {:?}", v.data)); }
    c.ev("surface gravities");
    c.sample(|| format!("latitude {p} g {g}"));
}

fn field(r: &mut Rng, c: &mut Case) {
    let k = el();
    let l = match r.below(4) { 0 => std::f64::consts::FRAC_PI_2 * r.int(-2, 2) as f64, _ => r.range(-3.2, 3.2) };
    let h = match r.below(6) { 0 => 0.0, 1 => r.range(-10_000.0, 0.0), 2 => r.logu(1.0, 1e5), 3 => r.logu(1e5, 1e8), _ => r.range(-1000.0, 1e6) };
    let p = lat(r);
    let mut x: Vec<f64> = fwd(p as Q, l as Q, h as Q).iter().map(|v| *v as f64).collect();
    match r.below(8) { 0 => { x = vec![0.0, 0.0, r.sign() * (6.3567523e6 + h)]; } 1 => { x[2] = 0.0; let s = (6.378137e6 + h) / (x[0] * x[0] + x[1] * x[1]).sqrt().max(1e-9); if s < 1e3 { x[0] *= s; x[1] *= s; } else { x[0] = 6.378137e6 + h; } } _ => {} }
    for v in &x { c.mixf(*v); }
    let xq: Vec<Q> = x.iter().map(|v| *v as Q).collect();
    let w = gradient(&k, &xq);
    let (u, sb, cb) = uv(&k, &xq);
    let mag = (GM / (u * u)) as f64;
    let tol = mag * (2e-10 + 4e-15 * ((u / k.e) * (u / k.e)) as f64) + 1e-16 * (W * W * u) as f64 * 100.0;
    let g = gravity_rectangular(x[0], x[1], x[2]).data;
    let ctx = || format!("position {x:?} height {h} got {:?} potential gradient {:?}", g.data, w.iter().map(|v| *v as f64).collect::<Vec<_>>());
    for i in 0..3 { c.close("gradient-of-potential", g[i], w[i] as f64, tol, ctx); }
    // components along the ellipsoidal coordinate directions
    let (su, ww) = ((u * u + k.e * k.e).sqrt(), ((u * u + k.e * k.e * sb * sb) / (u * u + k.e * k.e)).sqrt());
    let rho = (xq[0] * xq[0] + xq[1] * xq[1]).sqrt();
    let (cl, sl) = if rho > 0.0 { (xq[0] / rho, xq[1] / rho) } else { (1.0, 0.0) };
    let eu = [u / (ww * su) * cb * cl, u / (ww * su) * cb * sl, sb / ww];
    let eb = [-sb / ww * cl, -sb / ww * sl, u / (ww * su) * cb];
    let ge = gravity_ellipsoidal(x[0], x[1], x[2]);
    c.close("component-along-u", ge[0], la::dot(&w, &eu) as f64, tol, || format!("{:?} {}", ge.data, ctx()));
    c.close("component-along-beta", ge[1], la::dot(&w, &eb) as f64, tol, || format!("{:?} {}", ge.data, ctx()));
    c.ok(ge[2] == 0.0, "component-along-longitude", || format!("{:?}", ge.data));
    // symmetric between hemispheres and about the axis
    let m = gravity_rectangular(x[0], x[1], -x[2]).data;
    let rot = gravity_rectangular(-x[1], x[0], x[2]).data;
    for (a, b) in [(m[0], g[0]), (m[1], g[1]), (m[2], -g[2]), (rot[0], -g[1]), (rot[1], g[0]), (rot[2], g[2])] {
        c.close("symmetry", a, b, tol, || format!("mirror {:?} quarter turn {:?} {}", m.data, rot.data, ctx()));
    }
    // weaker further out along the same normal, while gravitation dominates
    if h < 1.2e7 {
        let f: Vec<f64> = x.iter().map(|v| v * 1.001).collect();
        let g2 = gravity_rectangular(f[0], f[1], f[2]).data;
        c.ok(g2.norm() < g.norm(), "decreases-with-height", || format!("{:?} {}", g2.data, ctx()));
        c.ok(la::dot(&xq, &[g[0] as Q, g[1] as Q, g[2] as Q]) < 0.0, "points-down", ctx);
    }
    let ms = r.logu(1e-3, 1e6);
    let fo = Earth::new().solve_gravitational_force(Cartesian::<f64, ITRF<f64>>::new(x[0], x[1], x[2]), ms).data;
    for i in 0..3 { c.close("force", fo[i], w[i] as f64 * ms, tol * ms, || format!("mass {ms} {:?} {}", fo.data, ctx())); }
    c.ev("field vectors");
    c.state(((p * 8.0).round() as i64 & 31) as u64 | (((l / PI as f64) * 8.0).round() as i64 & 31) as u64 * 32 | (((h.abs() + 1.0).log10() * 2.0) as u64) << 12 | ((h < 0.0) as u64) << 20);
    c.sample(ctx);
}
fn main() {
    let mut x = Ctx::from_args("C09");
    x.family("surface", 10_000, 400_000, normal);
    x.family("field", 30_000, 800_000, field);
    x.require("surface gravities", 1000);
    x.require("field vectors", 1000);
    x.finish()
}
