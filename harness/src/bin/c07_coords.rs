//! C07: Cartesian, spherical and cylindrical coordinates of one point.
#![feature(f128)]
use aether_core::attitude::Quaternion;
use aether_core::coordinate::{Cartesian, Cylindrical, Spherical};
use aether_core::math::{Matrix, Vector};
use aether_core::reference_frame::ReferenceFrame;
use aether_monitors::fw::*;
use aether_monitors::la;
use aether_monitors::num::*;
type Q = f128;
#[derive(Debug, Clone, Copy, PartialEq, Default)] struct A;
impl ReferenceFrame for A {}
#[derive(Debug, Clone, Copy, PartialEq, Default)] struct B;
impl ReferenceFrame for B {}

fn cs<T: Num>(s: &Spherical<T>) -> Vec<Q> { let (r, p, t) = (s.r().q(), s.phi().q(), s.theta().q()); vec![r * t.sin() * p.cos(), r * t.sin() * p.sin(), r * t.cos()] }
fn cc<T: Num>(s: &Cylindrical<T>) -> Vec<Q> { let (r, t, z) = (s.r().q(), s.theta().q(), s.z().q()); vec![r * t.cos(), r * t.sin(), z] }
fn dist(a: &[Q], b: &[Q]) -> f64 { la::norm(&[a[0] - b[0], a[1] - b[1], a[2] - b[2]]) as f64 }

fn point<T: Num>(r: &mut Rng) -> ([T; 3], usize) {
    let s = if T::U > 1e-10 { r.logu(1e-6, 1e6) } else { r.logu(1e-12, 1e12) };
    let kind = r.below(8);
    let mut v = r.unit3().map(|x| x * s);
    match kind {
        0 => { let i = r.below(3); for k in 0..3 { if k != i { v[k] = 0.0; } else { v[k] = r.sign() * s; } } }
        1 => v[r.below(3)] = 0.0,
        2 => { let e = r.logu(1e-14, 1e-3); v = [v[0] * e, v[1] * e, r.sign() * s]; } // near the poles
        3 => { let e = r.logu(1e-14, 1e-3); v[2] *= e; } // near the equator
        4 => { let e = r.logu(1e-14, 1e-3); v = [-s, v[1] * e, v[2]]; } // near the branch cut of the azimuth
        5 => { for x in v.iter_mut() { *x = r.int(-3, 3) as f64; } }
        _ => {}
    }
    (v.map(T::of), kind)
}

fn path<T: Num>(r: &mut Rng, c: &mut Case) {
    let (v, kind) = point::<T>(r);
    for x in v { c.mix(x.bits()); }
    let want: Vec<Q> = v.iter().map(|x| x.q()).collect();
    let n = la::norm(&want) as f64;
    let p = Cartesian::<T, A>::new(v[0], v[1], v[2]);
    let ctx = || format!("{} kind {kind} {v:?}", T::NAME);
    let u = T::U * n;
    let (s, y) = (Spherical::from(&p), Cylindrical::from(&p));
    c.close("cartesian-to-spherical", dist(&cs(&s), &want), 0.0, 16.0 * u, || format!("{:?} {}", s.data.data, ctx()));
    c.close("cartesian-to-cylindrical", dist(&cc(&y), &want), 0.0, 16.0 * u, || format!("{:?} {}", y.data.data, ctx()));
    c.close("radius", s.r().f(), n, 4.0 * u, || ctx());
    c.close("axial-radius", y.r().f(), (want[0] * want[0] + want[1] * want[1]).sqrt() as f64, 4.0 * u, || ctx());
    c.ok(y.z() == v[2], "axial-height", || ctx());
    let pi = std::f64::consts::PI * (1.0 + 2.0 * T::U);
    c.ok(s.r().f() >= 0.0 && s.phi().f().abs() <= pi && (0.0..=pi).contains(&s.theta().f()), "spherical-range", || format!("{:?} {}", s.data.data, ctx()));
    c.ok(y.r().f() >= 0.0 && y.theta().f().abs() <= pi, "cylindrical-range", || format!("{:?} {}", y.data.data, ctx()));
    if v[0].f() != 0.0 || v[1].f() != 0.0 {
        let az = want[1].atan2(want[0]) as f64;
        for a in [s.phi(), y.theta()] { c.close("azimuth", a.f(), az, 4.0 * T::U * std::f64::consts::PI, || ctx()); }
    }
    if n > 0.0 {
        let inc = (want[0] * want[0] + want[1] * want[1]).sqrt().atan2(want[2]) as f64;
        c.close("inclination", s.theta().f(), inc, 8.0 * T::U * std::f64::consts::PI, || ctx());
    } else { c.ev("origin"); c.ok(s.r().f() == 0.0 && s.theta().f() == 0.0 && y.r().f() == 0.0, "origin", || format!("{:?}", s.data)); }
    // random path through the three representations
    enum S<T: aether_core::real::Real> { K(Cartesian<T, A>), S(Spherical<T>), Y(Cylindrical<T>) }
    let mut cur = S::K(p);
    let mut name = String::from("K");
    let len = 1 + r.below(6);
    for _ in 0..len {
        cur = match (cur, r.below(2)) {
            (S::K(p), 0) => { name.push('S'); S::S(Spherical::from(&p)) }
            (S::K(p), _) => { name.push('Y'); S::Y(Cylindrical::from(&p)) }
            (S::S(s), 0) => { name.push('K'); S::K(Cartesian::from(&s)) }
            (S::S(s), _) => { name.push('Y'); S::Y(Cylindrical::from(&s)) }
            (S::Y(y), 0) => { name.push('K'); S::K(Cartesian::from(&y)) }
            (S::Y(y), _) => { name.push('S'); S::S(Spherical::from(&y)) }
        };
        let (got, pol) = match &cur { S::K(p) => (p.data.data.iter().map(|x| x.q()).collect(), None), S::S(s) => (cs(s), Some((s.r().f(), s.theta().f(), s.phi().f()))), S::Y(y) => (cc(y), Some((y.r().f(), 0.0, y.theta().f()))) };
        c.close("path", dist(&got, &want), 0.0, 24.0 * (name.len() as f64) * u, || format!("{name} {}", ctx()));
        if let Some((rr, t, a)) = pol { c.ok(rr >= -8.0 * u && t >= 0.0 && t <= pi && a.abs() <= pi, "path-range", || format!("{name} {rr} {t} {a} {}", ctx())); }
    }
    c.evn("conversions", len as u64 + 2);
    c.state(kind as u64 | (v[0].f() < 0.0) as u64 * 16 | (v[1].f() < 0.0) as u64 * 32 | (v[2].f() < 0.0) as u64 * 64 | hash_str(&name) << 8);
    c.sample(|| format!("{} {name}", ctx()));
}

/// polar coordinates given directly, any angle
fn polar<T: Num>(r: &mut Rng, c: &mut Case) {
    let h = std::f64::consts::FRAC_PI_2;
    let ang = |r: &mut Rng| T::of(match r.below(4) { 0 => h * r.int(-4, 4) as f64, 1 => r.range(-30.0, 30.0), _ => r.range(-3.1, 3.1) });
    let (rad, a, t, z) = (T::of(r.logu(1e-6, 1e6)), ang(r), T::of(match r.below(3) { 0 => h * r.int(0, 2) as f64, _ => r.range(0.0, 3.141) }), T::of(r.wild(100.0)));
    for x in [rad, a, t, z] { c.mix(x.bits()); }
    let (s, y) = (Spherical::new(rad, a, t), Cylindrical::new(rad, a, z));
    c.ok(s.r() == rad && s.phi() == a && s.theta() == t && y.r() == rad && y.theta() == a && y.z() == z, "polar-entries", || format!("{s:?} {y:?}"));
    let (ws, wy) = (cs(&s), cc(&y));
    let k: Cartesian<T, A> = Cartesian::from(&s);
    let l: Cartesian<T, A> = Cartesian::from(&y);
    let (ns, ny) = (la::norm(&ws) as f64, la::norm(&wy) as f64);
    let q = |k: &Cartesian<T, A>| -> Vec<Q> { k.data.data.iter().map(|x| x.q()).collect() };
    c.close("spherical-to-cartesian", dist(&q(&k), &ws), 0.0, 12.0 * T::U * ns, || format!("{s:?}"));
    c.close("cylindrical-to-cartesian", dist(&q(&l), &wy), 0.0, 12.0 * T::U * ny, || format!("{y:?}"));
    c.close("spherical-to-cylindrical", dist(&cc(&Cylindrical::from(&s)), &ws), 0.0, 12.0 * T::U * ns, || format!("{s:?}"));
    c.close("cylindrical-to-spherical", dist(&cs(&Spherical::from(&y)), &wy), 0.0, 16.0 * T::U * ny, || format!("{y:?}"));
    c.ev("polar inputs");
}

fn algebra<T: Num>(r: &mut Rng, c: &mut Case) {
    let (f1, f2) = (fill(r), fill(r));
    let a: [T; 3] = [draw(r, f1), draw(r, f1), draw(r, f1)];
    let b: [T; 3] = [draw(r, f2), draw(r, f2), draw(r, f2)];
    let mut s: T = draw(r, Fill::Norm);
    if s.f().abs() < 1e-3 { s = T::of(3.0); }
    for x in a.iter().chain(&b) { c.mix(x.bits()); }
    let (p, q) = (Cartesian::<T, A>::new(a[0], a[1], a[2]), Cartesian::<T, A>::new(b[0], b[1], b[2]));
    let (va, vb) = (Vector::new(a), Vector::new(b));
    let ctx = || format!("{} a={a:?} b={b:?} s={s:?}", T::NAME);
    let eq = |c: &mut Case, key: &'static str, got: Vector<T, 3>, want: Vector<T, 3>, k: f64| {
        for i in 0..3 {
            let (g, w) = (got.data[i].f(), want.data[i].f());
            c.ok(g == w || (g - w).abs() <= k * T::U * w.abs() || (g.is_nan() && w.is_nan()), key, || format!("[{i}] got {g:e} want {w:e} {}", ctx()));
        }
    };
    for g in [p + q, &p + &q, &p + q, p + &q, { let mut t = p; t += q; t }] { eq(c, "add", g.data, va + vb, 0.0); }
    for g in [p - q, &p - &q, &p - q, p - &q, { let mut t = p; t -= q; t }] { eq(c, "sub", g.data, va - vb, 0.0); }
    for g in [-p, -&p] { eq(c, "neg", g.data, -va, 0.0); }
    for g in [p * s, &p * s] { eq(c, "scale", g.data, va * s, 2.0); }
    for g in [p / s, &p / s] { eq(c, "div", g.data, va / s, 2.0); }
    eq(c, "cross", p.cross(&q).data, va.cross(&vb), 0.0);
    let nn = va.norm();
    c.ok(p.norm() == nn && p.magnitude() == nn && p.dot(&q) == va.dot(&vb), "norm-dot", ctx);
    if nn.f() > 1e-9 { eq(c, "normalize", p.normalize().data, va.normalize(), 2.0); }
    let m = Matrix::new([a, b, [s, a[1], b[2]]]);
    eq(c, "matrix-product", (m * q).data, m * vb, 0.0);
    eq(c, "matrix-ref-product", (m * &q).data, m * vb, 0.0);
    let k = if r.chance(0.3) { r.int(-40, 40) as i32 } else { r.int(-3, 4) as i32 };
    let pw = Vector::new(a.map(|x| T::of((0..k.abs()).fold(1.0 as Q, |p, _| p * x.q()) as f64)));
    if a.iter().all(|x| x.f().abs() > 1e-4 && x.f().abs() < 1e4) {
        for g in [p.powi(k), p.powi_ref(k)] { for i in 0..3 {
            if (k as f64 * a[i].f().abs().log10()).abs() > if T::U > 1e-10 { 30.0 } else { 280.0 } { continue; }
            let w = if k < 0 { 1.0 / (0..-k).fold(1.0 as Q, |p, _| p * a[i].q()) } else { (0..k).fold(1.0 as Q, |p, _| p * a[i].q()) } as f64;
            c.close("powi", g.data.data[i].f(), w, (16.0 + 2.0 * k.abs() as f64) * T::U * w.abs(), || format!("n={k} {} {pw:?}", ctx()));
        } }
        let e = T::of(r.range(-2.0, 3.0));
        let pp = Cartesian::<T, A>::new(a[0].abs(), a[1].abs(), a[2].abs());
        for g in [pp.powf(e), pp.powf_ref(e)] { for i in 0..3 {
            let w = pp.data.data[i].q().powf(e.q()) as f64;
            c.close("powf", g.data.data[i].f(), w, 16.0 * T::U * w.abs(), || format!("e={e:?} {}", ctx()));
        } }
        c.ev("powers");
    }
    // iteration and maps visit x, y, z in order
    let it: Vec<T> = p.iter().copied().collect();
    let it2: Vec<T> = p.into_iter().collect();
    let it3: Vec<T> = (&p).into_iter().copied().collect();
    let mut mm = p;
    for x in mm.iter_mut() { *x = *x * T::of(2.0); }
    let mut m2 = p;
    for x in &mut m2 { *x = *x * T::of(2.0); }
    let mp = p.map(|x| x * T::of(2.0));
    let mut m3 = p;
    for i in 0..3 { m3[i] = p[i] * T::of(2.0); }
    let mut m4 = p;
    for x in m4.as_mut().iter_mut() { *x = *x * T::of(2.0); }
    c.ok(it[..] == a[..] && it2 == it && it3 == it && mm == mp && m2 == mp && m3 == mp && m4 == mp && p.as_ref() == &a && [p.x(), p.y(), p.z()] == a && (0..3).all(|i| mp.data.data[i] == a[i] * T::of(2.0)), "iterate-map", || format!("{it:?} {it2:?} {mp:?} {}", ctx()));
    c.ok(Cartesian::<T, A>::zero().data.data == [T::of(0.0); 3], "zero", || String::new());
    let txt = format!("{p}");
    let nums: Vec<f64> = txt.split(|ch: char| "[], ".contains(ch)).filter_map(|w| w.parse().ok()).collect();
    c.ok(nums.len() == 3 && (0..3).all(|i| T::of(nums[i]) == a[i]), "display", || txt.clone());
    // frame transform is the passive rotation
    let u = r.unit4();
    let qt = Quaternion::<T, A, B>::new(T::of(u[0]), T::of(u[1]), T::of(u[2]), T::of(u[3]));
    eq(c, "transform", p.transform(&qt).data, qt.rotate_vector(va), 0.0);
    c.ev("coordinate algebra sweeps");
}
macro_rules! table { ($r:expr, $case:expr; $($f:expr),* $(,)?) => {{
    let t: &[fn(&mut Rng, &mut Case)] = &[$($f),*];
    let k = ($case.idx as usize) % t.len();
    t[k]($r, $case)
}} }
fn main() {
    let mut x = Ctx::from_args("C07");
    x.family("paths", 40_000, 1_500_000, |r, c| table!(r, c; path::<f64>, path::<f64>, path::<f32>));
    x.family("polar", 20_000, 500_000, |r, c| table!(r, c; polar::<f64>, polar::<f64>, polar::<f32>));
    x.family("algebra", 20_000, 500_000, |r, c| table!(r, c; algebra::<f64>, algebra::<f32>));
    x.require("conversions", 10_000);
    x.require("origin", 3);
    x.require("coordinate algebra sweeps", 1000);
    x.require("powers", 100);
    x.finish()
}
