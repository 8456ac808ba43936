//! C23: solids, assemblies and tanks against binary128 mass properties.
#![feature(f128)]
use aether_core::attitude::DirectionCosineMatrix;
use aether_core::coordinate::Cartesian;
use aether_core::math::{Matrix, Vector};
use aether_core::reference_frame::Pose;
use aether_fluids::*;
use aether_monitors::fw::*;
use aether_monitors::hp::PI;
use aether_monitors::la;
use aether_monitors::num::*;
use aether_shapes::attributes::*;
use aether_shapes::{cylinder::Cylinder, prism::RectangularPrism, sphere::Sphere};
use std::ops::Mul;

type Q = f128;
/// a solid with its own definition of volume and principal moments
trait Body<T: Num>: Solid<T> + Copy + std::fmt::Debug {
    fn draw(r: &mut Rng, s: f64) -> Self;
    fn vol(&self) -> Q;
    fn prin(&self, m: Q) -> [Q; 3];
    fn positive(&self) -> bool;
}
fn dim<T: Num>(r: &mut Rng, s: f64) -> T { T::of(if r.chance(0.015) { 0.0 } else { s * r.logu(0.02, 5.0) * if r.chance(0.01) { -1.0 } else { 1.0 } }) }
impl<T: Num> Body<T> for Sphere<T> {
    fn draw(r: &mut Rng, s: f64) -> Self { Sphere { r: dim(r, s) } }
    fn vol(&self) -> Q { 4.0 * PI * self.r.q() * self.r.q() * self.r.q() / 3.0 }
    fn prin(&self, m: Q) -> [Q; 3] { [0.4 as Q; 3].map(|_| 2.0 * m * self.r.q() * self.r.q() / 5.0) }
    fn positive(&self) -> bool { self.r.f() > 0.0 }
}
impl<T: Num> Body<T> for Cylinder<T> {
    fn draw(r: &mut Rng, s: f64) -> Self { Cylinder { r: dim(r, s), h: dim(r, s) } }
    fn vol(&self) -> Q { PI * self.r.q() * self.r.q() * self.h.q() }
    fn prin(&self, m: Q) -> [Q; 3] { let (a, b) = (self.r.q() * self.r.q(), self.h.q() * self.h.q()); [m * (3.0 * a + b) / 12.0, m * (3.0 * a + b) / 12.0, m * a / 2.0] }
    fn positive(&self) -> bool { self.r.f() > 0.0 && self.h.f() > 0.0 }
}
impl<T: Num> Body<T> for RectangularPrism<T> {
    fn draw(r: &mut Rng, s: f64) -> Self { RectangularPrism { a: dim(r, s), b: dim(r, s), c: dim(r, s) } }
    fn vol(&self) -> Q { self.a.q() * self.b.q() * self.c.q() }
    fn prin(&self, m: Q) -> [Q; 3] { let (a, b, c) = (self.a.q() * self.a.q(), self.b.q() * self.b.q(), self.c.q() * self.c.q()); [m * (b + c) / 12.0, m * (a + c) / 12.0, m * (a + b) / 12.0] }
    fn positive(&self) -> bool { self.a.f() > 0.0 && self.b.f() > 0.0 && self.c.f() > 0.0 }
}
fn rot<T: Num>(r: &mut Rng) -> [[T; 3]; 3] {
    if r.chance(0.2) { return std::array::from_fn(|i| std::array::from_fn(|j| T::of((i == j) as u8 as f64))) }
    if r.chance(0.2) { let k = r.below(3); return std::array::from_fn(|i| std::array::from_fn(|j| T::of(((i + k) % 3 == j) as u8 as f64))) }
    let q = r.unit4(); let (w, x, y, z) = (q[0], q[1], q[2], q[3]);
    [[1.0 - 2.0 * (y * y + z * z), 2.0 * (x * y - w * z), 2.0 * (x * z + w * y)], [2.0 * (x * y + w * z), 1.0 - 2.0 * (x * x + z * z), 2.0 * (y * z - w * x)], [2.0 * (x * z - w * y), 2.0 * (y * z + w * x), 1.0 - 2.0 * (x * x + y * y)]].map(|r| r.map(T::of))
}
/// mass and inertia of one placed part: (mass, volume, inertia about its own centre, position)
struct Part { m: Q, v: Q, i: la::M, r: [Q; 3] }
fn part<T: Num, S: Body<T>>(s: &S, rho: T, rm: &[[T; 3]; 3], at: &[T; 3]) -> Part {
    let v = s.vol(); let m = rho.q() * v; let p = s.prin(m);
    let mut i = la::zeros(3, 3);
    for a in 0..3 { for b in 0..3 { for k in 0..3 { i[a][b] += rm[a][k].q() * p[k] * rm[b][k].q() } } }
    Part { m, v, i, r: at.map(|x| x.q()) }
}
fn pair<T: Num + Mul<Output = T>, A: Body<T>, B: Body<T>>(r: &mut Rng, c: &mut Case) where Vector<T, 3>: Copy {
    let sc = *r.pick(&[1.0, 1.0, 1e-3, 1e3]);
    let sb_scale = sc * if r.chance(0.5) { 0.3 } else { 1.0 };
    let (sa, sb) = (A::draw(r, sc), B::draw(r, sb_scale));
    let (ra, rb) = (T::of(r.logu(0.1, 2e4)), T::of(r.logu(0.1, 2e4) * if r.chance(0.02) { 0.0 } else { 1.0 }));
    let far = *r.pick(&[0.0, 1.0, 1.0, 10.0, 1e4, 1e7]);
    let base: [f64; 3] = std::array::from_fn(|_| r.normal() * far * sc);
    let (pa, pb): ([T; 3], [T; 3]) = (std::array::from_fn(|i| T::of(base[i] + r.normal() * sc)), std::array::from_fn(|i| T::of(base[i] + r.normal() * sc)));
    let (ma, mb) = (rot::<T>(r), rot::<T>(r));
    for v in pa { c.mixf(v.f()) } c.mixf(ra.f()); c.mixf(rb.f());
    let what = || format!("{} {sa:?} density {ra} at {pa:?} axes {ma:?}; {sb:?} density {rb} at {pb:?} axes {mb:?}", T::NAME);
    let u = T::U;
    macro_rules! mm { ($s:expr, $rho:expr, $m:expr, $p:expr) => { MassModel::new($s, $rho, Pose { R_local_to_assembly: DirectionCosineMatrix::from_matrix(Matrix::new($m)), r_cm_in_assembly: Cartesian::new($p[0], $p[1], $p[2]) }) } }
    // single solids
    for (v, w, l) in [(sa.volume().f(), sa.vol(), "first"), (sb.volume().f(), sb.vol(), "second")] { c.close("volume", v, w as f64, 10.0 * u * (w as f64).abs() + T::TINY, || format!("{l}; {}", what())); }
    let m1 = T::of(r.logu(1e-3, 1e5));
    let (ia, wa) = (sa.inertia_principal_cm(m1), sa.prin(m1.q()));
    for i in 0..3 { c.close("principal-inertia", ia[i].f(), wa[i] as f64, 10.0 * u * (wa[i] as f64).abs() + T::TINY, || format!("axis {i} mass {m1}; {}", what())); }
    for i in 0..3 { c.ok(ia[i].f() >= 0.0 && ia[i].f() <= (ia[(i + 1) % 3].f() + ia[(i + 2) % 3].f()) * (1.0 + 16.0 * u), "triangle", || format!("{ia:?}; {}", what())); }
    // assemblies
    let (qa, qb) = (part(&sa, ra, &ma, &pa), part(&sb, rb, &mb, &pb));
    for sub in [false, true] {
        let s: Q = if sub { -1.0 } else { 1.0 };
        let res = guard(|| if sub {
            (mm!(sa, ra, ma, pa) - mm!(sb, rb, mb, pb), sa.subtract_with(&sb, ra, rb, Matrix::new(ma), Vector::new(pa), Matrix::new(mb), Vector::new(pb)))
        } else {
            (mm!(sa, ra, ma, pa) + mm!(sb, rb, mb, pb), sa.add_with(&sb, ra, rb, Matrix::new(ma), Vector::new(pa), Matrix::new(mb), Vector::new(pb)))
        });
        let (g1, g2) = match res { Ok(v) => v, Err(e) => return c.fail("panic", format!("{e}; {}", what())) };
        let (m, v) = (qa.m + s * qb.m, qa.v + s * qb.v);
        let (tm, tv) = (16.0 * u * (qa.m.abs() + qb.m.abs()) as f64, 16.0 * u * (qa.v.abs() + qb.v.abs()) as f64);
        if (m as f64).abs() <= tm && qa.m != 0.0 || (v as f64).abs() <= tv && qa.v != 0.0 { c.ev("differences too small to sign"); continue }
        let ok = qa.v > 0.0 && qb.v > 0.0 && m > 0.0 && v > 0.0;
        for (api, g) in [("operator", &g1), ("matrix form", &g2)] {
            if !c.ok(g.is_some() == ok, if sub { "difference-exists" } else { "sum-exists" }, || format!("{api}: volumes {:e} {:e} net mass {:e} volume {:e}; {}", qa.v as f64, qb.v as f64, m as f64, v as f64, what())) { return }
            let Some(g) = g else { c.ev("no composite"); continue };
            c.close("mass", g.mass.f(), m as f64, tm, || format!("{api}; {}", what()));
            c.close("net-volume", g.volume.f(), v as f64, tv, || format!("{api}; {}", what()));
            let k = 1.0 + (qa.m + qb.m) as f64 / m as f64 + (qa.v + qb.v) as f64 / v as f64; // cancellation
            if k > 1e-3 / u.sqrt() { c.ev("nearly complete cancellation skipped"); continue }
            let dn = (m / v) as f64;
            c.close("mean-density", g.density.f(), dn, 32.0 * u * k * dn, || format!("{api}; {}", what()));
            let mut com = [0.0 as Q; 3];
            let mut dc = [0.0f64; 3];
            for i in 0..3 { com[i] = (qa.m * qa.r[i] + s * qb.m * qb.r[i]) / m; dc[i] = 24.0 * u * ((qa.m * qa.r[i].abs() + qb.m * qb.r[i].abs()) / m) as f64 + 24.0 * u * k * (com[i] as f64).abs() + T::TINY; c.close("centre-of-mass", g.com[i].f(), com[i] as f64, dc[i], || format!("{api} axis {i}; {}", what())); }
            // inertia about the common centre of mass
            let (mut want, mut size) = (la::zeros(3, 3), 0.0f64);
            for (p, sg) in [(&qa, 1.0 as Q), (&qb, s)] {
                let d: Vec<Q> = (0..3).map(|i| p.r[i] - com[i]).collect();
                let d2 = la::dot(&d, &d);
                size += (p.m * d2) as f64 + (0..3).map(|i| p.i[i][i] as f64).sum::<f64>();
                for i in 0..3 { for j in 0..3 { want[i][j] += sg * (p.i[i][j] + p.m * (if i == j { d2 } else { 0.0 } - d[i] * d[j])); } }
            }
            let dd: f64 = dc.iter().map(|x| x * x).sum();
            let d1: f64 = 64.0 * u * u * far * sc; let _ = d1;
            let tol = 80.0 * u * size + 8.0 * (m as f64) * dd * k + 80.0 * u * (qa.m + qb.m) as f64 * dd.sqrt() * (size / (qa.m + qb.m) as f64).sqrt() + T::TINY;
            for i in 0..3 { for j in 0..3 { c.close("inertia", g.inertia_cm[(i, j)].f(), want[i][j] as f64, tol, || format!("{api} [{i}][{j}] of {:?}; {}", g.inertia_cm.data, what())); } }
            // physical consistency of what was returned
            if !sub { for _ in 0..3 { let z = r.unit3(); let (mut q, mut tr) = (0.0, 0.0); for i in 0..3 { tr += g.inertia_cm[(i, i)].f(); for j in 0..3 { q += z[i] * z[j] * g.inertia_cm[(i, j)].f() } } c.ok(q >= -9.0 * tol && q <= tr / 2.0 + 12.0 * tol, "moment-range", || format!("moment {q:e} about {z:?}, half trace {:e}; {}", tr / 2.0, what())); } }
            c.ev(if sub { "differences" } else { "sums" });
            if far > 100.0 { c.ev("far from the origin") }
        }
    }
    let _ = (sa.positive(), sb.positive());
}
fn tanks(r: &mut Rng, c: &mut Case) {
    const U: f64 = 1.1102230246251565e-16;
    let draw = |r: &mut Rng| { let d = |r: &mut Rng| if r.chance(0.05) { *r.pick(&[0.0, -1.5, -0.01]) } else { r.logu(1e-3, 50.0) }; if r.chance(0.5) { TankShape::Sphere { radius_m: d(r) } } else { TankShape::Cylinder { radius_m: d(r), length_m: d(r) } } };
    let vol = |s: &TankShape| match *s { TankShape::Sphere { radius_m } => (4.0 * PI / 3.0 * (radius_m as Q) * (radius_m as Q) * (radius_m as Q)) as f64, TankShape::Cylinder { radius_m, length_m } => (PI * (radius_m as Q) * (radius_m as Q) * length_m as Q) as f64 };
    let prin = |s: &TankShape, m: f64| -> [f64; 3] { let m = m.max(0.0); match *s { TankShape::Sphere { radius_m } => [0.4 * m * radius_m * radius_m; 3], TankShape::Cylinder { radius_m, length_m } => { let x = m * (3.0 * radius_m * radius_m + length_m * length_m) / 12.0; [x, x, m * radius_m * radius_m / 2.0] } } };
    let shape = draw(r);
    let f = match r.below(6) { 0 => 0.0, 1 => 1.0, 2 => -r.logu(1e-6, 10.0), 3 => 1.0 + r.logu(1e-12, 10.0), _ => r.unit() };
    let rho = if r.chance(0.08) { -r.logu(1.0, 1e3) } else { r.logu(0.1, 2e3) };
    c.mixf(f); c.mixf(rho); c.mixf(vol(&shape));
    let what = || format!("{shape:?} fill {f} density {rho}");
    let l = PropellantTankSpec { shape, propellant_density_kg_m3: rho, fill_fraction: f }.limits();
    let v = vol(&shape).max(0.0);
    let fc = if f > 1.0 { 1.0 } else if f < 0.0 { 0.0 } else { f };
    c.close("tank-volume", shape.volume_m3(), vol(&shape), 8.0 * U * vol(&shape).abs(), what);
    c.close("geometric-volume", l.geometric_volume_m3, v, 8.0 * U * v, what);
    c.close("usable-volume", l.usable_volume_m3, v * fc, 12.0 * U * v * fc, what);
    c.close("propellant-mass", l.max_propellant_mass_kg, v * fc * rho.max(0.0), 16.0 * U * v * fc * rho.abs(), what);
    c.ok(l.usable_volume_m3 <= l.geometric_volume_m3 && l.usable_volume_m3 >= 0.0 && l.max_propellant_mass_kg >= 0.0, "container-limits", || format!("{l:?}; {}", what()));
    c.ev(if f > 1.0 { "overfilled" } else if f < 0.0 { "negative fill" } else { "fill levels" });
    let n = r.int(0, 12) as usize;
    let t: Vec<TankMassState> = (0..n).map(|_| { let shape = draw(r); TankMassState { shape, mass_kg: if r.chance(0.1) { -r.logu(0.1, 10.0) } else { r.logu(1e-3, 1e4) } } }).collect();
    let (mut m, mut i) = (0.0 as Q, [0.0 as Q; 3]);
    for k in &t { m += k.mass_kg.max(0.0) as Q; let p = prin(&k.shape, k.mass_kg); let g = k.shape.inertia_principal_cm_kg_m2(k.mass_kg); for a in 0..3 { i[a] += p[a] as Q; c.close("tank-inertia", g[a], p[a], 12.0 * U * p[a].abs(), || format!("axis {a} of {k:?}")); } if k.mass_kg < 0.0 { c.ev("negative tank masses") } }
    let e = (n as f64 + 16.0) * U;
    c.close("aggregate-mass", aggregate_tank_mass_kg(&t), m as f64, e * m as f64, || format!("{t:?}"));
    let g = aggregate_tank_inertia_principal_cm_kg_m2(&t);
    for a in 0..3 { c.close("aggregate-inertia", g[a], i[a] as f64, e * i[a] as f64, || format!("axis {a} of {t:?}")); }
}
fn one<T: Num + Mul<Output = T>>(r: &mut Rng, c: &mut Case) where Vector<T, 3>: Copy {
    match r.below(9) {
        0 => pair::<T, Sphere<T>, Sphere<T>>(r, c), 1 => pair::<T, Sphere<T>, Cylinder<T>>(r, c), 2 => pair::<T, Sphere<T>, RectangularPrism<T>>(r, c),
        3 => pair::<T, Cylinder<T>, Sphere<T>>(r, c), 4 => pair::<T, Cylinder<T>, Cylinder<T>>(r, c), 5 => pair::<T, Cylinder<T>, RectangularPrism<T>>(r, c),
        6 => pair::<T, RectangularPrism<T>, Sphere<T>>(r, c), 7 => pair::<T, RectangularPrism<T>, Cylinder<T>>(r, c), _ => pair::<T, RectangularPrism<T>, RectangularPrism<T>>(r, c),
    }
}
/// parts whose masses are exact, so that the net mass can be exactly zero, one part weightless or negative
fn exact(r: &mut Rng, c: &mut Case) {
    let p2 = |r: &mut Rng| (2.0f64).powi(r.int(-2, 2) as i32);
    let pr = |r: &mut Rng| RectangularPrism { a: p2(r), b: p2(r), c: p2(r) };
    let (sa, sb) = (pr(r), pr(r));
    let den = |r: &mut Rng| match r.below(6) { 0 => 0.0, 1 => -p2(r), _ => p2(r) };
    let (ra, rb) = (den(r), den(r));
    let at = |r: &mut Rng| -> [f64; 3] { std::array::from_fn(|_| r.int(-8, 8) as f64) };
    let (pa, pb) = (at(r), at(r));
    let i3 = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
    let sub = r.chance(0.5);
    for x in [sa.a, sa.b, sa.c, sb.a, sb.b, sb.c, ra, rb] { c.mixf(x) }
    for x in pa.iter().chain(&pb) { c.mixf(*x) }
    macro_rules! mm { ($s:expr, $rho:expr, $p:expr) => { MassModel::new($s, $rho, Pose { R_local_to_assembly: DirectionCosineMatrix::from_matrix(Matrix::new(i3)), r_cm_in_assembly: Cartesian::new($p[0], $p[1], $p[2]) }) } }
    let (va, vb) = (sa.a * sa.b * sa.c, sb.a * sb.b * sb.c);
    let sg = if sub { -1.0 } else { 1.0 };
    let (m, v) = (ra * va + sg * rb * vb, va + sg * vb);
    let what = || format!("{} {sa:?} density {ra} at {pa:?} and {sb:?} density {rb} at {pb:?}", if sub { "difference of" } else { "sum of" });
    let (eye, ca, cb) = (Matrix::new(i3), Vector::new(pa), Vector::new(pb));
    let g = guard(|| if sub { [mm!(sa, ra, pa) - mm!(sb, rb, pb), sa.subtract_with(&sb, ra, rb, eye, ca, eye, cb)] } else { [mm!(sa, ra, pa) + mm!(sb, rb, pb), sa.add_with(&sb, ra, rb, eye, ca, eye, cb)] });
    let g = match g { Ok(g) => g, Err(e) => return c.fail("panic", format!("{e}; {}", what())) };
    for (api, g) in ["operator", "matrix form"].iter().zip(&g) {
        if !c.ok(g.is_some() == (m > 0.0 && v > 0.0), if sub { "difference-exists" } else { "sum-exists" }, || format!("{api}: net mass {m} volume {v} got {g:?}; {}", what())) { return }
        if m == 0.0 { c.ev("weightless composites") }
        let Some(g) = g else { continue };
        c.ok(g.mass == m && g.volume == v, "exact-mass", || format!("{api}: {} {}; {}", g.mass, g.volume, what()));
        c.close("mean-density", g.density, m / v, 1e-15 * (m / v).abs(), || format!("{api}; {}", what()));
        for i in 0..3 { let w = (ra * va * pa[i] + sg * rb * vb * pb[i]) / m; c.close("centre-of-mass", g.com[i], w, 1e-15 * w.abs(), || format!("{api} axis {i}; {}", what())); }
        if ra <= 0.0 || rb <= 0.0 { c.ev("weightless or negative parts") }
    }
}
fn main() {
    let mut ctx = Ctx::from_args("C23");
    ctx.family("assemblies", 40_000, 800_000, |r, c| if r.chance(0.6) { one::<f64>(r, c) } else { one::<f32>(r, c) });
    for e in ["sums", "differences", "no composite", "far from the origin"] { ctx.require(e, 500) }
    ctx.family("tanks", 100_000, 2_000_000, tanks);
    for e in ["overfilled", "negative fill", "fill levels", "negative tank masses"] { ctx.require(e, 500) }
    ctx.family("exact", 40_000, 800_000, exact);
    for e in ["weightless composites", "weightless or negative parts"] { ctx.require(e, 500) }
    ctx.serial("twins", 1, 1, |_, c| {
        // removing a body from itself leaves nothing
        let i = Matrix::<f64, 3, 3>::identity();
        let z = Vector::new([1.0, 2.0, 3.0]);
        c.ok(Sphere { r: 0.7 }.subtract_with(&Sphere { r: 0.7 }, 2.0, 2.0, i, z, i, z).is_none(), "difference-exists", || "a sphere minus itself".into());
        c.ok(Sphere { r: 0.7 }.subtract_with(&Sphere { r: 0.7 }, 3.0, 2.0, i, z, i, z).is_none(), "difference-exists", || "equal volumes, denser outer body".into());
    });
    ctx.finish();
}
