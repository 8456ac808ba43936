//! C04: every attitude representation against a binary128 rotation matrix.
#![feature(f128)]
use aether_core::attitude::{DirectionCosineMatrix as Dcm, Euler, Quaternion, Rotation};
use aether_core::coordinate::Cartesian;
use aether_core::math::{Matrix, Vector};
use aether_core::reference_frame::ReferenceFrame;
use aether_monitors::fw::*;
use aether_monitors::hp::PI;
use aether_monitors::la;
use aether_monitors::num::*;

type Q = f128;
macro_rules! frames { ($($n:ident),*) => { $(#[derive(Debug, Clone, Copy, PartialEq, Default)] struct $n; impl ReferenceFrame for $n {})* } }
frames!(A, B, C, D);

/// passive matrix of a quaternion of any length
fn rq(q: &[Q; 4]) -> la::M {
    let n = q.iter().fold(0.0, |s, x| s + x * x);
    let [s, i, j, k] = *q;
    let m = [[s*s+i*i-j*j-k*k, 2.0*(i*j+s*k), 2.0*(i*k-s*j)], [2.0*(i*j-s*k), s*s-i*i+j*j-k*k, 2.0*(j*k+s*i)], [2.0*(i*k+s*j), 2.0*(j*k-s*i), s*s-i*i-j*j+k*k]];
    m.iter().map(|r| r.iter().map(|x| x / n).collect()).collect()
}
fn r1(axis: usize, a: Q) -> la::M {
    let (c, s) = (a.cos(), a.sin());
    let (p, q) = ((axis + 1) % 3, (axis + 2) % 3);
    let mut m = la::eye(3);
    m[p][p] = c; m[q][q] = c; m[p][q] = s; m[q][p] = -s;
    m
}
/// roll-pitch-yaw, passive ZYX
fn re(e: &[Q; 3]) -> la::M { la::mul(&la::mul(&r1(0, e[0]), &r1(1, e[1])), &r1(2, e[2])) }
fn qq<T: Num, F: ReferenceFrame, G: ReferenceFrame>(q: &Quaternion<T, F, G>) -> [Q; 4] { [q.w().q(), q.i().q(), q.j().q(), q.k().q()] }
fn ee<T: Num, F: ReferenceFrame, G: ReferenceFrame>(e: &Euler<T, F, G>) -> [Q; 3] { [e.roll().q(), e.pitch().q(), e.yaw().q()] }
fn dd<T: Num, F: ReferenceFrame, G: ReferenceFrame>(d: &Dcm<T, F, G>) -> la::M { d.as_matrix().data.iter().map(|r| r.iter().map(|x| x.q()).collect()).collect() }
fn diff(a: &la::M, b: &la::M) -> f64 {
    let mut m = 0.0f64;
    for i in 0..3 { for j in 0..3 {
        let e = (a[i][j] - b[i][j]).abs() as f64;
        if !(e <= m) { m = e; if e.is_nan() { return f64::INFINITY; } }
    } }
    m
}
fn same<T: Num>(c: &mut Case, key: &'static str, got: &la::M, want: &la::M, k: f64, ctx: &dyn Fn() -> String) -> bool {
    let e = diff(got, want);
    c.close(key, e, 0.0, k * T::U, || format!("{} {} got {:?} want {:?}", T::NAME, ctx(), f(got), f(want)))
}
fn f(m: &la::M) -> Vec<Vec<f64>> { m.iter().map(|r| r.iter().map(|x| *x as f64).collect()).collect() }

/// An orientation with a label of its class; returned as a unit quaternion and as Euler angles when made from them.
fn orient(r: &mut Rng) -> ([f64; 4], Option<[f64; 3]>, usize) {
    let h = std::f64::consts::FRAC_PI_2;
    let kind = r.below(9);
    let small = |r: &mut Rng| r.sign() * r.logu(1e-17, 1e-3);
    let q = match kind {
        0 | 1 => r.unit4(),
        2 => { let i = r.below(4); let mut q = [0.0; 4]; q[i] = r.sign(); if r.chance(0.5) { let k = r.below(4); q[k] += small(r); } q }
        3 => { let u = r.unit3(); let w = if r.chance(0.3) { 0.0 } else { small(r) }; [w, u[0], u[1], u[2]] } // half turns
        4 => { let u = r.unit3(); let a = r.logu(1e-12, 1e-2); [1.0, u[0] * a, u[1] * a, u[2] * a] }
        5 => { let (i, j) = (r.below(4), r.below(4)); let mut q = [0.0; 4]; q[i] = r.sign(); q[j] += r.sign(); if q.iter().all(|x| *x == 0.0) { q[0] = 1.0; } q } // 90/120 degree symmetries
        _ => {
            let pitch = match kind { 6 => r.sign() * h + if r.chance(0.3) { 0.0 } else { small(r) }, 7 => r.range(-h, h), _ => r.sign() * h * r.int(-4, 4) as f64 / 2.0 };
            let mut e = [r.range(-3.2, 3.2), pitch, r.range(-3.2, 3.2)];
            if r.chance(0.3) { for k in [0, 2] { e[k] = h * r.int(-2, 2) as f64; } }
            if r.chance(0.1) { for k in 0..3 { e[k] += 2.0 * h * 2.0 * r.int(-20, 20) as f64; } }
            let half = |x: f64| ((x / 2.0).cos(), (x / 2.0).sin());
            let ((cr, sr), (cp, sp), (cy, sy)) = (half(e[0]), half(e[1]), half(e[2]));
            return ([cr*cp*cy + sr*sp*sy, sr*cp*cy - cr*sp*sy, cr*sp*cy + sr*cp*sy, cr*cp*sy - sr*sp*cy], Some(e), kind);
        }
    };
    (q, None, kind)
}
fn unit<T: Num, F: ReferenceFrame, G: ReferenceFrame>(q: [f64; 4]) -> Quaternion<T, F, G> {
    let n = q.iter().map(|x| x * x).sum::<f64>().sqrt();
    Quaternion::new(T::of(q[0] / n), T::of(q[1] / n), T::of(q[2] / n), T::of(q[3] / n))
}

fn represent<T: Num>(r: &mut Rng, c: &mut Case) {
    let (q0, e0, kind) = orient(r);
    let q: Quaternion<T, A, B> = unit(q0);
    for x in q.data.data { c.mix(x.bits()); }
    c.state(kind as u64 | q0.iter().enumerate().fold(0, |m, (i, x)| m | ((*x < 0.0) as u64) << (8 + i)) | (T::U > 1e-10) as u64 * 99991);
    let rr = rq(&qq(&q));
    let ctx = || format!("kind {kind} q={:?} euler={e0:?}", q.data.data);
    // --- matrices
    let d = Dcm::from(&q);
    let d2 = Dcm::from(q);
    same::<T>(c, "quaternion-to-matrix", &dd(&d), &rr, 24.0, &ctx);
    same::<T>(c, "quaternion-to-matrix-by-value", &dd(&d2), &rr, 24.0, &ctx);
    same::<T>(c, "quaternion-to-matrix-method", &dd(&q.to_dcm()), &rr, 24.0, &ctx);
    let ms = [[d.m11(), d.m12(), d.m13()], [d.m21(), d.m22(), d.m23()], [d.m31(), d.m32(), d.m33()]];
    c.ok(ms == d.as_matrix().data, "matrix-entries", || format!("{ms:?}"));
    let rt = la::tr(&rr);
    same::<T>(c, "matrix-inverse", &dd(&d.transpose()), &rt, 24.0, &ctx);
    let det = la::inv_det(&dd(&d)).1 as f64;
    c.close("matrix-proper", det, 1.0, 40.0 * T::U, || ctx());
    let dn = Dcm::<T, A, B>::new(ms[0][0], ms[0][1], ms[0][2], ms[1][0], ms[1][1], ms[1][2], ms[2][0], ms[2][1], ms[2][2]);
    c.ok(dn.as_matrix().data == ms && Dcm::<T, A, B>::from_matrix(Matrix { data: ms }).as_matrix().data == ms && Dcm::<T, A, B>::from(&Matrix { data: ms }).as_matrix().data == ms, "matrix-new", || format!("{ms:?}"));
    // --- matrix back to quaternion
    match guard(|| Quaternion::try_from(&d)) {
        Ok(Ok(p)) => {
            same::<T>(c, "matrix-to-quaternion", &rq(&qq(&p)), &rr, 64.0, &ctx);
            let n = qq(&p).iter().fold(0.0, |s: Q, x| s + x * x).sqrt() as f64;
            c.close("matrix-to-quaternion-unit", n, 1.0, 64.0 * T::U, || ctx());
            c.ev("matrix to quaternion");
        }
        Ok(Err(_)) => c.fail("matrix-to-quaternion-refused", ctx()),
        Err(e) => c.fail("matrix-to-quaternion-panic", format!("{e} {}", ctx())),
    }
    match guard(|| Rotation::try_from(&d)) {
        Ok(Ok(p)) => { same::<T>(c, "matrix-to-rotation", &rq(&qq(p.quaternion())), &rr, 64.0, &ctx); }
        _ => c.fail("matrix-to-rotation-refused", ctx()),
    }
    // --- Euler angles
    let pi = std::f64::consts::PI * (1.0 + 4.0 * T::U);
    for (key, e) in [("quaternion-to-euler", Euler::from(&q)), ("matrix-to-euler", Euler::from(&d))] {
        if !c.ok(e.data.data.iter().all(|x| !x.nan()), "euler-nan", || format!("{key} {}", ctx())) { continue; }
        same::<T>(c, key, &re(&ee(&e)), &rr, 96.0, &ctx);
        c.ok(e.pitch().f().abs() <= pi / 2.0 && e.roll().f().abs() <= pi && e.yaw().f().abs() <= pi, "euler-range", || format!("{key} {:?} {}", e.data.data, ctx()));
        if rr[0][2].abs() < 0.99 {
            // away from gimbal lock the angles themselves are determined
            let w = [rr[1][2].atan2(rr[2][2]), (-rr[0][2]).asin(), rr[0][1].atan2(rr[0][0])];
            for i in 0..3 {
                let mut x = (ee(&e)[i] - w[i]) as f64;
                x -= (x / (2.0 * std::f64::consts::PI)).round() * 2.0 * std::f64::consts::PI;
                c.close("euler-angles", x, 0.0, 400.0 * T::U, || format!("{key} angle {i} got {:?} {}", e.data.data, ctx()));
            }
        } else { c.ev("orientations near gimbal lock"); }
    }
    if let Some(e0) = e0 {
        let e = Euler::<T, A, B>::new(T::of(e0[0]), T::of(e0[1]), T::of(e0[2]));
        let w = re(&ee(&e));
        same::<T>(c, "euler-to-matrix", &dd(&Dcm::from(e)), &w, 24.0, &ctx);
        let p = Quaternion::from(&e);
        same::<T>(c, "euler-to-quaternion", &rq(&qq(&p)), &w, 24.0, &ctx);
        c.close("euler-to-quaternion-unit", qq(&p).iter().fold(0.0, |s: Q, x| s + x * x) as f64, 1.0, 24.0 * T::U, || ctx());
        c.ok(e.roll() == e.data.data[0] && e.pitch() == e.data.data[1] && e.yaw() == e.data.data[2], "euler-entries", || ctx());
        c.ev("built from angles");
    }
    // --- a chain of conversions
    let n = 1 + r.below(10);
    enum S<T: aether_core::real::Real> { Q(Quaternion<T, A, B>), D(Dcm<T, A, B>), E(Euler<T, A, B>) }
    let mut s = S::Q(q);
    let mut path = String::from("Q");
    for _ in 0..n {
        s = match (s, r.below(2)) {
            (S::Q(q), 0) => { path.push('D'); S::D(if r.chance(0.5) { Dcm::from(&q) } else { q.to_dcm() }) }
            (S::Q(q), _) => { path.push('E'); S::E(Euler::from(&q)) }
            (S::D(d), 0) => match Quaternion::try_from(&d) { Ok(q) => { path.push('Q'); S::Q(q) } Err(_) => { c.fail("chain-refused", format!("{path} {}", ctx())); return; } },
            (S::D(d), _) => { path.push('E'); S::E(Euler::from(&d)) }
            (S::E(e), 0) => { path.push('D'); S::D(Dcm::from(e)) }
            (S::E(e), _) => { path.push('Q'); S::Q(Quaternion::from(&e)) }
        };
    }
    let m = match &s { S::Q(q) => rq(&qq(q)), S::D(d) => dd(d), S::E(e) => re(&ee(e)) };
    same::<T>(c, "conversion-chain", &m, &rr, 100.0 * (n as f64 + 1.0), &|| format!("{path} {}", ctx()));
    c.evn("conversions in chains", n as u64);
    // --- rotating vectors, every spelling
    let s = r.logu(1e-6, 1e6);
    let v: [T; 3] = r.unit3().map(|x| T::of(x * s));
    let vq: Vec<Q> = v.iter().map(|x| x.q()).collect();
    let w = la::mulv(&rr, &vq);
    let nv = la::norm(&vq) as f64;
    let scale = if r.chance(0.5) { r.logu(0.1, 10.0) } else { 1.0 + r.sign() * r.logu(1e-12, 1e-2) };
    let qs = Quaternion::<T, A, B>::new(q.w() * T::of(scale), q.i() * T::of(scale), q.j() * T::of(scale), q.k() * T::of(scale));
    let (vv, cv) = (Vector::new(v), Cartesian::<T, A>::new(v[0], v[1], v[2]));
    let outs: [(&'static str, Vector<T, 3>); 13] = [
        ("rotate-vector", q.rotate_vector(vv)), ("rotate-vec", q.rotate_vec(&vv)), ("rotate-cartesian", q.rotate_cartesian(cv).data), ("rotate-transform", cv.transform(&q).data),
        ("rotate-scaled-quaternion", qs.rotate_vector(vv)),
        ("quaternion*v", (q * cv).data), ("&quaternion*&v", (&q * &cv).data), ("&quaternion*v", (&q * cv).data), ("quaternion*&v", (q * &cv).data),
        ("matrix*v", (d * cv).data), ("&matrix*&v", (&d * &cv).data), ("&matrix*v", (&d * cv).data), ("matrix*&v", (d * &cv).data),
    ];
    for (k, o) in outs {
        for i in 0..3 { c.close(k, o.data[i].f(), w[i] as f64, 40.0 * T::U * nv, || format!("[{i}] v={v:?} {}", ctx())); }
        let no = la::norm(&o.data.iter().map(|x| x.q()).collect::<Vec<_>>()) as f64;
        c.close("length-kept", no, nv, 40.0 * T::U * nv, || format!("{k} v={v:?} {}", ctx()));
    }
    let back = q.inverse().rotate_vector(q.rotate_vector(vv));
    for i in 0..3 { c.close("inverse-undoes", back.data[i].f(), v[i].f(), 80.0 * T::U * nv, || ctx()); }
    same::<T>(c, "inverse-matrix", &rq(&qq(&q.inverse())), &rt, 24.0, &ctx);
    same::<T>(c, "scaled-to-matrix-method", &dd(&qs.to_dcm()), &rr, 48.0, &ctx);
    let one = qq(&(qs.inverse() * qs));
    for i in 0..4 { c.close("inverse-product", one[i] as f64, if i == 0 { 1.0 } else { 0.0 }, 40.0 * T::U, || format!("{:?} {}", qs.data.data, ctx())); }
    same::<T>(c, "rotation-normalises", &rq(&qq(Rotation::from(&qs).quaternion())), &rr, 48.0, &ctx);
    c.close("rotation-unit", qq(Rotation::from(&qs).quaternion()).iter().fold(0.0, |s: Q, x| s + x * x) as f64, 1.0, 24.0 * T::U, || ctx());
    c.ok(Rotation::from_quaternion(q).quaternion() == &q, "rotation-keeps", || ctx());
    c.evn("vector rotations", 14);
    c.sample(|| format!("{} {} path {path}", T::NAME, ctx()));
}

fn compose<T: Num>(r: &mut Rng, c: &mut Case) {
    let (qa, _, ka) = orient(r);
    let (qb, _, kb) = orient(r);
    let (qc, _, _) = orient(r);
    let (ab, bc, cd): (Quaternion<T, A, B>, Quaternion<T, B, C>, Quaternion<T, C, D>) = (unit(qa), unit(qb), unit(qc));
    for x in ab.data.data.iter().chain(&bc.data.data) { c.mix(x.bits()); }
    c.state((ka * 16 + kb) as u64 | 1 << 32);
    let ctx = || format!("ab={:?} bc={:?} cd={:?}", ab.data.data, bc.data.data, cd.data.data);
    let (ra, rb, rc) = (rq(&qq(&ab)), rq(&qq(&bc)), rq(&qq(&cd)));
    let w = la::mul(&rb, &ra);
    let w3 = la::mul(&rc, &w);
    let ac: Quaternion<T, A, C> = bc * ab;
    same::<T>(c, "quaternion-product", &rq(&qq(&ac)), &w, 48.0, &ctx);
    same::<T>(c, "quaternion-ref-product", &rq(&qq(&(&bc * &ab))), &w, 48.0, &ctx);
    c.close("quaternion-product-unit", qq(&ac).iter().fold(0.0, |s: Q, x| s + x * x) as f64, 1.0, 48.0 * T::U, || ctx());
    same::<T>(c, "matrix-product", &dd(&(Dcm::from(&bc) * Dcm::from(&ab))), &w, 64.0, &ctx);
    let rot = Rotation::from_quaternion(ab).compose(&Rotation::from_quaternion(bc));
    same::<T>(c, "rotation-compose", &rq(&qq(rot.quaternion())), &w, 48.0, &ctx);
    let rot3 = rot.compose(&Rotation::from_quaternion(cd));
    same::<T>(c, "rotation-compose-three", &rq(&qq(rot3.quaternion())), &w3, 96.0, &ctx);
    same::<T>(c, "quaternion-product-three", &rq(&qq(&(cd * (bc * ab)))), &w3, 96.0, &ctx);
    same::<T>(c, "quaternion-product-three-grouped", &rq(&qq(&((cd * bc) * ab))), &w3, 96.0, &ctx);
    same::<T>(c, "inverse-of-product", &rq(&qq(&(ab.inverse() * bc.inverse()))), &la::tr(&w), 64.0, &ctx);
    same::<T>(c, "identity-left", &rq(&qq(&(Quaternion::<T, B, B>::identity() * ab))), &ra, 24.0, &ctx);
    same::<T>(c, "identity-right", &rq(&qq(&(ab * Quaternion::<T, A, A>::identity()))), &ra, 24.0, &ctx);
    // vector through the composition and through the steps
    let v = Cartesian::<T, A>::new(T::of(r.normal()), T::of(r.normal()), T::of(r.normal()));
    let vq: Vec<Q> = v.data.data.iter().map(|x| x.q()).collect();
    let (x, y, z) = (la::mulv(&w, &vq), ac * v, bc * (ab * v));
    let nv = la::norm(&vq) as f64;
    for i in 0..3 {
        c.close("composed-vector", y.data.data[i].f(), x[i] as f64, 100.0 * T::U * nv, || ctx());
        c.close("stepwise-vector", z.data.data[i].f(), x[i] as f64, 100.0 * T::U * nv, || ctx());
    }
    // axis-angle: passive rotation about any (unnormalised) axis
    let ax: [T; 3] = { let s = r.logu(1e-3, 1e3); r.unit3().map(|u| T::of(u * s)) };
    let an = T::of(*r.pick(&[0.0, 1.0, -1.0, 0.5, 2.0]) * std::f64::consts::PI + if r.chance(0.5) { r.range(-7.0, 7.0) } else { 0.0 });
    let q = Quaternion::<T, A, B>::from_axis_angle(Vector::new(ax), an);
    let (nx, th) = (la::norm(&ax.iter().map(|x| x.q()).collect::<Vec<_>>()), an.q());
    let u: Vec<Q> = ax.iter().map(|x| x.q() / nx).collect();
    let mut m = la::zeros(3, 3);
    for i in 0..3 { for j in 0..3 {
        let k = (6 - i - j) % 3;
        let cr = if i == j { 0.0 } else if (i + 1) % 3 == j { u[k] } else { -u[k] };
        m[i][j] = (1.0 - th.cos()) * u[i] * u[j] + if i == j { th.cos() } else { 0.0 } + cr * th.sin();
    } }
    same::<T>(c, "axis-angle", &rq(&qq(&q)), &m, 32.0 + 8.0 * an.f().abs(), &|| format!("axis {ax:?} angle {an:?}"));
    c.close("axis-angle-unit", qq(&q).iter().fold(0.0, |s: Q, x| s + x * x) as f64, 1.0, 16.0 * T::U, || format!("{ax:?} {an:?}"));
    for (i, d) in [Dcm::<T, A, B>::rotate_x(an), Dcm::rotate_y(an), Dcm::rotate_z(an)].iter().enumerate() { same::<T>(c, "elementary-rotation", &dd(d), &r1(i, th), 8.0, &|| format!("axis {i} angle {an:?}")); }
    // raw algebra
    let (p, o) = (qq(&ab), qq(&Quaternion::<T, A, B>::new(bc.w(), bc.i(), bc.j(), bc.k())));
    let other = Quaternion::<T, A, B>::new(bc.w(), bc.i(), bc.j(), bc.k());
    let h = [p[0]*o[0]-p[1]*o[1]-p[2]*o[2]-p[3]*o[3], p[0]*o[1]+p[1]*o[0]+p[2]*o[3]-p[3]*o[2], p[0]*o[2]-p[1]*o[3]+p[2]*o[0]+p[3]*o[1], p[0]*o[3]+p[1]*o[2]-p[2]*o[1]+p[3]*o[0]];
    let s = T::of(r.logu(0.1, 10.0) * r.sign());
    let (hm, ad, su, ne, mu, di, cj, no) = (ab.mul_hamilton_same(&other), ab + other, ab - other, -ab, ab * s, ab / s, ab.conjugate(), (ab * s).normalized());
    let dot = p[0]*o[0]+p[1]*o[1]+p[2]*o[2]+p[3]*o[3];
    c.close("quaternion-dot", ab.dot(&other).f(), dot as f64, 8.0 * T::U, || ctx());
    c.close("quaternion-norm", (ab * s).norm().f(), s.f().abs(), 16.0 * T::U * s.f().abs(), || ctx());
    c.close("quaternion-norm2", (ab * s).norm2().f(), s.f() * s.f(), 16.0 * T::U * s.f() * s.f(), || ctx());
    for i in 0..4 {
        let t = |x: f64| 8.0 * T::U * x.max(1.0);
        c.close("hamilton", qq(&hm)[i] as f64, h[i] as f64, t(1.0), || ctx());
        c.close("quaternion-add", qq(&ad)[i] as f64, (p[i] + o[i]) as f64, t(1.0), || ctx());
        c.close("quaternion-sub", qq(&su)[i] as f64, (p[i] - o[i]) as f64, t(1.0), || ctx());
        c.ok(qq(&ne)[i] == -p[i], "quaternion-neg", || ctx());
        c.close("quaternion-scale", qq(&mu)[i] as f64, (p[i] * s.q()) as f64, t(10.0), || ctx());
        c.close("quaternion-div", qq(&di)[i] as f64, (p[i] / s.q()) as f64, t(10.0), || ctx());
        c.ok(qq(&cj)[i] == if i == 0 { p[i] } else { -p[i] }, "conjugate", || ctx());
        c.close("normalized", qq(&no)[i] as f64 * s.f().signum(), p[i] as f64, t(2.0), || ctx());
    }
    let fp = Quaternion::<T, A, B>::from_parts(ab.w(), Cartesian::new(ab.i(), ab.j(), ab.k()));
    c.ok(fp == ab && qq(&Quaternion::<T, A, B>::identity()) == [1.0, 0.0, 0.0, 0.0], "from-parts", || ctx());
    // Euler arithmetic is component-wise
    let (x, y) = (Euler::<T, A, B>::new(T::of(r.normal()), T::of(r.normal()), T::of(r.normal())), Euler::<T, A, B>::new(T::of(r.normal()), T::of(r.normal()), T::of(r.normal())));
    let adds = [x + y, x + &y, &x + y, &x + &y, { let mut t = x; t += y; t }, { let mut t = x; t += &y; t }];
    let subs = [x - y, x - &y, &x - y, &x - &y];
    for i in 0..3 {
        let (a, b) = (x.data.data[i].f(), y.data.data[i].f());
        for e in &adds { c.close("euler-add", e.data.data[i].f(), a + b, 2.0 * T::U * (a + b).abs(), || String::new()); }
        for e in &subs { c.close("euler-sub", e.data.data[i].f(), a - b, 2.0 * T::U * (a - b).abs(), || String::new()); }
        for e in [-x, -&x] { c.ok(e.data.data[i].f() == -a, "euler-neg", || String::new()); }
        for e in [x * s, &x * s] { c.close("euler-scale", e.data.data[i].f(), a * s.f(), 2.0 * T::U * (a * s.f()).abs(), || String::new()); }
        for e in [x / s, &x / s] { c.close("euler-div", e.data.data[i].f(), a / s.f(), 4.0 * T::U * (a / s.f()).abs(), || String::new()); }
    }
    c.ev("compositions");
    c.sample(|| format!("{} {}", T::NAME, ctx()));
}

fn degrees(r: &mut Rng, c: &mut Case) {
    let d = [r.range(-400.0, 400.0), r.range(-100.0, 100.0), r.range(-400.0, 400.0)];
    for x in d { c.mixf(x); }
    let e = Euler::<f64, A, B>::from_degrees_vec(Vector::new(d));
    let back = e.to_degrees_vec();
    for i in 0..3 {
        c.close("euler-from-degrees", e.data.data[i], (d[i] as Q * PI / 180.0) as f64, 1e-15 * d[i].abs(), || format!("{d:?}"));
        c.close("euler-degrees-round-trip", back.data[i], d[i], 1e-15 * d[i].abs(), || format!("{d:?}"));
    }
}

/// Long random products stay unit and track the exact matrix product.
fn long<T: Num>(r: &mut Rng, c: &mut Case) {
    let n = if c.thorough { 2000 } else { 150 };
    let mut q = Quaternion::<T, A, A>::identity();
    let mut w = la::eye(3);
    let mut rot = Rotation::from_quaternion(q);
    for k in 0..n {
        let s: Quaternion<T, A, A> = unit(orient(r).0);
        c.mix(s.data.data[1].bits());
        w = la::mul(&rq(&qq(&s)), &w);
        q = s * q;
        rot = rot.compose(&Rotation::from_quaternion(s));
        if k % 50 == 49 {
            let t = 24.0 * (k as f64 + 4.0);
            if !same::<T>(c, "long-product", &rq(&qq(&q)), &w, t, &|| format!("after {k}")) { return; }
            if !same::<T>(c, "long-compose", &rq(&qq(rot.quaternion())), &w, t, &|| format!("after {k}")) { return; }
            c.close("long-unit", q.norm().f(), 1.0, t * T::U, || format!("after {k}"));
        }
    }
    c.evn("products in long chains", n);
}
macro_rules! table { ($r:expr, $case:expr; $($f:expr),* $(,)?) => {{
    let t: &[fn(&mut Rng, &mut Case)] = &[$($f),*];
    let k = ($case.idx as usize) % t.len();
    t[k]($r, $case)
}} }
fn main() {
    let mut x = Ctx::from_args("C04");
    x.family("represent", 40_000, 1_500_000, |r, c| table!(r, c; represent::<f64>, represent::<f64>, represent::<f32>));
    x.family("compose", 20_000, 800_000, |r, c| table!(r, c; compose::<f64>, compose::<f64>, compose::<f32>));
    x.family("degrees", 2000, 20_000, degrees);
    x.family("long", 60, 400, |r, c| table!(r, c; long::<f64>, long::<f32>));
    x.require("orientations near gimbal lock", 200);
    x.require("matrix to quaternion", 1000);
    x.require("compositions", 1000);
    x.finish()
}
