//! C28: view and projection matrices and the orbit camera, against f128 geometry.
#![feature(f128)]
use aether_core::coordinate::Cartesian;
use aether_core::math::{Matrix, Vector};
use aether_core::reference_frame::ReferenceFrame;
use aether_graphics::cameras::orbit_camera::OrbitCamera;
use aether_graphics::graphics::transforms::*;
use aether_monitors::{fw::*, num::Num};

type Q = f128;
mod hq { pub fn sin(x: f128) -> f128 { x.sin() } pub fn cos(x: f128) -> f128 { x.cos() } pub fn tan(x: f128) -> f128 { x.tan() } }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
struct W;
impl ReferenceFrame for W {}

fn v3<T: Num>(v: &Vector<T, 3>) -> [Q; 3] { [v.data[0].q(), v.data[1].q(), v.data[2].q()] }
fn m4<T: Num>(m: &Matrix<T, 4, 4>) -> [[Q; 4]; 4] { std::array::from_fn(|i| std::array::from_fn(|j| m.data[i][j].q())) }
fn dot(a: &[Q; 3], b: &[Q; 3]) -> Q { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn cross(a: &[Q; 3], b: &[Q; 3]) -> [Q; 3] { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn norm(a: &[Q; 3]) -> Q { dot(a, a).sqrt() }
fn unit(a: &[Q; 3]) -> [Q; 3] { let n = norm(a); [a[0] / n, a[1] / n, a[2] / n] }
fn ap(m: &[[Q; 4]; 4], p: &[Q; 3], w: Q) -> [Q; 4] { std::array::from_fn(|i| m[i][0] * p[0] + m[i][1] * p[1] + m[i][2] * p[2] + m[i][3] * w) }
fn f3(a: &[Q; 3]) -> [f64; 3] { a.map(|x| x as f64) }
fn card<T: Num>(a: [T; 3]) -> Cartesian<T, W> { Cartesian::new(a[0], a[1], a[2]) }

fn dir(r: &mut Rng) -> [f64; 3] {
    if r.chance(0.3) { let mut d = [0.0; 3]; d[r.below(3)] = r.sign(); d } else { r.unit3() }
}
fn look<T: Num>(r: &mut Rng, c: &mut Case) {
    let far = *r.pick(&[0.0, 1.0, 1.0, 1e3, 1e7]); let d = r.logu(1e-3, 1e6);
    let (e, f) = (dir(r), dir(r));
    let eye: [T; 3] = std::array::from_fn(|i| T::of(e[i] * far * 1.3)); let ctr: [T; 3] = std::array::from_fn(|i| T::of(eye[i].f() + f[i] * d));
    let mut up = dir(r); let s = r.logu(1e-2, 1e2);
    if r.chance(0.2) { let k = r.logu(1e-4, 1e-1); for i in 0..3 { up[i] = f[i] * r.sign() + k * up[i] } c.ev("up nearly along the line of sight") }
    let upt: [T; 3] = std::array::from_fn(|i| T::of(up[i] * s));
    let (qe, qc, qu) = (eye.map(|x| x.q()), ctr.map(|x| x.q()), upt.map(|x| x.q()));
    let dv: [Q; 3] = std::array::from_fn(|i| qc[i] - qe[i]);
    let dist = norm(&dv); let u = T::U as Q;
    if dist == 0.0 { c.trivial(); return }
    let fq = unit(&dv); let uu = unit(&qu); let sin = norm(&cross(&fq, &uu));
    let rel = u * (1.0 + norm(&qe) / dist); // the sight line is only known this well after rounding the subtraction
    if !(sin > 1e-5) || (rel / sin > 1e-3) { c.trivial(); return }
    let (ee, cc, pp) = (card(eye), card(ctr), card(upt));
    let Ok(v) = guard(|| look_at(&ee, &cc, &pp)) else { c.fail("look-at-panicked", format!("{eye:?}")); return };
    let m = m4(&v); c.mixf(v.data[0][0].f()); c.ev(T::NAME);
    let what = || format!("{} eye {eye:?} centre {ctr:?} up {upt:?} gave {:?}", T::NAME, v.data);
    let tol = (30.0 * rel / sin) as f64;
    // rigid: orthonormal axes, right-handed, last row 0 0 0 1
    let ax: Vec<[Q; 3]> = (0..3).map(|i| [m[i][0], m[i][1], m[i][2]]).collect();
    for i in 0..3 { for j in 0..3 { c.close("look-orthonormal", dot(&ax[i], &ax[j]) as f64, (i == j) as u8 as f64, tol, what); } }
    c.ok(m[3] == [0.0, 0.0, 0.0, 1.0], "look-last-row", what);
    let det = dot(&cross(&ax[0], &ax[1]), &ax[2]);
    c.ok((det as f64 - 1.0).abs() <= 4.0 * tol, "look-handedness", || format!("determinant {:.3}; {}", det as f64, what()));
    // eye at the origin, target straight ahead at its distance, up in the upper half plane
    let scale = (norm(&qe) + dist) * u;
    let o = ap(&m, &qe, 1.0); for i in 0..3 { c.close("look-eye", o[i] as f64, 0.0, (40.0 * norm(&qe) * u) as f64 + 1e-300, what); }
    let t = ap(&m, &qc, 1.0); let tt = dist as f64 * tol + 40.0 * scale as f64;
    c.close("look-target", t[0] as f64, 0.0, tt, what); c.close("look-target", t[1] as f64, 0.0, tt, what); c.close("look-target", t[2] as f64, -dist as f64, tt, what);
    let w = ap(&m, &uu, 0.0); c.close("look-up", w[0] as f64, 0.0, tol, what); c.close("look-up", w[1] as f64, sin as f64, tol, what);
    // moving the world before viewing
    let td = r.unit3(); let ts = r.logu(1e-2, 1e4); let tr: [T; 3] = std::array::from_fn(|i| T::of(td[i] * ts));
    let tv = m4(&translate(&v, &Vector::new(tr)));
    let tq = tr.map(|x| x.q());
    let mo = ap(&m, &tq, 1.0);
    for i in 0..4 { for j in 0..4 {
        let want = if j < 3 { m[i][j] } else { mo[i] };
        let tol = if j < 3 { 0.0 } else { 10.0 * u * (norm(&tq) + norm(&qe)) };
        c.ok((tv[i][j] - want).abs() <= tol, "translate", || format!("entry {i},{j} {} want {} by {tr:?} of {}", tv[i][j] as f64, want as f64, what()));
    } }
    c.sample(|| what());
}
fn proj<T: Num>(r: &mut Rng, c: &mut Case) {
    let u = T::U as Q;
    let aspect = T::of(r.logu(0.1, 10.0)); let fov = T::of(if r.chance(0.3) { *r.pick(&[0.1, 0.7853981633974483, 1.0471975511965976, 1.5707963267948966, 2.0943951023931953]) } else { r.range(0.02, 3.0) });
    let near = T::of(r.logu(1e-4, 1e3)); let k = if r.chance(0.2) { 1.0 + r.logu(1e-3, 1.0) } else { r.logu(1.5, 1e9) };
    let mut fr = T::of(near.f() * k); let mut nr = near;
    if r.chance(0.1) { std::mem::swap(&mut fr, &mut nr); c.ev("reversed depth") }
    let (n, f) = (nr.q(), fr.q());
    let (e, t, up) = (card([T::of(1.0), T::of(2.0), T::of(-1.0)]), card([T::of(3.0), T::of(2.0), T::of(1.0)]), card([T::of(0.0), T::of(0.0), T::of(1.0)]));
    let Ok((p, both)) = guard(|| (perspective(aspect, fov, nr, fr), look_at_perspective(&e, &t, &up, aspect, fov, nr, fr))) else { c.fail("perspective-panicked", format!("{aspect} {fov} {nr} {fr}")); return };
    let m = m4(&p); c.mixf(p.data[0][0].f()); c.mixf(p.data[2][2].f()); c.ev(T::NAME);
    let what = || format!("{} aspect {aspect} fov {fov} near {nr} far {fr}: {:?}", T::NAME, p.data);
    c.ok(m4(&both.1) == m && m4(&both.0) == m4(&look_at(&e, &t, &up)), "look-at-perspective", what);
    let half = hq::tan(fov.q() / 2.0);
    let spread = (f + n).abs() / (f - n).abs();
    // tan of a rounded half angle near its pole: error grows with (half + 1/half)
    let tx = (30.0 * u * (1.0 + fov.q() * (half + 1.0 / half))) as f64;
    for (z, want) in [(n, -1.0), (f, 1.0)] {
        for sx in [-1.0, 0.0, 1.0] { for sy in [-1.0, 0.0, 1.0] {
            let pt = [sx * z * half * aspect.q(), sy * z * half, -z];
            let h = ap(&m, &pt, 1.0);
            c.close("clip-w", (h[3] / z) as f64, 1.0, 0.0, what);
            if h[3] == 0.0 { continue }
            c.close("clip-x", (h[0] / h[3]) as f64, sx as f64, tx, what);
            c.close("clip-y", (h[1] / h[3]) as f64, sy as f64, tx, what);
            c.close("clip-depth", (h[2] / h[3]) as f64, want, (20.0 * u * (1.0 + spread)) as f64 * 1.0, what);
        } }
    }
    c.evn("frustum points", 18);
    // inside the frustum depth follows 1/z
    let z = n + (f - n) * r.unit() as Q; let h = ap(&m, &[0.0, 0.0, -z], 1.0);
    let want = (f + n) / (f - n) - 2.0 * f * n / ((f - n) * z);
    c.close("clip-depth", (h[2] / z) as f64, want as f64, (20.0 * u * ((1.0 + spread) + (2.0 * f * n / ((f - n) * z)).abs())) as f64, what);
    c.sample(|| what());
}

fn rot(v: &[Q; 3], k: &[Q; 3], a: Q) -> [Q; 3] {
    let (s, co) = (hq::sin(a), hq::cos(a));
    let x = cross(k, v); let d = dot(k, v);
    std::array::from_fn(|i| v[i] * co + x[i] * s + k[i] * d * (1.0 - co))
}
fn right(f: &[Q; 3]) -> ([Q; 3], Q) { let r = cross(f, &[0.0, 0.0, 1.0]); let n = norm(&r); (unit(&r), n) }
fn orbit<T: Num>(r: &mut Rng, c: &mut Case) {
    let u = T::U as Q;
    let mut cam = OrbitCamera::<T>::default();
    let sens = if r.chance(0.5) { cam.orbit_sens } else { T::of(r.logu(1e-4, 0.1)) }; cam.orbit_sens = sens;
    let mut fwd: [Q; 3] = [1.0, 0.0, 0.0]; let mut log: Vec<String> = vec![];
    let steps = if c.thorough { 400 } else { 120 };
    c.ev(T::NAME);
    for _ in 0..steps {
        let ang = |r: &mut Rng| T::of(match r.below(8) { 0 => 0.0, 1 => r.range(-7.0, 7.0), 2 => r.sign() * 1.5707963267948966, 3 => r.sign() * std::f64::consts::PI, _ => r.normal() * 0.1 });
        let px = |r: &mut Rng| T::of(match r.below(6) { 0 => 0.0, 1 => r.range(-400.0, 400.0), _ => r.int(-30, 30) as f64 });
        let before = fwd; let z = [0.0, 0.0, 1.0 as Q];
        let op = r.below(20);
        let (want, cond, tele) = match op {
            0 | 1 => {
                let (y, p) = (ang(r), if r.chance(0.5) { T::of(r.range(-1.57, 1.57)) } else { ang(r) });
                cam.set_angles(y, p); log.push(format!("set_angles({y},{p})"));
                c.ok(cam.yaw.bits() == y.bits() && cam.pitch.bits() == p.bits(), "angles-kept", || format!("{y} {p}"));
                let (sy, cy, sp, cp) = (hq::sin(y.q()), hq::cos(y.q()), hq::sin(p.q()), hq::cos(p.q()));
                c.ev("set angles"); (Some([cp * cy, cp * sy, sp]), 1.0, false)
            }
            2 | 3 => { // world axes: about Y, then about X
                let (a, b) = if op == 2 { let (a, b) = (ang(r), ang(r)); cam.apply_orbit_world_angles(a, b); log.push(format!("world_angles({a},{b})")); (a, b) }
                    else { let (dx, dy) = (px(r), px(r)); cam.apply_orbit_world_pixels(dx, dy); log.push(format!("world_pixels({dx},{dy})")); (-dy * sens, -dx * sens) };
                let t = rot(&before, &[0.0, 1.0, 0.0], b.q());
                c.ev("world rotation"); (Some(rot(&t, &[1.0, 0.0, 0.0], a.q())), 1.0, true)
            }
            4 => { // zoom and pan act through the fields
                cam.distance = T::of(r.logu(1e-2, 1e8)); cam.min_dist = T::of(if r.chance(0.5) { 0.0 } else { r.logu(1e-2, 1e8) }); let t = dir(r); let s = r.logu(1e-2, 1e8); cam.target = Vector::new(std::array::from_fn(|i| T::of(t[i] * s)));
                log.push(format!("distance {} target {:?}", cam.distance, cam.target.data)); c.ev("zoom and pan"); (Some(before), 0.0, false)
            }
            _ => {
                let (dy, dp) = if op < 14 { let (a, b) = (px(r), px(r)); cam.apply_orbit_pixels(a, b); log.push(format!("pixels({a},{b})")); (-a * sens, -b * sens) }
                    else { let (a, b) = (ang(r), ang(r)); cam.apply_orbit_angles(a, b); log.push(format!("angles({a},{b})")); (a, b) };
                let t = rot(&before, &z, dy.q()); let (rt, n) = right(&t);
                c.ev("orbit");
                // straight up or down there is no horizontal right axis
                if n > 1e3 * u && n > 2e-8 { (Some(rot(&t, &rt, dp.q())), 1.0 / n, true) } else { c.ev("orbit through a pole"); (None, 1.0, true) }
            }
        };
        let got = v3(&cam.forward());
        let what = || format!("{} forward {:?} -> {:?}; {}", T::NAME, f3(&before), f3(&got), log[log.len().saturating_sub(4)..].join(" | "));
        c.close("forward-unit", norm(&got) as f64, 1.0, (8.0 * u) as f64, what);
        if let Some(w) = want {
            for i in 0..3 { c.close("forward", got[i] as f64, w[i] as f64, ((60.0 + 40.0 * cond) * u * if cond == 0.0 { 0.0 } else { 1.0 }) as f64, what); }
        }
        if tele {
            let (y, p) = (cam.yaw.q(), cam.pitch.q());
            c.close("telemetry", hq::sin(p) as f64, got[2] as f64, (10.0 * u) as f64, what);
            let h = (got[0] * got[0] + got[1] * got[1]).sqrt();
            if h > 0.0 { c.close("telemetry", (hq::cos(y) * got[1] - hq::sin(y) * got[0]) as f64, 0.0, (10.0 * u * h) as f64 + 1e-300, what); c.ok(hq::cos(y) * got[0] + hq::sin(y) * got[1] >= 0.0, "telemetry", what); }
        }
        // the camera's axes
        let (ri, up) = (v3(&cam.right()), v3(&cam.cam_up()));
        let ta = (40.0 * u) as f64;
        for (a, b, w) in [(&ri, &ri, 1.0), (&up, &up, 1.0), (&ri, &up, 0.0), (&ri, &got, 0.0), (&up, &got, 0.0)] { c.close("axes", dot(a, b) as f64, w, ta, what); }
        let (rt, n) = right(&got);
        if n > 1e3 * u && n > 2e-8 {
            for i in 0..3 { c.close("right", ri[i] as f64, rt[i] as f64, (20.0 * u / n) as f64 + ta, what); }
            c.ok(up[2] >= 0.0 && up[2] >= n - 40.0 * u, "up-hemisphere", || format!("up {:?}; {}", f3(&up), what()));
        } else { c.ev("looking along the pole") }
        c.ok(dot(&cross(&ri, &up), &got) < -0.999, "axes-handed", || format!("right {:?} up {:?}; {}", f3(&ri), f3(&up), what()));
        // the eye stays at its distance, behind the target
        let (pos, tg, d) = (v3(&cam.position()), v3(&cam.target), cam.distance.q());
        for i in 0..3 { c.close("position", pos[i] as f64, (tg[i] - got[i] * d) as f64, (8.0 * u * (tg[i].abs() + d)) as f64, what); }
        c.evn("states", 1); fwd = got;
        c.mixf(got[0] as f64);
    }
    c.sample(|| format!("{} after {} steps forward {:?}", T::NAME, steps, f3(&fwd)));
}
/// the camera's own axes are the axes of the view it defines
fn both<T: Num>(r: &mut Rng, c: &mut Case) {
    let mut cam = OrbitCamera::<T>::default();
    let (a, b) = (T::of(r.range(-3.2, 3.2)), T::of(r.range(-1.5, 1.5)));
    cam.set_angles(a, b); for _ in 0..r.below(5) { let (x, y) = (T::of(r.int(-50, 50) as f64), T::of(r.int(-50, 50) as f64)); cam.apply_orbit_pixels(x, y) }
    let s = r.logu(1.0, 1e3); cam.distance = T::of(s); let t = r.unit3(); cam.target = Vector::new(std::array::from_fn(|i| T::of(t[i] * s)));
    let (p, g) = (cam.position(), cam.target);
    let v = m4(&look_at(&card(p.data), &card(g.data), &card([T::of(0.0), T::of(0.0), T::of(1.0)])));
    let (f, ri, up) = (v3(&cam.forward()), v3(&cam.right()), v3(&cam.cam_up()));
    let n = right(&f).1; if n < 1e-3 { c.trivial(); return }
    let tol = (60.0 * T::U as Q / n) as f64; c.ev("camera views"); c.mixf(f[0] as f64);
    for i in 0..3 { for (row, w) in [(0, ri[i]), (1, up[i]), (2, -f[i])] { c.close("camera-view", v[row][i] as f64, w as f64, tol, || format!("{} row {row}: {:?} vs right {:?} up {:?} forward {:?}", T::NAME, v[row].map(|x| x as f64), f3(&ri), f3(&up), f3(&f))); } }
}

fn main() {
    let mut x = Ctx::from_args("C28");
    x.family("look-at-f64", 60000, 1000000, look::<f64>);
    x.family("look-at-f32", 60000, 1000000, look::<f32>);
    x.family("perspective-f64", 40000, 600000, proj::<f64>);
    x.family("perspective-f32", 40000, 600000, proj::<f32>);
    x.family("orbit-f64", 1500, 8000, orbit::<f64>);
    x.family("orbit-f32", 1500, 8000, orbit::<f32>);
    x.family("camera-view-f64", 10000, 100000, both::<f64>);
    x.family("camera-view-f32", 10000, 100000, both::<f32>);
    for (e, n) in [("f32", 50000), ("f64", 50000), ("up nearly along the line of sight", 5000), ("reversed depth", 3000), ("frustum points", 500000), ("states", 200000), ("set angles", 20000), ("world rotation", 20000), ("orbit", 100000), ("looking along the pole", 300), ("orbit through a pole", 100), ("camera views", 10000)] { x.require(e, n) }
    x.finish()
}
