//! C11: World Magnetic Model against the gradient of the published potential, in binary128.
#![feature(f128)]
use aether_catalogs::wmm::*;
use aether_monitors::fw::*;
use std::sync::OnceLock;
type Q = f128;
const COF: &str = include_str!("../../data/WMM2025.COF");
const TV: &str = include_str!("../../data/WMM2025_TestValues.txt");
const N: usize = 12;
struct Tab { rec: Vec<(usize, usize, [f64; 4])>, poly: Vec<Vec<Q>>, epoch: f64, name: String, date: String }
fn fact(n: usize) -> Q { (1..=n).fold(1.0, |a, k| a * k as Q) }
fn tab() -> &'static Tab {
    static T: OnceLock<Tab> = OnceLock::new();
    T.get_or_init(|| {
        let mut rec = vec![]; let mut head = vec![];
        for (i, l) in COF.lines().enumerate() {
            let w: Vec<&str> = l.split_whitespace().collect();
            if i == 0 { head = w.iter().map(|s| s.to_string()).collect(); continue; }
            if w.len() < 6 { break; }
            rec.push((w[0].parse().unwrap(), w[1].parse().unwrap(), [2, 3, 4, 5].map(|k| w[k].parse::<f64>().unwrap())));
        }
        // sqrt(2 (n-m)!/(n+m)!) d^m/dx^m P_n(x), as coefficients of x
        let poly = rec.iter().map(|(n, m, _)| {
            let (n, m): (usize, usize) = (*n, *m);
            let mut c = vec![0.0 as Q; n + 1];
            for k in 0..=n / 2 { c[n - 2 * k] = (if k % 2 == 0 { 1.0 } else { -1.0 }) * fact(2 * n - 2 * k) / (fact(k) * fact(n - k) * fact(n - 2 * k)) / (1u64 << n) as Q; }
            for _ in 0..m { c = (1..c.len()).map(|i| c[i] * i as Q).collect(); }
            let s = if m == 0 { 1.0 as Q } else { (2.0 * fact(n - m) / fact(n + m)).sqrt() };
            c.iter().map(|x| x * s).collect()
        }).collect();
        Tab { rec, poly, epoch: head[0].parse().unwrap(), name: head[1].clone(), date: head[2].clone() }
    })
}
/// potentials (main field at `dt` years past the epoch, secular) at an Earth-fixed position in metres
fn potential(x: [Q; 3], dt: Q, nmax: usize) -> [Q; 2] {
    let t = tab();
    let a: Q = 6371200.0;
    let r = (x[0] * x[0] + x[1] * x[1] + x[2] * x[2]).sqrt();
    let u = [x[0] / r, x[1] / r, x[2] / r];
    let (mut cm, mut sm) = ([0.0 as Q; N + 1], [0.0 as Q; N + 1]);
    let mut zp = [1.0 as Q; N + 1];
    let mut rp = [1.0 as Q; N + 3];
    cm[0] = 1.0;
    for m in 1..=N { cm[m] = cm[m - 1] * u[0] - sm[m - 1] * u[1]; sm[m] = sm[m - 1] * u[0] + cm[m - 1] * u[1]; zp[m] = zp[m - 1] * u[2]; }
    for n in 1..N + 3 { rp[n] = rp[n - 1] * (a / r); }
    let mut v = [0.0 as Q; 2];
    for ((n, m, k), p) in t.rec.iter().zip(&t.poly) {
        if *n > nmax { continue; }
        let pl: Q = p.iter().enumerate().filter(|(_, c)| **c != 0.0).map(|(i, c)| c * zp[i]).sum::<Q>() * rp[n + 1] * a;
        let (g, h) = (k[0] as Q + dt * k[2] as Q, k[1] as Q + dt * k[3] as Q);
        v[0] += pl * (g * cm[*m] + h * sm[*m]);
        v[1] += pl * (k[2] as Q * cm[*m] + k[3] as Q * sm[*m]);
    }
    v
}
/// (field, secular variation) in geodetic north-east-down, and the geocentric radius and latitude
fn truth(lat: f64, lon: f64, h: f64, dt: Q, nmax: usize) -> ([Q; 3], [Q; 3], Q, Q) {
    let f: Q = 1.0 / 298.257223563; let a: Q = 6378137.0; let e2 = f * (2.0 - f);
    let (sp, cp, sl, cl) = ((lat as Q).sin(), (lat as Q).cos(), (lon as Q).sin(), (lon as Q).cos());
    let n = a / (1.0 - e2 * sp * sp).sqrt();
    let x = [(n + h as Q) * cp * cl, (n + h as Q) * cp * sl, (n * (1.0 - e2) + h as Q) * sp];
    let r = (x[0] * x[0] + x[1] * x[1] + x[2] * x[2]).sqrt();
    let d = r * 1e-10;
    let (mut b, mut s) = ([0.0 as Q; 3], [0.0 as Q; 3]);
    for i in 0..3 {
        let (mut p, mut q) = (x, x);
        p[i] += d; q[i] -= d;
        let (vp, vq) = (potential(p, dt, nmax), potential(q, dt, nmax));
        b[i] = -(vp[0] - vq[0]) / (2.0 * d);
        s[i] = -(vp[1] - vq[1]) / (2.0 * d);
    }
    let ned = |b: [Q; 3]| [-sp * cl * b[0] - sp * sl * b[1] + cp * b[2], -sl * b[0] + cl * b[1], -cp * cl * b[0] - cp * sl * b[1] - sp * b[2]];
    (ned(b), ned(s), r, (x[2] / (x[0] * x[0] + x[1] * x[1]).sqrt()).atan())
}
fn field(r: &mut Rng, c: &mut Case) {
    use std::f64::consts::{FRAC_PI_2, PI};
    let m = match r.below(3) { 0 => WorldMagneticModel::embedded(), 1 => WMM_2025, _ => WorldMagneticModel::default() };
    let cls = r.below(6);
    let lat = match cls { 0 => 0.0, 1 => r.sign() * (FRAC_PI_2 - r.logu(1e-6, 1e-1)), 2 => (r.int(-89, 89) as f64).to_radians(), _ => r.range(-1.0, 1.0).asin() };
    let lon = match r.below(6) { 0 => *r.pick(&[0.0, PI, -PI, FRAC_PI_2, -FRAC_PI_2, 2.0 * PI, -0.0]), 1 => r.range(-20.0, 20.0), 2 => r.sign() * (PI - r.logu(1e-12, 1e-2)), _ => r.range(-PI, PI) };
    let h = match r.below(5) { 0 => 0.0, 1 => r.range(-10e3, 1e3), 2 => r.range(0.0, 850e3), 3 => r.logu(1.0, 1e8), _ => r.range(-1e3, 100e3) };
    let yr = match r.below(4) { 0 => *r.pick(&[2025.0, 2026.0, 2027.5, 2030.0]), 1 => r.range(2000.0, 2060.0), 2 if r.chance(0.5) => r.range(-8000.0, 12000.0), _ => r.range(2025.0, 2030.0) };
    for v in [lat, lon, h, yr] { c.mixf(v); }
    let pt = if r.chance(0.3) { GeodeticPoint::from_degrees(lat.to_degrees(), lon.to_degrees(), h) } else { GeodeticPoint::new(lat, lon, h) };
    let mut co = m.coefficients_at(yr);
    let nmax = if r.chance(0.25) { 1 + r.below(N) } else { N };
    co.max_degree = nmax;
    let res = if nmax == N && r.chance(0.7) { m.evaluate(yr, pt) } else { m.evaluate_with_coefficients(&co, pt) };
    let e = match res { Ok(e) => e, Err(e) => { c.fail("refused", format!("lat={lat} lon={lon} h={h} year={yr} degree={nmax}: {e:?}")); return; } };
    let dt = yr as Q - tab().epoch as Q;
    let (b, s, rad, glat) = truth(pt.latitude_rad, pt.longitude_rad, h, dt, nmax);
    let f = |v: Q| v as f64;
    let ctx = || format!("lat={lat:e} lon={lon:e} h={h} year={yr} degree={nmax} got {:?} sv {:?} want {:?} sv {:?}", (e.field_ned_nt.x(), e.field_ned_nt.y(), e.field_ned_nt.z()), (e.secular_variation_ned_nt_per_year.x(), e.secular_variation_ned_nt_per_year.y(), e.secular_variation_ned_nt_per_year.z()), b.map(f), s.map(f));
    let cp = f(glat.cos()).max(1e-9);
    let dy = (yr - 2025.0).abs();
    let loc = 1.0 + (lon.abs() / PI);
    let tb = (7e4 + 50.0 * dy) * 1e-13 * loc * (1.0 + 0.03 / cp);
    let ts = 100.0 * 1e-13 * loc * (1.0 + 0.03 / cp);
    c.close("north", e.field_ned_nt.x(), f(b[0]), tb, ctx);
    c.close("east", e.field_ned_nt.y(), f(b[1]), tb, ctx);
    c.close("down", e.field_ned_nt.z(), f(b[2]), tb, ctx);
    c.close("sv-north", e.secular_variation_ned_nt_per_year.x(), f(s[0]), ts, ctx);
    c.close("sv-east", e.secular_variation_ned_nt_per_year.y(), f(s[1]), ts, ctx);
    c.close("sv-down", e.secular_variation_ned_nt_per_year.z(), f(s[2]), ts, ctx);
    c.close("geocentric-radius", e.geocentric.radius_m, f(rad), 1e-15 * 8.0 * f(rad), ctx);
    c.close("geocentric-latitude", e.geocentric.latitude_rad, f(glat), 4e-16 * (2.0 + 1.0 / cp), ctx);
    c.ok(e.geocentric.longitude_rad.to_bits() == pt.longitude_rad.to_bits() && e.geodetic == pt && e.decimal_year == yr, "echoed-inputs", || format!("{e:?}"));
    // elements from the vector
    let hh = (b[0] * b[0] + b[1] * b[1]).sqrt();
    let ff = (hh * hh + b[2] * b[2]).sqrt();
    c.close("horizontal", e.horizontal_intensity_nt, f(hh), 2.0 * tb, ctx);
    c.close("total", e.total_intensity_nt, f(ff), 2.0 * tb, ctx);
    c.close("inclination", e.inclination_rad, f(b[2].atan2(hh)), 2.0 * tb / f(ff) + 1e-15, ctx);
    if f(hh) > 1e4 * tb {
        let dd = e.declination_rad - f(b[1].atan2(b[0]));
        let dd = dd - (dd / (2.0 * PI)).round() * 2.0 * PI;
        c.close("declination", dd, 0.0, 3.0 * tb / f(hh) + 1e-15, ctx);
        if lat.abs() < 55f64.to_radians() { c.ok(e.grid_variation_rad == e.declination_rad, "grid-variation", || format!("{e:?}")); }
        let hd = (b[0] * s[0] + b[1] * s[1]) / hh;
        let fd = (b[0] * s[0] + b[1] * s[1] + b[2] * s[2]) / ff;
        let rel = f(1e-3 + (s[0].abs() + s[1].abs() + s[2].abs()));
        let tr = 4.0 * (ts + rel * tb / f(hh));
        c.close("horizontal-rate", e.horizontal_intensity_rate_nt_per_year, f(hd), tr, ctx);
        c.close("total-rate", e.total_intensity_rate_nt_per_year, f(fd), tr, ctx);
        c.close("declination-rate", e.declination_rate_rad_per_year, f((b[0] * s[1] - b[1] * s[0]) / (hh * hh)), 2.0 * tr / f(hh), ctx);
        c.close("inclination-rate", e.inclination_rate_rad_per_year, f((hh * s[2] - b[2] * hd) / (ff * ff)), 4.0 * tr / f(ff), ctx);
        c.ev("element rates compared");
    }
    c.state(((lat + FRAC_PI_2) * 8.0) as u64 * 1000 + ((lon.rem_euclid(2.0 * PI)) * 6.0) as u64 * 20 + (h.max(1.0).log10() as u64));
    c.ev("field evaluations");
    if nmax < N { c.ev("truncated models"); }
    if cls == 1 { c.ev("near-pole evaluations"); }
    if lon.abs() > PI { c.ev("wrapped longitudes"); }
    c.sample(ctx);
}
/// finite-difference of the field over years equals the reported secular variation; other exact relations
fn poles(r: &mut Rng, c: &mut Case) {
    let m = WorldMagneticModel::embedded();
    let d = match r.below(3) { 0 => 0.0, 1 => r.logu(1e-16, 1e-9), _ => r.logu(1e-9, 1e-6) };
    let lat = r.sign() * (std::f64::consts::FRAC_PI_2 - d);
    let (lon, h, yr) = (r.range(-4.0, 4.0), r.range(-1e3, 8e5), r.range(2025.0, 2030.0));
    for v in [lat, lon, h, yr] { c.mixf(v); }
    match m.evaluate(yr, GeodeticPoint::new(lat, lon, h)) {
        Ok(e) => {
            let (b, _, _, _) = truth(lat, lon, h, yr as Q - 2025.0, N);
            let tol = 2e-5 + 2e-11 / d;
            let g = [e.field_ned_nt.x(), e.field_ned_nt.y(), e.field_ned_nt.z()];
            for i in 0..3 { c.close("polar-field", g[i], b[i] as f64, tol, || format!("colatitude={d:e} lat={lat:e} lon={lon} h={h} got {g:?} want {:?}", b.map(|v| v as f64))); }
            c.ev("polar evaluations");
        }
        Err(WmmError::PoleSingularity { latitude_rad }) => { c.ok(d < 1.1e-12, "refused-off-pole", || format!("colatitude {d:e} reported {latitude_rad}")); c.ev("pole refusals"); }
        Err(e) => c.fail("refused", format!("colatitude {d:e}: {e:?}")),
    }
}
fn coeffs(r: &mut Rng, c: &mut Case) {
    let t = tab();
    let m = match c.idx % 3 { 0 => WorldMagneticModel::embedded(), 1 => WMM_2025, _ => WorldMagneticModel::default() };
    let yr = match r.below(3) { 0 => 2025.0 + r.below(6) as f64, 1 => r.range(-8000.0, 12000.0), _ => r.range(1990.0, 2060.0) };
    c.mixf(yr);
    let k = m.coefficients_at(yr);
    c.ok(m.header.epoch == t.epoch && m.header.model_name == t.name && m.header.release_date == t.date && m.max_degree == N && k.max_degree == N && k.decimal_year == yr && m.records().len() == t.rec.len(), "header", || format!("{:?}", m.header));
    for (i, (n, o, v)) in t.rec.iter().enumerate() {
        let q = m.records()[i];
        c.ok((q.degree, q.order, [q.g_nm_nt, q.h_nm_nt, q.g_dot_nm_nt_per_year, q.h_dot_nm_nt_per_year]) == (*n, *o, *v), "record", || format!("{q:?} published {n} {o} {v:?}"));
        let d = yr as Q - t.epoch as Q;
        let w = [(v[0] as Q + d * v[2] as Q) as f64, (v[1] as Q + d * v[3] as Q) as f64];
        c.close("g-at-year", k.g(*n, *o), w[0], 1e-11 + 1e-13 * (yr - 2025.0).abs(), || format!("{n},{o} year {yr}"));
        c.close("h-at-year", k.h(*n, *o), w[1], 1e-11 + 1e-13 * (yr - 2025.0).abs(), || format!("{n},{o} year {yr}"));
        c.ok(k.g_dot(*n, *o) == v[2] && k.h_dot(*n, *o) == v[3], "rates", || format!("{n},{o}: {} {}", k.g_dot(*n, *o), k.h_dot(*n, *o)));
        c.ev("coefficients compared");
    }
    let (n, o) = (r.below(40), r.below(40));
    if n > N || o > n { c.ok(k.g(n, o) == 0.0 && k.h(n, o) == 0.0 && k.g_dot(n, o) == 0.0 && k.h_dot(n, o) == 0.0, "outside-model", || format!("{n},{o}")); }
}
fn published(_r: &mut Rng, c: &mut Case) {
    let rows: Vec<Vec<f64>> = TV.lines().filter(|l| !l.starts_with('#') && !l.trim().is_empty()).map(|l| l.split_whitespace().map(|w| w.parse().unwrap()).collect()).collect();
    let v = &rows[c.idx as usize % rows.len()];
    for x in v.iter() { c.mixf(*x); }
    let e = match WorldMagneticModel::embedded().evaluate(v[0], GeodeticPoint::from_degrees(v[2], v[3], v[1] * 1e3)) { Ok(e) => e, Err(e) => { c.fail("refused", format!("{e:?}")); return; } };
    let g = [e.declination_rad.to_degrees(), e.inclination_rad.to_degrees(), e.horizontal_intensity_nt, e.field_ned_nt.x(), e.field_ned_nt.y(), e.field_ned_nt.z(), e.total_intensity_nt, e.declination_rate_rad_per_year.to_degrees(), e.inclination_rate_rad_per_year.to_degrees(), e.horizontal_intensity_rate_nt_per_year, e.secular_variation_ned_nt_per_year.x(), e.secular_variation_ned_nt_per_year.y(), e.secular_variation_ned_nt_per_year.z(), e.total_intensity_rate_nt_per_year];
    for i in 0..14 { let tol = [0.0051, 0.0051, 1e-3, 1e-3, 1e-3, 1e-3, 1e-3, 2e-6, 2e-6, 2e-6, 2e-6, 2e-6, 2e-6, 2e-6][i]; c.close("published-value", g[i], v[4 + i], tol, || format!("row {v:?} column {}", 5 + i)); }
    c.ev("published rows");
}
fn main() {
    let mut x = Ctx::from_args("C11");
    x.family("field", 4_000, 120_000, field);
    x.family("poles", 800, 20_000, poles);
    x.family("coefficients", 300, 3_000, coeffs);
    x.family("published", 100, 100, published);
    x.serial("radii", 1, 1, |_r, c| { use aether_catalogs::wmm::*; c.ok(wmm_reference_radius_m() == 6371200.0, "reference-radius", || format!("{:e}", wmm_reference_radius_m())); c.close("mean-radius", wgs84_mean_radius_m(), 6371008.771415059, 2e-9, || "the WGS-84 mean radius (2a + b) / 3".into()); });
    for (e, n) in [("field evaluations", 1000), ("element rates compared", 1000), ("truncated models", 200), ("near-pole evaluations", 200), ("wrapped longitudes", 200), ("pole refusals", 20), ("polar evaluations", 200), ("published rows", 100), ("coefficients compared", 9000)] { x.require(e, n); }
    x.finish()
}
