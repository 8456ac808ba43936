//! C31: lunar gravity, frames and orbit, and the celestial constants, against closed formulas in binary128.
#![feature(f128)]
use aether_core::attitude::DirectionCosineMatrix as Dcm;
use aether_core::coordinate::Cartesian;
use aether_core::math::Matrix;
use aether_core::reference_frame::ICRF;
use aether_models::celestial::constants as cel;
use aether_models::lunar::{constants as lc, moon::Moon, orbit::MoonOrbitAroundEarth, transforms as tf, LIRF, LTRF};
use aether_models::terrestrial::{earth::Earth, iers::constants as ie, wgs84::constants as wg};
use aether_monitors::{fw::*, hp::PI, la};
type Q = f128;
const GM: Q = 4.902800118e12;
const DAY: Q = 86400.0;
const ROT: Q = 27.321661;
const U: f64 = f64::EPSILON;

fn mm(m: &Matrix<f64, 3, 3>) -> la::M { m.data.iter().map(|r| r.iter().map(|x| *x as Q).collect()).collect() }
fn rz(a: Q) -> la::M { let (c, s) = (a.cos(), a.sin()); vec![vec![c, s, 0.0], vec![-s, c, 0.0], vec![0.0, 0.0, 1.0]] }
fn diff(a: &la::M, b: &la::M) -> f64 { let mut m = 0.0f64; for i in 0..3 { for j in 0..3 { let e = (a[i][j] - b[i][j]).abs() as f64; if e.is_nan() { return f64::INFINITY } m = m.max(e) } } m }
fn time(r: &mut Rng) -> f64 {
    let p = 27.321661 * 86400.0;
    match r.below(7) { 0 => 0.0, 1 => p * r.int(-40, 40) as f64 * 0.25 + r.sign() * r.logu(1e-6, 1e3), 2 => r.sign() * r.logu(1e-9, 1.0), 3 => r.range(-1e10, 1e10), 4 => (r.int(-1_000_000, 1_000_000) * 3600) as f64, _ => r.range(-3.0 * p, 3.0 * p) }
}
fn rot(r: &mut Rng) -> la::M {
    match r.below(4) {
        0 => la::eye(3),
        1 => rz(r.range(-3.2, 3.2) as Q),
        _ => { let q = r.unit4(); let v: Vec<Q> = q.iter().map(|x| *x as Q).collect(); let n = la::norm(&v); let (w, x, y, z) = (v[0] / n, v[1] / n, v[2] / n, v[3] / n);
            vec![vec![1.0 - 2.0 * (y * y + z * z), 2.0 * (x * y + w * z), 2.0 * (x * z - w * y)], vec![2.0 * (x * y - w * z), 1.0 - 2.0 * (x * x + z * z), 2.0 * (y * z + w * x)], vec![2.0 * (x * z + w * y), 2.0 * (y * z - w * x), 1.0 - 2.0 * (x * x + y * y)]] }
    }
}
fn frames(r: &mut Rng, c: &mut Case) {
    let (t, epoch) = (time(r), if r.chance(0.3) { 0.0 } else { time(r) });
    let b = rot(r); let d: Vec<f64> = b.iter().flatten().map(|x| *x as f64).collect();
    let bq: la::M = d.chunks(3).map(|r| r.iter().map(|x| *x as Q).collect()).collect();
    let base = Dcm::<f64, ICRF<f64>, LIRF>::new(d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8]);
    let m = Moon::with_epoch_orientation(epoch, base);
    c.mixf(t); c.mixf(epoch); for x in &d { c.mixf(*x) }
    // the angle turned since `t0`, as the caller's double difference
    let turn = |dt: f64| 2.0 * PI * (dt as Q) / (ROT * DAY);
    let tol = |dt: f64| 8.0 * U * (1.0 + turn(dt).abs() as f64);
    let ctx = || format!("t={t:?} epoch={epoch:?} base={d:?}");
    let mut is = |name: &'static str, got: la::M, want: la::M, tol: f64| { c.close(name, diff(&got, &want), 0.0, tol, || format!("{} got {:?} want {:?}", ctx(), got.concat().iter().map(|x| *x as f64).collect::<Vec<_>>(), want.concat().iter().map(|x| *x as f64).collect::<Vec<_>>()));
        c.close("rigid", diff(&la::mul(&got, &la::tr(&got)), &la::eye(3)), 0.0, 16.0 * U, ctx); c.close("proper", la::inv_det(&got).1 as f64, 1.0, 16.0 * U, ctx); };
    is("inertial-aligned", mm(tf::icrf_to_lirf().as_matrix()), la::eye(3), 0.0);
    is("inertial-aligned-back", mm(tf::lirf_to_icrf().as_matrix()), la::eye(3), 0.0);
    let z = rz(turn(t));
    is("lirf-to-ltrf", mm(tf::lirf_to_ltrf(t).as_matrix()), z.clone(), tol(t));
    is("ltrf-to-lirf", mm(tf::ltrf_to_lirf(t).as_matrix()), la::tr(&z), tol(t));
    is("icrf-to-ltrf", mm(tf::icrf_to_ltrf(t).as_matrix()), z.clone(), tol(t));
    is("ltrf-to-icrf", mm(tf::ltrf_to_icrf(t).as_matrix()), la::tr(&z), tol(t));
    let zb = la::mul(&z, &bq);
    is("icrf-to-ltrf-at-epoch", mm(tf::icrf_to_ltrf_at_epoch(t, base).as_matrix()), zb.clone(), tol(t));
    is("ltrf-to-icrf-at-epoch", mm(tf::ltrf_to_icrf_at_epoch(t, base).as_matrix()), la::tr(&zb), tol(t));
    // the Moon itself turns from its epoch
    let dt = t - epoch; let z = rz(turn(dt)); let zb = la::mul(&z, &bq);
    is("moon-icrf-to-lirf", mm(m.icrf_to_lirf().as_matrix()), bq.clone(), 0.0);
    is("moon-lirf-to-icrf", mm(m.lirf_to_icrf().as_matrix()), la::tr(&bq), 0.0);
    is("moon-icrf-to-ltrf", mm(m.icrf_to_ltrf(t).as_matrix()), zb.clone(), tol(dt));
    is("moon-ltrf-to-icrf", mm(m.ltrf_to_icrf(t).as_matrix()), la::tr(&zb), tol(dt));
    is("moon-lirf-to-ltrf", mm(m.lirf_to_ltrf(t).as_matrix()), z.clone(), tol(dt));
    is("moon-ltrf-to-lirf", mm(m.ltrf_to_lirf(t).as_matrix()), la::tr(&z), tol(dt));
    // typed vectors go through and come back
    let v: Vec<f64> = r.unit3().iter().map(|x| x * r.logu(1e-3, 1e9)).collect();
    let p = Cartesian::<f64, ICRF<f64>>::new(v[0], v[1], v[2]);
    let q: Cartesian<f64, LTRF> = m.icrf_to_ltrf(t) * p; let back: Cartesian<f64, ICRF<f64>> = m.ltrf_to_icrf(t) * q;
    let n = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
    for (i, (g, w)) in [(back.x(), v[0]), (back.y(), v[1]), (back.z(), v[2])].iter().enumerate() { c.close("round-trip", *g, *w, 24.0 * U * n, || format!("{} v={v:?} axis {i}", ctx())); }
    if epoch != 0.0 { c.ev("moons with another epoch") } if dt.abs() > 1e9 { c.ev("decades from the epoch") } if t == 0.0 { c.ev("time zero") }
    c.state(((turn(dt) / (PI / 4.0)).floor() as i64).rem_euclid(8) as u64 * 4 + (d[0] == 1.0) as u64 * 2 + (epoch == 0.0) as u64);
}
fn gravity(r: &mut Rng, c: &mut Case) {
    let mut m = Moon::new();
    let own = r.chance(0.3); if own { m.gravitational_constant = r.logu(1e3, 1e20) }
    let gm = if own { m.gravitational_constant as Q } else { GM };
    let n = match r.below(5) { 0 => 1737400.0, 1 => 1737400.0 + r.logu(1.0, 1e5), 2 => r.logu(1e-3, 1e3), _ => r.logu(1e3, 1e12) };
    let e = r.unit3(); let mut v = [e[0] * n, e[1] * n, e[2] * n]; if r.chance(0.2) { let k = r.below(3); v = [0.0; 3]; v[k] = r.sign() * n; c.ev("on an axis") }
    let mass = match r.below(4) { 0 => 0.0, 1 => 1.0, _ => r.logu(1e-6, 1e9) };
    for x in v { c.mixf(x) } c.mixf(mass); c.mixf(m.gravitational_constant);
    let p: Vec<Q> = v.iter().map(|x| *x as Q).collect(); let l = la::norm(&p);
    let pos = Cartesian::<f64, LTRF>::new(v[0], v[1], v[2]);
    let (a, f) = (m.gravitational_acceleration(pos), m.solve_gravitational_force(pos, mass));
    let ctx = || format!("r={v:?} mass={mass:?} gm={:?}", gm as f64);
    let s = (gm / (l * l)) as f64;
    for i in 0..3 {
        let w = (-gm * p[i] / (l * l * l)) as f64;
        c.close("acceleration", a.data.data[i], w, 16.0 * U * w.abs() + 1e-290, || format!("{} got {:?}", ctx(), a.data.data));
        c.close("force", f.data.data[i], w * mass, 20.0 * U * (w * mass).abs() + 1e-290, || format!("{} got {:?}", ctx(), f.data.data));
    }
    c.mixf(s);
    // gravity-gradient torque of any symmetric inertia
    let k = r.logu(1e-3, 1e9); let mut im = [[0.0f64; 3]; 3];
    for i in 0..3 { for j in i..3 { let x = if i == j { k * r.range(0.1, 1.0) } else if r.chance(0.5) { 0.0 } else { k * r.range(-0.3, 0.3) }; im[i][j] = x; im[j][i] = x } }
    if r.chance(0.1) { im = [[k, 0.0, 0.0], [0.0, k, 0.0], [0.0, 0.0, k]]; c.ev("spherical inertia") }
    let iq: la::M = im.iter().map(|r| r.iter().map(|x| *x as Q).collect()).collect();
    let w: Vec<Q> = la::cross(&p, &la::mulv(&iq, &p)).iter().map(|x| 3.0 * gm * x / (l * l * l * l * l)).collect();
    let t = m.solve_gravitational_torque(pos, Matrix::new(im)).data.data;
    let mag = (3.0 * gm * (k as Q) * 3.0 / (l * l * l)) as f64;
    for i in 0..3 { c.close("torque", t[i], w[i] as f64, 32.0 * U * mag, || format!("{} I={im:?} got {t:?} want {:?}", ctx(), w.iter().map(|x| *x as f64).collect::<Vec<_>>())); }
    // at the centre
    let z = if r.chance(0.5) { [0.0; 3] } else { [r.sign() * 1e-17, 0.0, r.sign() * 1e-18] };
    let o = Cartesian::<f64, LTRF>::new(z[0], z[1], z[2]);
    let all = [m.gravitational_acceleration(o), m.solve_gravitational_force(o, mass), m.solve_gravitational_torque(o, Matrix::new(im))];
    c.ok(all.iter().all(|x| x.data.data == [0.0; 3]), "centre", || format!("{} at {z:?}: {:?}", ctx(), all.iter().map(|x| x.data.data).collect::<Vec<_>>()));
    c.ev("positions"); if n < 1e3 { c.ev("positions near the centre") }
}
fn orbit(r: &mut Rng, c: &mut Case) {
    let o = MoonOrbitAroundEarth { semi_major_axis_m: r.logu(1e5, 1e12), eccentricity: r.unit(), inclination_rad: r.range(0.0, 3.1), sidereal_period_s: r.logu(1.0, 1e9), mu_earth_m3_s2: r.logu(1e8, 1e20), mu_moon_m3_s2: if r.chance(0.2) { 0.0 } else { r.logu(1e8, 1e20) } };
    for x in [o.semi_major_axis_m, o.sidereal_period_s, o.mu_earth_m3_s2, o.mu_moon_m3_s2] { c.mixf(x) }
    let mu = o.mu_earth_m3_s2 as Q + o.mu_moon_m3_s2 as Q; let a = o.semi_major_axis_m as Q;
    let mut is = |n: &'static str, g: f64, w: Q| { c.close(n, g, w as f64, 8.0 * U * w.abs() as f64, || format!("{o:?}")); };
    is("mu-total", o.mu_total_m3_s2(), mu);
    is("mean-motion", o.mean_motion_rad_s(), 2.0 * PI / o.sidereal_period_s as Q);
    is("kepler-period", o.keplerian_period_s(), 2.0 * PI * (a * a * a / mu).sqrt());
    c.ev("orbits");
}
fn constants(c: &mut Case) {
    let mut k = |n: &str, g: f64, w: Q, rel: f64| { c.close("constant", g, w as f64, rel * (w.abs() as f64), || n.to_string()); c.ev("constants"); };
    let e = 2.0 * U;
    k("deg to rad", cel::DEGREES_TO_RADIANS, PI / 180.0, e); k("rad to deg", cel::RADIANS_TO_DEGREES, 180.0 / PI, e);
    for (n, f, b, w) in [("arcmin", cel::DEGREES_TO_ARCMINUTES, cel::ARCMINUTES_TO_DEGREES, 60.0f64), ("arcsec", cel::DEGREES_TO_ARCSECONDS, cel::ARCSECONDS_TO_DEGREES, 3600.0), ("mas", cel::DEGREES_TO_MILLIARCSECONDS, cel::MILLIARCSECONDS_TO_DEGREES, 3.6e6), ("uas", cel::DEGREES_TO_MICROARCSECONDS, cel::MICROARCSECONDS_TO_DEGREES, 3.6e9)] { k(n, f, w as Q, 0.0); k(n, b, 1.0 / w as Q, e); }
    k("pi", cel::IAU_DPI, PI, e); k("2pi", cel::IAU_D2PI, 2.0 * PI, e); k("R2D", cel::IAU_DR2D, 180.0 / PI, e); k("D2R", cel::IAU_DD2R, PI / 180.0, e);
    k("R2AS", cel::IAU_DR2AS, 648000.0 / PI, e); k("AS2R", cel::IAU_DAS2R, PI / 648000.0, e); k("S2R", cel::IAU_DS2R, PI / 43200.0, e); k("TURNAS", cel::IAU_TURNAS, 1296000.0, 0.0); k("MAS2R", cel::IAU_DMAS2R, PI / 648000000.0, e);
    k("DTY", cel::IAU_DTY, 365.242198781, 0.0); k("DAYSEC", cel::IAU_DAYSEC, DAY, 0.0); k("DJY", cel::IAU_DJY, 365.25, 0.0); k("DJC", cel::IAU_DJC, 36525.0, 0.0); k("DJM", cel::IAU_DJM, 365250.0, 0.0);
    k("J2000", cel::IAU_DJ00, 2451545.0, 0.0); k("MJD0", cel::IAU_DJM0, 2400000.5, 0.0); k("J2000 MJD", cel::IAU_DJM00, 51544.5, 0.0); k("1977", cel::IAU_DJM77, 43144.0, 0.0);
    k("TT-TAI", cel::IAU_TTMTAI, 32.184, e); k("AU", cel::IAU_DAU, 149597870700.0, 0.0); k("c", cel::IAU_CMPS, 299792458.0, 0.0); k("AULT", cel::IAU_AULT, 149597870700.0 / 299792458.0, e); k("DC", cel::IAU_DC, DAY * 299792458.0 / 149597870700.0, 2.0 * e);
    k("L_G", cel::IAU_ELG, 6.969290134e-10, e); k("L_B", cel::IAU_ELB, 1.550519768e-8, e); k("TDB0", cel::IAU_TDB0, -6.55e-5, e); k("SRS", cel::IAU_SRS, 2.0 * 1.32712440041e20 / (299792458.0 * 299792458.0) / 149597870700.0, 1e-11);
    k("iers c", ie::speed_of_light, 299792458.0, 0.0); k("iers AU", ie::astronomical_unit, 149597870700.0, 0.0); k("iers L_G", ie::l_g, 6.969290134e-10, e); k("iers L_B", ie::l_b, 1.550519768e-8, e); k("iers TDB0", ie::tdb_0, -6.55e-5, e);
    let (lg, lcq) = (ie::l_g as Q, ie::l_c as Q); k("L_B = L_C + L_G - L_C L_G", ie::l_b, lcq + lg - lcq * lg, 1e-9);
    let g = ie::gaussian_gravitational_constant as Q; let au = ie::astronomical_unit as Q; k("GM sun = k^2 AU^3 / day^2", ie::heliocentric_gravitational_constant, g * g * au * au * au / (DAY * DAY), 3e-8); k("GM sun", ie::heliocentric_gravitational_constant, 1.32712442099e20, e); k("k", ie::gaussian_gravitational_constant, 1.720209895e-2, e); k("moon mass ratio", ie::moon_earth_mass_ratio, 0.0123000371, e); k("W0", ie::earth_geoid_potential, 62636856.0, e); k("L_C", ie::l_c, 1.48082686741e-8, e);
    k("mass ratio", ie::moon_earth_mass_ratio, lc::SELENOCENTRIC_GRAVITATIONAL_CONSTANT as Q / ie::geocentric_gravitational_constant as Q, 5e-8);
    k("GM earth", ie::geocentric_gravitational_constant, 3.986004418e14, 0.0); k("G", ie::gravitational_constant, 6.67428e-11, e); k("R0 = GM / W0", ie::earth_geoid_potential_scale_factor, ie::geocentric_gravitational_constant as Q / ie::earth_geoid_potential as Q, 1e-8);
    k("ERA rate", ie::earth_angular_rate, 1.00273781191135448, e); k("ERA at J2000", ie::earth_angular_position_initial, 0.7790572732640, e);
    k("rate of the Earth", Earth::new().rotational_velocity.z(), 2.0 * PI * ie::earth_angular_rate as Q / DAY, 1e-14); k("J2", ie::earth_dynamical_form_factor, 1.0826359e-3, e); k("1/f", ie::earth_flattening_factor, 298.25642, e); k("a", ie::earth_equatorial_radius, 6378136.6, e); k("ge", ie::earth_mean_equatorial_gravity, 9.7803278, e); k("H", ie::earth_dynamical_flattening, 3273795e-9, e); k("obliquity", ie::ecliptic_obliquity, 84381.406, e); k("J2 sun", ie::sun_dynamical_form_factor, 2e-7, e);
    k("GM moon", lc::SELENOCENTRIC_GRAVITATIONAL_CONSTANT, GM, 0.0); k("R moon", lc::MOON_MEAN_RADIUS, 1737400.0, 0.0); k("moon rotation", lc::MOON_SIDEREAL_ROTATION_RATE_RAD_S, 2.0 * PI / (ROT * DAY), 2.0 * e);
    k("moon mass", lc::MOON_MASS, GM / (ie::gravitational_constant as Q), 2.0 * e); k("moon a", lc::MOON_SEMIMAJOR_AXIS_M, 384.4e6, 0.0); k("moon e", lc::MOON_ORBIT_ECCENTRICITY, 0.0549, e); k("moon i", lc::MOON_ORBIT_INCLINATION_RAD, 5.145 * PI / 180.0, 2.0 * e); k("moon period", lc::MOON_SIDEREAL_ORBIT_PERIOD_S, ROT * DAY, e);
    // WGS 84 (NGA.STND.0036) as printed: tolerances are the last printed digit
    for (n, g, w, tol) in [
        ("a", wg::a, 6378137.0 as Q, 0.0), ("GM", wg::GM, 3.986004418e14, 0.0), ("w", wg::w, 7.292115e-5, 1e-20), ("C20 dyn", wg::c20dyn, -4.84165143790815e-4, 1e-19), ("C22 dyn", wg::c22dyn, 2.43938357328313e-6, 1e-21),
        ("c", wg::c, 299792458.0, 0.0), ("G", wg::G, 6.67428e-11, 1e-25), ("M_A", wg::M_A, 5.1480e18, 0.0), ("H", wg::H, 3.273795e-3, 1e-17), ("GM GPS", wg::GM_GPSNAV, 3.986005e14, 0.0),
        ("b", wg::b, 6356752.3142, 1e-4), ("f", wg::f, 3.3528106647475e-3, 1e-16), ("e", wg::e, 8.1819190842622e-2, 1e-15), ("e^2", wg::e2, 6.694379990141e-3, 1e-15), ("e'", wg::e_prime, 8.2094437949696e-2, 1e-15), ("e'^2", wg::e_prime_squared, 6.739496742276e-3, 1e-15),
        ("E", wg::E, 5.2185400842339e5, 1e-8), ("c polar", wg::R_p, 6399593.6258, 1e-4), ("b/a", wg::AR, 9.96647189335e-1, 1e-12), ("R1", wg::R_1, 6371008.7714, 1e-4), ("R2", wg::R_2, 6371007.1809, 1.1e-4), ("R3", wg::R_3, 6371000.79, 1e-4),
        ("C20 geo", wg::c20geo, -4.84166774985e-4, 1e-15), ("J2 geo", wg::J2geo, 1.082629821313e-3, 1e-15), ("U0", wg::U_0, 62636851.7146, 1e-4), ("g_e", wg::g_e, 9.7803253359, 1e-10), ("g_p", wg::g_p, 9.8321849379, 1.1e-10), ("mean g", wg::g_mean, 9.7976432223, 1.1e-10),
        ("k", wg::k, 1.931852652458e-3, 1e-15), ("m", wg::m, 3.449786506841e-3, 1e-15), ("M", wg::M, 5.9721864e24, 1e17), ("GM'", wg::GM_prime, 3.986000982e14, 1e5), ("GM_A", wg::GM_A, 3.4359e8, 1e4),
        ("A", wg::A_dyn, 8.0079215e37, 1.1e30), ("B", wg::B_dyn, 8.0080746e37, 1.1e30), ("C", wg::C_dyn, 8.0343007e37, 1.1e30), ("A geo", wg::A_geo, 8.0467266e37, 1.1e30), ("C geo", wg::C_geo, 8.0730294e37, 1.1e30),
    ] { k(n, g, w, (tol / w.abs()) as f64); }
    { // mean gravity over the surface: Somigliana's formula weighted by area
        let (a, b, e2) = (6378137.0 as Q, 6356752.314245179497563967 as Q, 6.694379990141316435e-3 as Q); let (ge, gp) = (wg::g_e as Q, wg::g_p as Q); let (mut sg, mut sa) = (0.0 as Q, 0.0 as Q); let n = 2000;
        for i in 0..=n { let t = i as Q / n as Q * PI / 2.0; let (s, co) = (t.sin(), t.cos()); let v = 1.0 - e2 * s * s; let da = co / (v * v) * if i == 0 || i == n { 1.0 } else if i % 2 == 1 { 4.0 } else { 2.0 }; sa += da; sg += da * (a * ge * co * co + b * gp * s * s) / (a * a * co * co + b * b * s * s).sqrt(); }
        k("mean of normal gravity", wg::g_mean, sg / sa, 3e-11);
    }
    let (m, o, w) = (Moon::new(), MoonOrbitAroundEarth::new(), Earth::new());
    k("Moon.mass G", m.mass * ie::gravitational_constant, GM, 2.0 * e); k("Moon.mu", m.gravitational_constant, GM, 0.0); k("Moon.radius", m.radius, 1737400.0, 0.0); k("Moon.rate", m.rotational_rate_rad_s, 2.0 * PI / (ROT * DAY), 2.0 * e); k("Moon.epoch", m.epoch_time, 0.0, 0.0);
    k("Orbit.mu", o.mu_total_m3_s2(), GM + 3.986004418e14, e); k("Orbit.period", o.sidereal_period_s, ROT * DAY, e); k("Orbit.mean motion: locked to the rotation", o.mean_motion_rad_s(), m.rotational_rate_rad_s as Q, 2.0 * e); k("Orbit.kepler", o.keplerian_period_s(), ROT * DAY, 0.01);
    k("Earth.mass G", w.mass * ie::gravitational_constant, 3.986004418e14, 2.0 * e); k("Earth.radius", w.radius, 6378136.6, e);
    c.mix(1);
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut x = Ctx::from_args("C31");
    x.all("constants", 1, |_, c| constants(c));
    x.family("frames", 60000, 3000000, frames);
    x.family("gravity", 100000, 5000000, gravity);
    x.family("orbit", 50000, 1000000, orbit);
    for (e, n) in [("constants", 110), ("moons with another epoch", 5000), ("decades from the epoch", 2000), ("time zero", 500), ("positions", 20000), ("positions near the centre", 2000), ("on an axis", 2000), ("spherical inertia", 1000), ("orbits", 10000)] { x.require(e, n) }
    x.finish()
}
