//! C10: ISA and US Standard Atmosphere against their layer definitions, integrated in binary128.
#![feature(f128)]
use aether_models::terrestrial::atmospheres::{isa::ISA, ussa::USSA};
use aether_models::terrestrial::earth::Earth;
use aether_monitors::fw::*;
type Q = f128;
const G0: Q = 9.80665;
const R0: Q = 6356766.0;

/// temperature and pressure by integrating dp/p = -g0 dh / (R T) through linear layers from sea level
fn layers(h: Q, tab: &[(Q, Q)], t0: Q, p0: Q, rair: Q) -> (Q, Q) {
    // tab: (base height, gradient) ascending; first entry also extends below its base
    let (mut t, mut p) = (t0, p0);
    let step = |t: Q, p: Q, l: Q, d: Q| -> (Q, Q) {
        if l == 0.0 { (t, p * (-G0 * d / (rair * t)).exp()) } else { let t2 = t + l * d; (t2, p * (t2 / t).powf(-G0 / (rair * l))) }
    };
    for (i, (b, l)) in tab.iter().enumerate() {
        let top = tab.get(i + 1).map(|x| x.0);
        if top.is_none() || h <= top.unwrap() { return step(t, p, *l, h - *b); }
        (t, p) = step(t, p, *l, top.unwrap() - *b);
    }
    unreachable!()
}
const ISA_T: [(Q, Q); 7] = [(0.0, -6.5e-3), (11000.0, 0.0), (20000.0, 1e-3), (32000.0, 2.8e-3), (47000.0, 0.0), (51000.0, -2.8e-3), (71000.0, -2e-3)];
const ISA_B: [f64; 9] = [-5000.0, 0.0, 11000.0, 20000.0, 32000.0, 47000.0, 51000.0, 71000.0, 80000.0];

fn isa(r: &mut Rng, c: &mut Case) {
    let a = ISA::new();
    let h = match r.below(4) { 0 => { let b = *r.pick(&ISA_B); (b + *r.pick(&[-1e-9, 0.0, 1e-9, 0.5, -0.5])).clamp(-5000.0, 80000.0) } 1 => r.range(-5000.0, 11000.0), _ => r.range(-5000.0, 80000.0) };
    c.mixf(h);
    let (t, p) = layers(h as Q, &ISA_T, 288.15, 101325.0, 287.05287);
    let (gt, gp, gd) = (a.temperature(h), a.pressure(h), a.density(h));
    let ctx = || format!("h={h} T {gt:?} p {gp:?} rho {gd:?} want {} {}", t as f64, p as f64);
    let (gt, gp, gd) = match (gt, gp, gd) { (Ok(x), Ok(y), Ok(z)) => (x, y, z), _ => { c.fail("refused", ctx()); return; } };
    c.close("temperature", gt, t as f64, 1e-9, ctx);
    // the model's own base rows are densities printed to six digits
    c.close("pressure", gp / p as f64, 1.0, 5e-5, ctx);
    c.close("gas-law", gd * (8314.32 / 28.964420) * gt / gp, 1.0, 1e-12, ctx);
    c.close("density", gd / (p / (287.05287 * t)) as f64, 1.0, 5e-5, ctx);
    // strictly decreasing over any step larger than the printed digits
    let d = r.logu(2.0, 5000.0);
    if h + d <= 80000.0 { let q = a.pressure(h + d).unwrap_or(f64::NAN); c.ok(q < gp, "pressure-decreases", || format!("p({})={q} {}", h + d, ctx())); }
    // within one layer the barometric law holds to rounding
    let i = ISA_B.iter().position(|b| h <= *b).unwrap_or(8);
    if i > 0 {
        let (lo, hi) = (ISA_B[i - 1], ISA_B[i]);
        let h2 = r.range(lo, hi);
        if h2 > lo && h2 < hi && h > lo {
            let (t2, p2) = layers(h2 as Q, &ISA_T, 288.15, 101325.0, 287.05287);
            let _ = t2;
            let q = a.pressure(h2).unwrap_or(f64::NAN);
            c.close("barometric-law", (q / gp) / (p2 / p) as f64, 1.0, 2e-11, || format!("h2={h2} p2={q} {}", ctx()));
        }
        c.state(i as u64 * 64 + ((h - lo) / (hi - lo) * 63.0) as u64);
    }
    c.ev("ISA states");
    c.sample(ctx);
}
fn isa_misc(r: &mut Rng, c: &mut Case) {
    let a = ISA::new();
    let h = match r.below(5) { 0 => 80000.0 + r.logu(1e-9, 1e9), 1 => f64::NAN, 2 => f64::INFINITY, 3 => f64::from_bits(80000f64.to_bits() + 1), _ => r.logu(8.1e4, 1e300) };
    c.mixf(h);
    c.ok(a.temperature(h).is_err() && a.pressure(h).is_err() && a.density(h).is_err(), "above-range-answered", || format!("h={h} {:?} {:?} {:?}", a.temperature(h), a.pressure(h), a.density(h)));
    let b = -5000.0 - r.logu(1e-6, 5e3);
    let v = (a.temperature(b), a.pressure(b), a.density(b));
    match v { (Ok(t), Ok(p), Ok(d)) => { c.ok(t.is_finite() && p.is_finite() && d.is_finite() && t > 320.0 && p > 177000.0 && d > 1.9, "below-range", || format!("h={b} {v:?}")); } _ => { c.ev("below range refused"); } }
    let z = match r.below(3) { 0 => r.range(-10000.0, 100000.0), 1 => r.range(-5e5, 5e6), _ => 0.0 };
    let g = ISA::gravity(z);
    let w = G0 * (R0 / (R0 + z as Q)) * (R0 / (R0 + z as Q));
    c.close("gravity", g, w as f64, 1e-14 * w as f64, || format!("z={z}"));
    let hh = a.geopotential_altitude(z);
    let wh = R0 * z as Q / (R0 + z as Q);
    c.close("geopotential", hh, wh as f64, 1e-15 * 4.0 * wh.abs() as f64, || format!("z={z}"));
    let back = a.geometric_altitude(hh);
    c.close("geopotential-round-trip", back, z, 1e-14 * (z.abs() + hh.abs() * 10.0) * (1.0 + z.abs() / 1e6), || format!("z={z} h={hh} back={back}"));
    c.ev("ISA range probes");
}

// US Standard Atmosphere 1976, rows as published over geometric height
const UB: [f64; 13] = [0.0, 11019.0, 20063.0, 32162.0, 47350.0, 51413.0, 71802.0, 86000.0, 91000.0, 110000.0, 120000.0, 500000.0, 1000000.0];
const UT: [f64; 13] = [288.15, 216.65, 216.65, 228.65, 270.65, 270.65, 214.65, 186.87, 186.87, 240.0, 360.0, 999.24, 1000.0];
const UP: [f64; 13] = [101325.0, 22632.0, 5474.8, 868.01, 110.9, 66.938, 3.9564, 0.37338, 0.15381, 7.1042e-3, 2.5382e-3, 3.0236e-4, 7.5138e-6];
const UL: [f64; 7] = [-6.5e-3, 0.0, 1e-3, 2.8e-3, 0.0, -2.8e-3, -2e-3];
const US_T: [(Q, Q); 7] = [(0.0, -6.5e-3), (11000.0, 0.0), (20000.0, 1e-3), (32000.0, 2.8e-3), (47000.0, 0.0), (51000.0, -2.8e-3), (71000.0, -2e-3)];
const MR: Q = 8314.32 / 28.9644;

fn upper_temperature(z: f64) -> f64 {
    if z < 91000.0 { 186.87 }
    else if z < 110000.0 { let x = (z - 91000.0) / 19942.9; 263.1905 - 76.3232 * (1.0 - x * x).sqrt() }
    else if z < 120000.0 { 240.0 + 12e-3 * (z - 110000.0) }
    else { 1000.0 - 640.0 * (-0.01875e-3 * (z - 120000.0) * (6356766.0 + 120000.0) / (6356766.0 + z)).exp() }
}
fn ussa(r: &mut Rng, c: &mut Case) {
    let a = USSA::new();
    let h = match r.below(4) { 0 => { let b = UB[r.below(12)]; b + *r.pick(&[-1e-6, 0.0, 1e-6, 1.0, -1.0, 500.0]) } 1 => r.range(-2000.0, 11019.0), 2 => r.range(86000.0, 999_999.9), _ => r.range(-1000.0, 86000.0) };
    c.mixf(h);
    let (gt, gp, gd, gs, gm) = (a.temperature(h), a.pressure(h), a.density(h), a.speed_of_sound(h), a.dynamic_viscosity(h));
    let ctx = || format!("h={h} T {gt:?} p {gp:?} rho {gd:?} a {gs:?} mu {gm:?}");
    let (t, p, d, s, m) = match (&gt, &gp, &gd, &gs, &gm) { (Ok(t), Ok(p), Ok(d), Ok(s), Ok(m)) => (*t, *p, *d, *s, *m), _ => { c.fail("refused", ctx()); return; } };
    let i = (0..12).rev().find(|i| h >= UB[*i]).unwrap_or(0);
    // exact layer formula
    let gp_diff = R0 * h as Q / (R0 + h as Q) - R0 * UB[i] as Q / (R0 + UB[i] as Q);
    let wt = if i < 7 { UT[i] + UL[i] * gp_diff as f64 } else { upper_temperature(h) };
    c.close("temperature-layer-formula", t, wt, 1e-9, ctx);
    if i < 7 {
        // the standard itself: linear in geopotential height
        let (st, sp) = layers(R0 * h as Q / (R0 + h as Q), &US_T, 288.15, 101325.0, MR);
        c.close("temperature-standard", t, st as f64, 0.01, || format!("standard {} {}", st as f64, ctx()));
        c.close("pressure-standard", p / sp as f64, 1.0, 1e-3, || format!("standard {} {}", sp as f64, ctx()));
        // barometric law from the layer's own base row
        let (tb, pb, l, dz) = (UT[i] as Q, UP[i] as Q, UL[i] as Q, gp_diff);
        let wp = if l == 0.0 { pb * (-G0 * dz / (MR * tb)).exp() } else { pb * (tb / (tb + l * dz)).powf(G0 / (MR * l)) };
        c.close("pressure-barometric", p / wp as f64, 1.0, 1e-10, || format!("want {} {}", wp as f64, ctx()));
        let dd = r.logu(5.0, 3000.0);
        // base rows are four digits and the heights geometric: allow the step the rows themselves have
        if h + dd < UB[i + 1] || dd > 300.0 { let q = a.pressure(h + dd).unwrap_or(f64::NAN); c.ok(q < p, "pressure-decreases", || format!("p({})={q} {}", h + dd, ctx())); }
    } else {
        // between two rows of the published table the pressure lies between their values
        let key = ["pressure-rows-86-91", "pressure-rows-91-110", "pressure-rows-110-120", "pressure-rows-120-500", "pressure-rows-500-1000"][i - 7];
        let (hi, lo) = (UP[i] * 1.03, UP[i + 1] * 0.85);
        c.ok(p <= hi && p >= lo, key, || format!("published rows {} {}, {}", UP[i], UP[i + 1], ctx()));
        let near = ["pressure-approach-86-91", "pressure-approach-91-110", "pressure-approach-110-120", "pressure-approach-120-500", "pressure-approach-500-1000"][i - 7];
        if h > UB[i + 1] * 0.997 { c.ok((0.6..1.6).contains(&(p / UP[i + 1])), near, || format!("published row {}, {}", UP[i + 1], ctx())); }
        if i == 7 { c.close("pressure-barometric", p / (UP[7] as Q * (-G0 * (h as Q - 86000.0) / (MR * 186.87)).exp()) as f64, 1.0, 1e-10, ctx); }
        if i == 9 { c.close("pressure-barometric", p / (UP[9] as Q * (240.0 / (240.0 + 12e-3 * (h as Q - 110000.0))).powf(G0 / (MR * 12e-3))) as f64, 1.0, 1e-10, ctx); }
        if h == UB[i] { c.close("pressure-at-row", p / UP[i], 1.0, 1e-9, ctx); }
    }
    let (tq, pq) = (t as Q, p as Q);
    c.close("gas-law", d / (pq / (MR * tq)) as f64, 1.0, 1e-12, ctx);
    c.close("speed-of-sound", s / (1.4 * MR * tq).sqrt() as f64, 1.0, 1e-12, ctx);
    c.close("viscosity", m / (1.458e-6 * tq * tq.sqrt() / (tq + 110.4)) as f64, 1.0, 1e-12, ctx);
    let e = if r.chance(0.5) { Earth::new() } else { Earth::default() };
    let v = [e.get_temperature(h), e.get_pressure(h), e.get_density(h), e.get_speed_of_sound(h)];
    c.ok(v == [Ok(t), Ok(p), Ok(d), Ok(s)], "earth-same-atmosphere", || format!("{v:?} {}", ctx()));
    c.state(i as u64 * 64 + ((h - UB[i]) / (UB[i + 1] - UB[i]) * 63.0).max(0.0) as u64);
    c.ev("USSA states");
    c.sample(ctx);
}
fn ussa_joins(r: &mut Rng, c: &mut Case) {
    let a = USSA::new();
    let i = 1 + r.below(11);
    let e = r.logu(1e-6, 1.0);
    let (x, y) = (UB[i] - e, UB[i] + e);
    c.mixf(x);
    let (tx, ty) = (a.temperature(x).unwrap_or(f64::NAN), a.temperature(y).unwrap_or(f64::NAN));
    // rows are rounded to whole metres, and 86 km is where the table switches to kinetic temperature
    let tol = if i == 7 { 0.1 } else { 0.02 } + 0.05 * e;
    c.close("temperature-continuous", tx, ty, tol, || format!("at {} : {tx} {ty}", UB[i]));
    let (px, py) = (a.pressure(x).unwrap_or(f64::NAN), a.pressure(y).unwrap_or(f64::NAN));
    if i < 7 { c.close("pressure-continuous", px / py, 1.0, 2e-3, || format!("at {} : {px} {py}", UB[i])); }
    let h = match r.below(5) { 0 => 1e6, 1 => 1e6 + r.logu(1e-6, 1e9), 2 => f64::NAN, 3 => f64::INFINITY, _ => r.logu(1e6, 1e300) };
    let er = Earth::new();
    let v = guard(|| (a.temperature(h).is_err(), a.pressure(h).is_err(), a.density(h).is_err(), a.speed_of_sound(h).is_err(), a.dynamic_viscosity(h).is_err(),
        er.get_temperature(h).is_err() && er.get_pressure(h).is_err() && er.get_density(h).is_err() && er.get_speed_of_sound(h).is_err()));
    c.ok(matches!(v, Ok((true, true, true, true, true, true))), "beyond-range", || format!("h={h} refused: {v:?}"));
    c.ev("USSA boundary probes");
}
fn main() {
    let mut x = Ctx::from_args("C10");
    x.family("isa", 60_000, 2_000_000, isa);
    x.family("isa-range", 10_000, 300_000, isa_misc);
    x.family("ussa", 60_000, 2_000_000, ussa);
    x.family("ussa-boundaries", 10_000, 300_000, ussa_joins);
    for e in ["ISA states", "ISA range probes", "USSA states", "USSA boundary probes"] { x.require(e, 1000); }
    x.finish()
}
