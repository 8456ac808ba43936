//! C27: star records: motion, parsing, checksums and colours.
#![feature(f128)]
use aether_catalogs::star_catalogs::color::gaia_color::*;
use aether_catalogs::star_catalogs::*;
use aether_monitors::{fw::*, hp};
use sha2::{Digest, Sha256};
use std::fs;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

type Q = f128;
const AU_PER_PC: Q = 206264.806247096355156473357330778613f128;
static NEXT: AtomicU64 = AtomicU64::new(0);
fn root() -> PathBuf { std::env::temp_dir().join(format!("aether_c27_{}", std::process::id())) }
struct Tmp(PathBuf);
impl Tmp { fn new(data: &[u8]) -> Self { let p = root().join(NEXT.fetch_add(1, SeqCst).to_string()); fs::create_dir_all(root()).unwrap(); fs::write(&p, data).unwrap(); Tmp(p) } }
impl Drop for Tmp { fn drop(&mut self) { let _ = fs::remove_file(&self.0); } }

fn of(r: &mut Rng, p: f64, f: impl Fn(&mut Rng) -> f32) -> Option<f32> { if r.chance(p) { Some(f(r)) } else { None } }
fn text(r: &mut Rng, p: f64) -> Option<String> {
    if !r.chance(p) { return None }
    Some(r.pick(&["GAIADR3", "HIPPARCOS", "GAIADR3 ", "gaiadr3", "V", "a,b", "say \"x\"", " padded ", "δ Vel", "two\nlines", "-", "0"]).to_string())
}
fn record(r: &mut Rng) -> GncRecord {
    let mag = |r: &mut Rng| (r.range(-1.5, 21.0)) as f32;
    let de = match r.below(6) { 0 => r.sign() * 90.0, 1 => r.sign() * (90.0 - r.logu(1e-9, 1.0)), 2 => 0.0, _ => r.range(-1.0f64, 1.0).asin().to_degrees() };
    let pm = |r: &mut Rng| match r.below(6) { 0 => 0.0f32, 1 => (r.sign() * r.logu(100.0, 2e4)) as f32, _ => (r.normal() * 20.0) as f32 };
    let id = |r: &mut Rng| if r.chance(0.1) { u64::MAX } else { r.u64() >> r.below(60) };
    GncRecord {
        gnc_id: id(r), hip_id: if r.chance(0.5) { Some(id(r)) } else { None }, gaiadr3_id: if r.chance(0.7) { Some(id(r)) } else { None },
        ra_2016: match r.below(6) { 0 => 0.0, 1 => *r.pick(&[90.0, 180.0, 270.0, 359.9999999999]), _ => r.range(0.0, 360.0) }, de_2016: de,
        e_ra_2016: r.logu(1e-3, 1e3) as f32, e_de_2016: r.logu(1e-3, 1e3) as f32,
        pmra: of(r, 0.9, pm), pmde: of(r, 0.9, pm), e_pmra: of(r, 0.8, |r| r.logu(1e-3, 1e2) as f32), e_pmde: of(r, 0.8, |r| r.logu(1e-3, 1e2) as f32),
        plx: of(r, 0.85, |r| match r.below(6) { 0 => -(r.logu(1e-3, 10.0) as f32), 1 => 0.0, 2 => r.logu(1e-7, 1e-2) as f32, _ => r.logu(1e-3, 800.0) as f32 }), e_plx: of(r, 0.8, |r| r.logu(1e-3, 1.0) as f32),
        cat_2016: if r.chance(0.5) { Some("GAIADR3".into()) } else { text(r, 0.8) },
        gmag: of(r, 0.9, mag), e_gmag: of(r, 0.5, mag), bpmag: of(r, 0.9, mag), e_bpmag: of(r, 0.5, mag), rpmag: of(r, 0.9, mag), e_rpmag: of(r, 0.5, mag),
        jmag: of(r, 0.8, mag), e_jmag: of(r, 0.5, mag), hmag: of(r, 0.8, mag), e_hmag: of(r, 0.5, mag), kmag: of(r, 0.8, mag), e_kmag: of(r, 0.5, mag),
        flag_var: text(r, 0.3), flag_mult: text(r, 0.3), neighbor_id: id(r), neighbor_distance_arcsec: r.logu(1e-2, 1e4) as f32, shift_arsec: of(r, 0.3, |r| r.logu(1e-4, 1.0) as f32),
        flag_shift: text(r, 0.2), flag_pos: text(r, 0.2), flag_pm: text(r, 0.2), flag_neighbor: text(r, 0.2),
    }
}
fn motion(r: &mut Rng, c: &mut Case) {
    let s = record(r);
    let t = match r.below(8) { 0 => 2016.0, 1 => 1991.25, 2 => r.range(1960.0, 2020.0), 3 => r.range(-8000.0, 12000.0), _ => r.range(1900.0, 2100.0) };
    let Ok(g) = guard(|| s.icrs_sample(t)) else { c.fail("panicked", format!("{s:?} at {t}")); return };
    let what = || format!("ra {} de {} pm {:?} {:?} plx {:?} errors {} {} {:?} {:?} {:?} at {t}: {g:?}", s.ra_2016, s.de_2016, s.pmra, s.pmde, s.plx, s.e_ra_2016, s.e_de_2016, s.e_pmra, s.e_pmde, s.cat_2016);
    for v in g.icrs_position_au { c.mixf(v) }
    c.ok(g.epoch == t, "epoch", what);
    let deg = hp::PI / 180.0; let (a, d) = (s.ra_2016 as Q * deg, s.de_2016 as Q * deg);
    let u0 = [d.cos() * a.cos(), d.cos() * a.sin(), d.sin()];
    let (p, q) = ([-a.sin(), a.cos(), 0.0], [-d.sin() * a.cos(), -d.sin() * a.sin(), d.cos()]);
    let mas = deg / 3.6e6; let (ma, md) = (s.pmra.unwrap_or(0.0) as Q * mas, s.pmde.unwrap_or(0.0) as Q * mas);
    let mu = (ma * ma + md * md).sqrt(); let ang = mu * (t as Q - 2016.0);
    let h: [Q; 3] = std::array::from_fn(|i| if mu > 0.0 { (ma * p[i] + md * q[i]) / mu } else { 0.0 });
    let usable = matches!(s.plx, Some(x) if x > 0.0);
    let dist = if usable { 1000.0 * AU_PER_PC / s.plx.unwrap() as Q } else { 1.0 };
    let tol = 2e-14 + 2e-15 * (ang as f64).abs();
    for i in 0..3 {
        let w = u0[i] * ang.cos() + h[i] * ang.sin();
        c.close("position", (g.icrs_position_au[i] as Q / dist) as f64, w as f64, tol + if usable { 5e-9 } else { 0.0 }, what);
        let v = (h[i] * ang.cos() - u0[i] * ang.sin()) * mu;
        if usable && s.pmra.is_some() && s.pmde.is_some() { c.close("velocity", (g.icrs_velocity_au_per_yr[i] as Q / dist) as f64, v as f64, mu as f64 * (tol + 1e-8), what); c.ev("moving with distance") }
        else if !usable { c.ok(g.icrs_velocity_au_per_yr == [0.0; 3], "velocity-without-distance", what); }
    }
    // the direction is exact to rounding whatever the distance scale
    let n = g.icrs_position_au.iter().map(|x| *x as Q * *x as Q).sum::<Q>().sqrt();
    for i in 0..3 { c.close("direction", (g.icrs_position_au[i] as Q / n) as f64, (u0[i] * ang.cos() + h[i] * ang.sin()) as f64, tol, what); }
    c.close("distance", (n / dist) as f64, 1.0, if usable { 5e-9 } else { 1e-14 }, what);
    if !usable { c.ev("no usable parallax") }
    if s.de_2016.abs() > 89.0 { c.ev("near a pole") } if t == 2016.0 { c.ev("at the epoch") } if (ang as f64).abs() > 0.01 { c.ev("far along its path") }
    let gaia = s.cat_2016.as_deref() == Some("GAIADR3");
    for (n, got, e, m) in [("uncertainty-ra", g.uncertainty_ra_mas, s.e_ra_2016, s.e_pmra), ("uncertainty-dec", g.uncertainty_dec_mas, s.e_de_2016, s.e_pmde)] {
        let (e, m) = (e as Q, m.unwrap_or(0.0) as Q);
        let k = if gaia { (t as Q - 2016.0) * (t as Q - 2016.0) } else { (t as Q - 1991.25) * (t as Q - 1991.25) - 24.75 * 24.75 };
        let w2 = e * e + m * m * k; let big = e * e + m * m * (if gaia { k } else { (t as Q - 1991.25) * (t as Q - 1991.25) + 24.75 * 24.75 });
        c.ok(got >= 0.0 && got.is_finite(), n, what);
        if w2 < 0.0 { c.ev("motion uncertainty dominates before the epoch") }
        let w2 = if w2 < 0.0 { 0.0 } else { w2 };
        // compare squares: the difference of squares may cancel
        c.close("uncertainty", (got as Q * got as Q) as f64, w2 as f64, 1e-14 * big as f64, || format!("{n}: {}", what()));
        if t == 2016.0 { c.close("uncertainty-at-epoch", got, e as f64, 1e-12 * e as f64, what); }
    }
    c.ev(if gaia { "Gaia record" } else { "older record" });
    c.sample(|| what());
}

const COLS: [&str; 36] = ["gnc_id", "hip_id", "gaiadr3_id", "ra_2016", "de_2016", "e_ra_2016", "e_de_2016", "pmra", "pmde", "e_pmra", "e_pmde", "plx", "e_plx", "cat_2016", "gmag", "e_gmag", "bpmag", "e_bpmag", "rpmag", "e_rpmag", "jmag", "e_jmag", "hmag", "e_hmag", "kmag", "e_kmag", "flag_var", "flag_mult", "neighbor_id", "neighbor_distance_arcsec", "shift_arsec", "flag_shift", "flag_pos", "flag_pm", "flag_neighbor", "extra"];
const NEED: [&str; 8] = ["gnc_id", "ra_2016", "de_2016", "e_ra_2016", "e_de_2016", "neighbor_id", "neighbor_distance_arcsec", "gnc_id"];
fn csv_of(s: &GncRecord, cols: &[&str]) -> Vec<String> {
    macro_rules! o { ($e:expr) => { $e.as_ref().map(|v| v.to_string()).unwrap_or_default() } }
    cols.iter().map(|c| match *c {
        "gnc_id" => s.gnc_id.to_string(), "hip_id" => o!(s.hip_id), "gaiadr3_id" => o!(s.gaiadr3_id), "ra_2016" => s.ra_2016.to_string(), "de_2016" => s.de_2016.to_string(), "e_ra_2016" => s.e_ra_2016.to_string(), "e_de_2016" => s.e_de_2016.to_string(),
        "pmra" => o!(s.pmra), "pmde" => o!(s.pmde), "e_pmra" => o!(s.e_pmra), "e_pmde" => o!(s.e_pmde), "plx" => o!(s.plx), "e_plx" => o!(s.e_plx), "cat_2016" => o!(s.cat_2016),
        "gmag" => o!(s.gmag), "e_gmag" => o!(s.e_gmag), "bpmag" => o!(s.bpmag), "e_bpmag" => o!(s.e_bpmag), "rpmag" => o!(s.rpmag), "e_rpmag" => o!(s.e_rpmag),
        "jmag" => o!(s.jmag), "e_jmag" => o!(s.e_jmag), "hmag" => o!(s.hmag), "e_hmag" => o!(s.e_hmag), "kmag" => o!(s.kmag), "e_kmag" => o!(s.e_kmag),
        "flag_var" => o!(s.flag_var), "flag_mult" => o!(s.flag_mult), "neighbor_id" => s.neighbor_id.to_string(), "neighbor_distance_arcsec" => s.neighbor_distance_arcsec.to_string(), "shift_arsec" => o!(s.shift_arsec),
        "flag_shift" => o!(s.flag_shift), "flag_pos" => o!(s.flag_pos), "flag_pm" => o!(s.flag_pm), "flag_neighbor" => o!(s.flag_neighbor), _ => "zzz".into(),
    }).collect()
}
fn quote(r: &mut Rng, f: &str) -> String { if f.contains([',', '"', '\n']) || r.chance(0.05) && !f.is_empty() { format!("\"{}\"", f.replace('"', "\"\"")) } else { f.into() } }
fn hex(d: &[u8]) -> String { d.iter().map(|b| format!("{b:02x}")).collect() }
fn parsing(r: &mut Rng, c: &mut Case) {
    let mut cols: Vec<&str> = COLS.to_vec(); if r.chance(0.5) { r.shuffle(&mut cols) }
    let mut file: Vec<u8> = cols.join(",").into_bytes(); let eol: &[u8] = if r.chance(0.3) { b"\r\n" } else { b"\n" }; file.extend(eol);
    let mut want: Vec<GncRecord> = vec![];
    for _ in 0..r.below(12) {
        let s = record(r); let mut f: Vec<String> = csv_of(&s, &cols);
        let bad = r.chance(0.25);
        if bad {
            let need = *r.pick(&NEED); let k = cols.iter().position(|c| *c == need).unwrap();
            match r.below(4) {
                0 => f[k] = (*r.pick(&["", "abc", "1.2.3", "12 3", "1;5", "-"])).into(),
                1 => { f.truncate(k) }
                2 => { let k = cols.iter().position(|c| ["pmra", "plx", "gmag", "hip_id"].contains(c)).unwrap(); f[k] = "n/a".into() }
                _ => { let k = cols.iter().position(|c| *c == "cat_2016").unwrap(); f[k] = "\u{1}BAD\u{1}".into() }
            }
            if f.is_empty() { continue }
            c.ev("malformed rows")
        } else {
            c.ev("good rows");
            // a row may run on past the header
            if r.chance(0.15) { for _ in 0..=r.below(3) { f.push((*r.pick(&["", "7", "x y"])).into()) } c.ev("long rows") }
        }
        let mut line: Vec<u8> = f.iter().map(|x| quote(r, x)).collect::<Vec<_>>().join(",").into_bytes();
        if bad { for b in &mut line { if *b == 1 { *b = 0xff } } }
        file.extend(line); file.extend(eol);
        if !bad { want.push(s) }
    }
    let t = Tmp::new(&file);
    let json = |v: &[GncRecord]| v.iter().map(|s| serde_json::to_string(s).unwrap()).collect::<Vec<_>>();
    let same = |g: Result<Result<GncCatalogReader, String>, String>| match &g { Ok(Ok(x)) => { let (a, b) = (json(&x.records), json(&want)); if a == b { None } else { Some(format!("read {a:?}, written {b:?}")) } } Ok(Err(e)) | Err(e) => Some(e.clone()) };
    for l in json(&want) { c.mix(hash_str(&l)) }
    let e = same(guard(|| GncCatalogReader::from_csv(&t.0).map_err(|e| e.to_string())));
    if !c.ok(e.is_none(), "records", || format!("{}; file {:?}", e.unwrap(), String::from_utf8_lossy(&file))) { return }
    let sum = hex(&Sha256::digest(&file));
    let e = same(guard(|| GncCatalogReader::from_csv_with_expected_sha256(&t.0, &sum).map_err(|e| e.to_string())));
    c.ok(e.is_none(), "verified-records", || e.unwrap());
    let mut broken = file.clone(); let k = r.below(broken.len()); broken[k] ^= 1 << r.below(8); let b = Tmp::new(&broken);
    c.ok(!matches!(guard(|| GncCatalogReader::from_csv_with_expected_sha256(&b.0, &sum).is_ok()), Ok(true)), "altered-file-accepted", || format!("byte {k} of {}", file.len()));
    c.ok(!matches!(guard(|| GncCatalogReader::from_csv_verified_v1_1(&t.0).is_ok()), Ok(true)), "other-file-accepted", || "a file that is not the catalogue passed for it".into());
    // the binary archive
    for s in &want {
        let back = guard(|| { let b = rkyv::to_bytes::<rkyv::rancor::Error>(s).unwrap(); rkyv::from_bytes::<GncRecord, rkyv::rancor::Error>(&b).unwrap() });
        c.ok(matches!(&back, Ok(x) if json(std::slice::from_ref(x)) == json(std::slice::from_ref(s))), "archive", || format!("{back:?} from {s:?}"));
    }
}
fn checksum(r: &mut Rng, c: &mut Case) {
    let n = match r.below(5) { 0 => r.below(70), 1 => 65536 * r.below(4) + r.below(3), 2 => (65536 * (1 + r.below(3))) - r.below(3), _ => r.below(200_000) };
    let mut d: Vec<u8> = (0..n).map(|_| r.u64() as u8).collect();
    let sum = hex(&Sha256::digest(&d)); c.mix(hash_str(&sum));
    let ok = |d: &[u8], s: &str| { let t = Tmp::new(d); guard(|| GncCatalogReader::verify_catalog_checksum(&t.0, s).is_ok()) };
    for s in [sum.clone(), sum.to_uppercase()] { let v = ok(&d, &s); c.ok(v == Ok(true), "original-refused", || format!("{n} bytes, {s}: {v:?}")); }
    let tries = if n <= 64 { n } else { 6 };
    for i in 0..tries {
        let k = if n <= 64 { i } else { match i { 0 => 0, 1 => n - 1, 2 => 65535.min(n - 1), 3 => 65536.min(n - 1), _ => r.below(n) } };
        let x = if r.chance(0.5) { 1u8 << r.below(8) } else { 1 + r.below(255) as u8 };
        d[k] ^= x; let v = ok(&d, &sum); d[k] ^= x;
        c.ev("corrupted bytes"); c.ok(v == Ok(false), "corruption-accepted", || format!("byte {k} of {n} changed: {v:?}"));
    }
    let mut e = d.clone(); e.push(r.u64() as u8); let v = ok(&e, &sum); c.ok(v == Ok(false), "extension-accepted", || format!("{n} bytes"));
    if n > 0 { let m = r.below(n); let v = ok(&d[..m], &sum); c.ok(v == Ok(false), "truncation-accepted", || format!("{m} of {n} bytes")); c.ev("truncated") }
    let k = r.below(64); let mut s: Vec<u8> = sum.clone().into_bytes(); s[k] = if s[k] == b'0' { b'1' } else { b'0' };
    for s in [String::from_utf8(s).unwrap(), sum[..63].into(), sum[..k].into(), format!("{sum}0"), String::new(), format!(" {sum}")] { let v = ok(&d, &s); c.ev("wrong digests"); c.ok(v == Ok(false), "wrong-digest-accepted", || format!("{s} for {sum}: {v:?}")); }
    let v = guard(|| GncCatalogReader::verify_catalog_checksum(root().join("absent"), &sum).is_ok()); c.ok(v == Ok(false), "missing-file", || format!("{v:?}"));
}

const KNOTS: [(f64, f64); 9] = [(-0.2, 15000.0), (0.0, 10000.0), (0.3, 8000.0), (0.65, 5800.0), (1.0, 5000.0), (1.5, 4000.0), (2.0, 3500.0), (2.5, 3200.0), (3.0, 3000.0)];
fn teff(x: f64) -> f64 { let x = x.clamp(-0.2, 3.0); for w in KNOTS.windows(2) { if x <= w[1].0 { return w[0].1 + (x - w[0].0) / (w[1].0 - w[0].0) * (w[1].1 - w[0].1) } } 3000.0 }
fn black(t: f64) -> [f64; 3] {
    let t = t.clamp(1000.0, 40000.0) / 100.0;
    let r = if t <= 66.0 { 255.0 } else { 329.698727446 * (t - 60.0).powf(-0.1332047592) };
    let g = if t <= 66.0 { 99.4708025861 * t.ln() - 161.1195681661 } else { 288.1221695283 * (t - 60.0).powf(-0.0755148492) };
    let b = if t >= 66.0 { 255.0 } else if t <= 19.0 { 0.0 } else { 138.5177312231 * (t - 10.0).ln() - 305.0447927307 };
    [r, g, b].map(|v| v.clamp(0.0, 255.0) / 255.0)
}
fn linear(u: f64) -> f64 { if u <= 0.04045 { u / 12.92 } else { ((u + 0.055) / 1.055).powf(2.4) } }
fn colours(r: &mut Rng, c: &mut Case) {
    let mut near = |r: &mut Rng| -> f32 { let k = KNOTS[r.below(9)].0 as f32; match r.below(8) { 0 => k, 1 => f32::from_bits(k.to_bits().wrapping_add(r.int(-3, 3) as u32)), 2 => (r.sign() * r.logu(1.0, 1e30)) as f32, _ => r.range(-0.4, 3.2) as f32 } };
    let num = |v: f32| if v.is_nan() { 0.0 } else { v };
    let x = num(near(r)); let y = num(near(r)); let (x, y) = if x <= y { (x, y) } else { (y, x) };
    c.mixf(x as f64); c.mixf(y as f64);
    let (tx, ty) = (bp_rp_to_teff(x), bp_rp_to_teff(y));
    for (x, t) in [(x, tx), (y, ty)] { c.close("temperature", t as f64, teff(x as f64), 4e-6 * teff(x as f64), || format!("bp-rp {x}")); c.ok((3000.0..=15000.0).contains(&t), "temperature-range", || format!("{x}: {t}")); }
    c.ok(tx >= ty - 4e-3, "temperature-order", || format!("{x} -> {tx}, {y} -> {ty}"));
    let (cx, cy) = (bp_rp_to_rgb(x, false), bp_rp_to_rgb(y, false));
    let inr = |v: &[f32; 3]| v.iter().all(|u| (0.0..=1.0).contains(u));
    c.ok(inr(&cx) && inr(&bp_rp_to_rgb(x, true)), "colour-range", || format!("{x}: {cx:?}"));
    c.ok(cx[0] <= cy[0] + 2e-5 && cx[2] >= cy[2] - 2e-5, "colour-order", || format!("bluer {x} {cx:?}, redder {y} {cy:?}"));
    let jump = |t: f64| t != 6600.0 && (t - 6600.0).abs() < 1.0;
    if !jump(teff(x as f64)) {
        let b = black(teff(x as f64)); let a = (b[0] + b[1] + b[2]) / 3.0; let w = b.map(|v| (a + (v - a) * 1.15).clamp(0.0, 1.0));
        let l = bp_rp_to_rgb(x, true);
        for i in 0..3 { c.close("colour", cx[i] as f64, w[i], 3e-5, || format!("bp-rp {x}")); c.close("colour", l[i] as f64, linear(w[i]), 8e-5, || format!("linear, bp-rp {x}")); }
    }
    if r.chance(0.02) { for l in [false, true] { c.ok(inr(&bp_rp_to_rgb(f32::NAN, l)), "colour-range", || "NaN colour index".into()); } }
    // black bodies
    let t = if r.chance(0.3) { *r.pick(&[1000.0, 1900.0, 6600.0, 40000.0, 0.0, -5.0, 1e9, 1899.9, 6599.0, 6601.0]) } else { r.logu(500.0, 60000.0) } as f32; let t2 = t * (1.0 + r.logu(1e-6, 3.0) as f32);
    let (b1, b2) = (blackbody_to_rgb(t), blackbody_to_rgb(t2)); c.mixf(t as f64);
    c.ok(inr(&b1) && inr(&b2), "blackbody-range", || format!("{t}: {b1:?}"));
    c.ok(t2 < t || b1[0] >= b2[0] - 2e-6 && b1[2] <= b2[2] + 2e-6, "blackbody-order", || format!("{t} K {b1:?}, {t2} K {b2:?}"));
    if !jump(t as f64) { let w = black(t as f64); for i in 0..3 { c.close("blackbody", b1[i] as f64, w[i], 2e-5, || format!("{t} K channel {i}")); } }
    let v: [f32; 3] = std::array::from_fn(|_| match r.below(5) { 0 => 0.0, 1 => 1.0, 2 => 0.04045, _ => r.unit() as f32 });
    let l = srgb_to_linear(v); for i in 0..3 { c.close("linear", l[i] as f64, linear(v[i] as f64), 2e-6, || format!("{}", v[i])); }
    // records
    let s = record(r); let what = || format!("g {:?} bp {:?} rp {:?}", s.gmag, s.bpmag, s.rpmag);
    match (guard(|| s.photometric_color()), s.gmag, s.bpmag, s.rpmag) {
        (Ok(Some(p)), Some(g), Some(b), Some(rp)) => {
            c.ok(p.gmag == g && p.bpmag == b && p.rpmag == rp, "magnitudes", what);
            let w = srgb_to_linear(bp_rp_to_rgb(b - rp, false)); c.ok((0..3).all(|i| (p.rgb[i] - w[i]).abs() <= 1e-6), "record-colour", || format!("{:?} want {w:?}; {}", p.rgb, what())); c.ev("coloured records");
        }
        (Ok(None), g, b, rp) => { c.ok(g.is_none() || b.is_none() || rp.is_none(), "colour-missing", what); c.ev("records without colour") }
        (g, ..) => c.fail("colour-invented", format!("{g:?} from {}", what())),
    }
    let ir = guard(|| s.photometric_infrared_rgb());
    match (&ir, s.jmag, s.hmag, s.kmag) {
        (Ok(Some(GncCatalogInfraredColor::From2Mass { rgb, j, h, k })), Some(jm), Some(hm), Some(km)) => {
            c.ok((*j, *h, *k) == (jm, hm, km), "infrared-magnitudes", || format!("{ir:?}"));
            for (g, m) in rgb.iter().zip([km, hm, jm]) { c.close("infrared", *g as f64, (1.0 - (m as f64 - 8.0) / 8.0).clamp(0.0, 1.0), 1e-6, || format!("{ir:?}")); }
            c.ev("infrared colours");
        }
        (Ok(Some(GncCatalogInfraredColor::Missing)), j, h, k) => { c.ok(j.is_none() || h.is_none() || k.is_none(), "infrared-missing", || format!("{j:?} {h:?} {k:?}")); }
        _ => c.fail("infrared", format!("{ir:?}")),
    }
    if let Ok(Some(p)) = guard(|| s.random_color()) { c.ok((0.0..1.0).contains(&p.rgb[0]) && (0.0..0.1).contains(&p.rgb[1]) && (0.0..1.0).contains(&p.rgb[2]), "random-colour", || format!("{:?}", p.rgb)); } else { c.fail("random-colour", String::new()) }
}

fn main() {
    let mut x = Ctx::from_args("C27");
    // the digest used as oracle is SHA-256
    assert_eq!(hex(&Sha256::digest(b"abc")), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
    x.family("motion", 60000, 1000000, motion);
    x.family("parsing", 2000, 30000, parsing);
    x.family("checksum", 400, 6000, checksum);
    x.family("colours", 60000, 600000, colours);
    for (e, n) in [("moving with distance", 20000), ("no usable parallax", 5000), ("near a pole", 5000), ("at the epoch", 3000), ("far along its path", 700), ("motion uncertainty dominates before the epoch", 1000), ("Gaia record", 10000), ("older record", 10000), ("good rows", 3000), ("malformed rows", 1000), ("corrupted bytes", 2000), ("wrong digests", 2000), ("truncated", 200), ("long rows", 200), ("coloured records", 10000), ("records without colour", 5000), ("infrared colours", 10000)] { x.require(e, n) }
    let _ = fs::remove_dir_all(root());
    x.finish()
}
