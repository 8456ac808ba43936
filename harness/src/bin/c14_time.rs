//! C14: durations, instants, scales and GPS weeks against exact integer nanoseconds.
use aether_monitors::fw::*;
use aether_time::time::*;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};

const G: i128 = 1_000_000_000;
fn dn(d: Duration) -> i128 { d.sec as i128 * G + d.nano_sec as i128 }
fn tn<T>(t: &Time<T>) -> i128 { t.sec as i128 * G + t.nano_sec as i128 }
fn norm_d(d: Duration) -> bool { (0..1_000_000_000).contains(&d.nano_sec) }
fn norm_t<T>(t: &Time<T>) -> bool { (0..1_000_000_000).contains(&t.nano_sec) }
fn nanos(r: &mut Rng) -> i32 { match r.below(8) { 0 => 0, 1 => 999_999_999, 2 => 1, 3 => 500_000_000, 4 => 499_999_999, 5 => r.int(0, 5) as i32, 6 => (999_999_999 - r.int(0, 5)) as i32, _ => r.int(0, 999_999_999) as i32 } }
fn secs(r: &mut Rng) -> i64 { match r.below(8) { 0 => 0, 1 => -1, 2 => 1, 3 => r.int(-5, 5), 4 => r.int(-100_000, 100_000), 5 => r.int(-4_000_000_000, 4_000_000_000), 6 => r.int(-100_000_000_000, 100_000_000_000), _ => { let e = r.below(61); let v = 1i64 << e; (if r.chance(0.5) { v } else { -v }) + r.int(-2, 2) } } }
fn dur(r: &mut Rng) -> Duration { Duration { sec: secs(r), nano_sec: nanos(r) } }
fn any64(r: &mut Rng) -> i64 { match r.below(8) { 0 => i64::MIN + r.int(0, 3), 1 => i64::MAX - r.int(0, 3), 2 => r.int(-3, 3), 3 => { let u = *r.pick(&[1_000i64, 1_000_000, 1_000_000_000]); u * r.int(-2000, 2000) + r.int(-2, 2) } 4 => { let v = 1i64 << r.below(62); (if r.chance(0.5) { v } else { -v }) + r.int(-2, 2) } 5 => r.int(-2_000_000_000, 2_000_000_000), _ => r.u64() as i64 } }

fn want_d(c: &mut Case, key: &str, d: Result<Duration, String>, want: i128, what: String) -> Option<Duration> {
    match d {
        Err(e) => { c.fail(key, format!("{what}: panicked: {e}")); None }
        Ok(d) => { c.ok(norm_d(d) && dn(d) == want, key, || format!("{what} = {d:?}, exact {want} ns")); Some(d) }
    }
}
fn want_t<T>(c: &mut Case, key: &str, t: Result<Time<T>, String>, want: i128, what: String) {
    match t { Err(e) => c.fail(key, format!("{what}: panicked: {e}")), Ok(t) => { c.ok(norm_t(&t) && tn(&t) == want, key, || format!("{what} = ({}, {}), exact {want} ns", t.sec, t.nano_sec)); } }
}
fn instants<T>(r: &mut Rng, c: &mut Case, tag: &str) {
    let (s1, n1, mut d) = (secs(r), nanos(r), dur(r));
    // a duration written with negative nanoseconds is the same length as its normal form
    if r.chance(0.15) && d.nano_sec > 0 { d = Duration { sec: d.sec + 1, nano_sec: d.nano_sec - 1_000_000_000 }; if r.chance(0.4) { d.nano_sec = -n1 - r.int(0, 2) as i32; d.nano_sec = d.nano_sec.clamp(-999_999_999, 0); } c.ev("negative nanoseconds") }
    let (s2, n2) = if r.chance(0.4) { (s1 + r.int(-1, 1), nanos(r)) } else { (secs(r), nanos(r)) };
    let mk = |s, n| Time::<T>::new(s, n);
    let (x, y) = (s1 as i128 * G + n1 as i128, s2 as i128 * G + n2 as i128);
    if n1 + d.nano_sec >= 1_000_000_000 { c.ev("carry") }
    if n1 < n2 { c.ev("borrow") }
    if s1 < 0 { c.ev("negative instant") }
    want_t(c, "instant-add", guard(|| mk(s1, n1) + d), x + dn(d), format!("{tag} ({s1},{n1}) + {d:?}"));
    want_t(c, "instant-add-ref", guard(|| &mk(s1, n1) + d), x + dn(d), format!("{tag} &({s1},{n1}) + {d:?}"));
    let e = want_d(c, "instant-sub", guard(|| mk(s1, n1) - mk(s2, n2)), x - y, format!("{tag} ({s1},{n1}) - ({s2},{n2})"));
    want_d(c, "instant-sub-ref", guard(|| &mk(s1, n1) - &mk(s2, n2)), x - y, format!("{tag} &({s1},{n1}) - &({s2},{n2})"));
    if let Some(e) = e { want_t(c, "instant-sub-add-back", guard(|| mk(s2, n2) + e), x, format!("{tag} ({s2},{n2}) + {e:?}")); }
    let (a, b) = (mk(s1, n1), mk(s2, n2));
    c.ok(a.cmp(&b) == x.cmp(&y) && a.partial_cmp(&b) == Some(x.cmp(&y)) && (a == b) == (x == y) && (a < b) == (x < y) && (a >= b) == (x >= y), "instant-order", || format!("{tag} ({s1},{n1}) vs ({s2},{n2}): cmp {:?}", a.cmp(&b)));
    c.mix(x as u64 ^ (y as u64).rotate_left(17));
}

fn main() {
    let mut ctx = Ctx::from_args("C14");
    ctx.family("duration-constructors", 200_000, 4_000_000, |r, c| {
        let v = any64(r);
        c.mix(v as u64);
        want_d(c, "from_nanos", guard(|| Duration::from_nanos(v)), v as i128, format!("from_nanos({v})"));
        want_d(c, "from_nanos_i64", guard(|| Duration::from_nanos_i64(v)), v as i128, format!("from_nanos_i64({v})"));
        want_d(c, "from_micros", guard(|| Duration::from_micros(v)), v as i128 * 1000, format!("from_micros({v})"));
        want_d(c, "from_millis", guard(|| Duration::from_millis(v)), v as i128 * 1_000_000, format!("from_millis({v})"));
        want_d(c, "from_secs", guard(|| Duration::from_secs(v)), v as i128 * G, format!("from_secs({v})"));
        c.ok(dn(Duration::zero()) == 0, "zero", || "zero is not zero".into());
        if v < 0 { c.ev("negative") } else { c.ev("non-negative") }
        if v < 0 && v % 1_000_000_000 == 0 { c.ev("negative whole second") }
        let raw = Duration { sec: secs(r), nano_sec: match r.below(4) { 0 => *r.pick(&[i32::MIN, i32::MAX, -1, -1_000_000_000, 1_000_000_000, -1_000_000_001, -2_000_000_000, 2_000_000_000, 0]), _ => r.u32() as i32 } };
        if raw.nano_sec < -1_000_000_000 { c.ev("normalise below -1 s") }
        want_d(c, "normalize", guard(|| raw.normalize()), dn(raw), format!("normalize({raw:?})"));
    });
    ctx.require("negative", 1000);
    ctx.require("negative whole second", 10);
    ctx.require("normalise below -1 s", 100);
    ctx.family("duration-group", 200_000, 4_000_000, |r, c| {
        let a = dur(r);
        let b = if r.chance(0.4) { Duration { sec: a.sec + r.int(-1, 1), nano_sec: nanos(r) } } else { dur(r) };
        let (x, y) = (dn(a), dn(b));
        c.mix(x as u64 ^ (y as u64).rotate_left(9));
        let s = want_d(c, "add", guard(|| a + b), x + y, format!("{a:?} + {b:?}"));
        want_d(c, "sub", guard(|| a - b), x - y, format!("{a:?} - {b:?}"));
        if let Some(s) = s { want_d(c, "add-sub-back", guard(|| s - b), x, format!("{s:?} - {b:?}")); }
        c.ok(a.cmp(&b) == x.cmp(&y) && a.partial_cmp(&b) == Some(x.cmp(&y)) && (a == b) == (x == y) && (a < b) == (x < y), "order", || format!("{a:?} cmp {b:?} = {:?}", a.cmp(&b)));
        if a.sec == b.sec { c.ev("compared by nanoseconds") }
    });
    ctx.require("compared by nanoseconds", 1000);
    ctx.family("instants", 200_000, 4_000_000, |r, c| match r.below(4) { 0 => instants::<Unix>(r, c, "unix"), 1 => instants::<UTC>(r, c, "utc"), 2 => instants::<TAI>(r, c, "tai"), _ => instants::<GPS>(r, c, "gps") });
    for e in ["carry", "borrow", "negative instant", "negative nanoseconds"] { ctx.require(e, 1000) }
    // the leap-second count is process-wide: one thread only
    ctx.serial("scales", 100_000, 2_000_000, |r, c| {
        let leap = match r.below(4) { 0 => 27, 1 => 0, 2 => r.int(-60, 60), _ => r.int(0, 40) } as i32;
        set_leap_seconds(leap);
        let off = (10 + leap) as i128 * G;
        c.ok(tai_minus_utc() as i128 * G == off, "tai-minus-utc", || format!("leap count {leap}: {}", tai_minus_utc()));
        let (s, n) = (secs(r), nanos(r));
        let x = s as i128 * G + n as i128;
        let e = 315_964_800i128 * G;
        c.mix(x as u64 ^ leap as u64);
        let w = || format!("({s},{n}) with leap count {leap}");
        want_t(c, "unix-utc", guard(|| Time::<Unix>::new(s, n).to_utc()), x, w());
        want_t(c, "utc-unix", guard(|| Time::<UTC>::new(s, n).to_unix()), x, w());
        want_t(c, "utc-tai", guard(|| Time::<UTC>::new(s, n).to_tai()), x + off, w());
        want_t(c, "tai-utc", guard(|| Time::<TAI>::new(s, n).to_utc()), x - off, w());
        want_t(c, "utc-gps", guard(|| Time::<UTC>::new(s, n).to_gps()), x - e + off - 19 * G, w());
        want_t(c, "gps-utc", guard(|| Time::<GPS>::new(s, n).to_utc()), x + e - off + 19 * G, w());
        want_t(c, "gps-tai", guard(|| Time::<GPS>::new(s, n).to_tai()), x + e + 19 * G, w());
        want_t(c, "tai-gps", guard(|| Time::<TAI>::new(s, n).to_gps()), x - e - 19 * G, w());
        // a random walk over the scales returning to its start
        let u = Time::<UTC>::new(s, n);
        let back = match r.below(5) { 0 => u.to_tai().to_gps().to_utc(), 1 => u.to_gps().to_tai().to_utc(), 2 => u.to_unix().to_utc().to_tai().to_utc(), 3 => u.to_gps().to_utc(), _ => u.to_tai().to_gps().to_tai().to_gps().to_utc().to_unix().to_utc() };
        c.ok(back == u, "round-trip", || format!("{} -> ({}, {})", w(), back.sec, back.nano_sec));
        if leap != 27 { c.ev("non-default leap count") }
        set_leap_seconds(27);
    });
    ctx.require("non-default leap count", 1000);
    // readers race with a writer changing the leap count: every conversion uses one of the two counts, GPS<->TAI uses none
    ctx.serial("leap-change-race", 6, 60, |r, c| {
        let (l0, l1) = (27, 27 + r.int(1, 20) as i32);
        set_leap_seconds(l0);
        let stop = AtomicBool::new(false);
        let (seen0, seen1, flips) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
        let s = r.int(1_000_000_000, 2_000_000_000);
        let bad: Vec<Option<String>> = std::thread::scope(|sc| {
            sc.spawn(|| { let mut i = 0u64; while !stop.load(Relaxed) { set_leap_seconds(if i & 1 == 0 { l1 } else { l0 }); i += 1; for _ in 0..(i % 23) { std::hint::spin_loop() } } flips.store(i, Relaxed); });
            let hs: Vec<_> = (0..3).map(|_| sc.spawn(|| {
                for i in 0..150_000i64 {
                    let s = s + i;
                    let t = Time::<UTC>::new(s, 5).to_tai().sec - s;
                    if t == 10 + l0 as i64 { seen0.fetch_add(1, Relaxed); } else if t == 10 + l1 as i64 { seen1.fetch_add(1, Relaxed); } else { return Some(format!("utc-tai|UTC->TAI offset {t}")) }
                    let g = Time::<GPS>::new(s, 5).to_tai().sec - s;
                    if g != 315_964_819 { return Some(format!("gps-tai|GPS->TAI offset {g} while the leap count switches {l0}<->{l1}; want 315964819")) }
                    let g = Time::<TAI>::new(s, 5).to_gps().sec - s;
                    if g != -315_964_819 { return Some(format!("tai-gps|TAI->GPS offset {g} while the leap count switches {l0}<->{l1}; want -315964819")) }
                    let u = Time::<UTC>::new(s, 5).to_gps().sec - s + 315_964_800 + 9;
                    if u != l0 as i64 && u != l1 as i64 { return Some(format!("utc-gps|UTC->GPS used leap count {u}")) }
                    let u = s + 315_964_800 + 9 - Time::<GPS>::new(s, 5).to_utc().sec;
                    if u != l0 as i64 && u != l1 as i64 { return Some(format!("gps-utc|GPS->UTC used leap count {u}")) }
                }
                None
            })).collect();
            let o = hs.into_iter().map(|h| h.join().unwrap()).collect();
            stop.store(true, Relaxed);
            o
        });
        set_leap_seconds(27);
        c.mix(l1 as u64 ^ s as u64);
        c.ok(true, "race", String::new);
        c.evn("race reads, old count", seen0.load(Relaxed));
        c.evn("race reads, new count", seen1.load(Relaxed));
        c.evn("race leap changes", flips.load(Relaxed));
        for b in bad.into_iter().flatten() { let (k, d) = b.split_once('|').unwrap(); c.fail(k, d.to_string()); }
    });
    ctx.require("race reads, old count", 100);
    ctx.require("race reads, new count", 100);
    ctx.family("gps-week", 300_000, 6_000_000, |r, c| {
        let week = match r.below(5) { 0 => r.int(-3, 3), 1 => 1024 * r.int(0, 6) + r.int(-2, 2), 2 => r.int(-5000, 0), 3 => r.int(0, 1_000_000), _ => r.int(0, 6000) };
        let sow = match r.below(4) { 0 => 0, 1 => 604_799, 2 => r.int(0, 3), _ => r.int(0, 604_799) };
        let n = nanos(r);
        let s = week * 604_800 + sow;
        let hint = match r.below(4) { 0 => r.int(0, 3000), 1 => r.int(0, 8_000_000), _ => (week + r.int(-600, 600)).max(0) } as u32;
        c.mix(s as u64 ^ (hint as u64) << 40);
        let g = match guard(|| Time::<GPS>::new(s, n).to_gps_week(hint)) { Ok(g) => g, Err(e) => return c.fail("panic", format!("to_gps_week({s}, hint {hint}): {e}")) };
        let w = || format!("GPS second {s} (week {week}, second {sow}), hint {hint}: {g:?}");
        c.ok(g.sow == sow, "second-of-week", w);
        c.ok(g.raw_week as i64 == week.rem_euclid(1024), "raw-week", w);
        let (f, h) = (g.full_week as i64, hint as i64);
        c.ok(f.rem_euclid(1024) == week.rem_euclid(1024), "full-week-residue", w);
        // nearest non-negative week with this residue
        let res = week.rem_euclid(1024);
        let best = [-1i64, 0, 1].iter().map(|k| (h.div_euclid(1024) + k) * 1024 + res).filter(|x| *x >= 0).map(|x| (x - h).abs()).min().unwrap();
        c.ok((f - h).abs() == best, "full-week-nearest", w);
        if week >= 0 && (week - h).abs() < 512 { c.ev("hint within half a cycle"); c.ok(f * 604_800 + g.sow == s, "recompose", w); if week / 1024 != h / 1024 { c.ev("hint in the neighbouring cycle") } }
        if week < 0 { c.ev("before the GPS epoch") }
        if h < 512 && res > 512 { c.ev("nearest week would be negative") }
    });
    for e in ["hint within half a cycle", "hint in the neighbouring cycle", "before the GPS epoch", "nearest week would be negative"] { ctx.require(e, 100) }
    ctx.finish();
}
