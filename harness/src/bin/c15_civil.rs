//! C15: civil dates against a calendar that is walked day by day.
use aether_monitors::fw::*;
use aether_time::time::*;

fn leap(y: i64) -> bool { (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 }
fn mlen(y: i64, m: u8) -> u8 { match m { 2 => 28 + leap(y) as u8, 4 | 6 | 9 | 11 => 30, _ => 31 } }
#[derive(Clone, Copy, PartialEq, Debug)]
struct Day { n: i64, y: i64, m: u8, d: u8 }
impl Day {
    fn next(self) -> Day { let Day { n, y, m, d } = self; if d < mlen(y, m) { Day { n: n + 1, y, m, d: d + 1 } } else if m < 12 { Day { n: n + 1, y, m: m + 1, d: 1 } } else { Day { n: n + 1, y: y + 1, m: 1, d: 1 } } }
    fn prev(self) -> Day { let Day { n, y, m, d } = self; if d > 1 { Day { n: n - 1, y, m, d: d - 1 } } else if m > 1 { Day { n: n - 1, y, m: m - 1, d: mlen(y, m - 1) } } else { Day { n: n - 1, y: y - 1, m: 12, d: 31 } } }
}
/// 1 January of year 400k, from the cycle length (the walk family checks the length by walking)
fn cycle(k: i64) -> Day { Day { n: k * 146_097 - 719_528, y: 400 * k, m: 1, d: 1 } }

fn check(c: &mut Case, day: Day, tod: i64, nanos: i32) {
    let s = day.n * 86_400 + tod;
    let want = UtcDateTime::new(day.y as i32, day.m, day.d, (tod / 3600) as u8, (tod / 60 % 60) as u8, (tod % 60) as u8, nanos);
    match guard(|| Time::<UTC>::new(s, nanos).to_utc_datetime()) {
        Err(e) => c.fail("to-datetime", format!("({s}, {nanos}): {e}")),
        Ok(g) => { c.ok(g == want, "to-datetime", || format!("instant ({s}, {nanos}) -> {g:?}, calendar walk {want:?}")); }
    }
    match guard(|| Time::<UTC>::from_utc_datetime(want)) {
        Err(e) => c.fail("from-datetime", format!("{want:?}: {e}")),
        Ok(t) => { c.ok(t.sec == s && t.nano_sec == nanos, "from-datetime", || format!("{want:?} -> ({}, {}), calendar walk ({s}, {nanos})", t.sec, t.nano_sec)); }
    }
    c.evn("dates checked", 1);
    if s < 0 { c.evn("before 1970", 1) }
    if day.y < 0 { c.evn("negative years", 1) }
    if day.m == 2 && day.d == 29 { c.evn("29 February", 1) }
}
fn tod(r: &mut Rng) -> i64 { match r.below(8) { 0 => 0, 1 => 86_399, 2 => 3600 * r.int(0, 23), 3 => 3600 * r.int(1, 24) - 1, 4 => 60 * r.int(0, 1439), 5 => 60 * r.int(1, 1440) - 1, _ => r.int(0, 86_399) } }
fn nanos(r: &mut Rng) -> i32 { match r.below(4) { 0 => 0, 1 => 999_999_999, _ => r.int(0, 999_999_999) as i32 } }

fn main() {
    let mut ctx = Ctx::from_args("C15");
    // 1970-01-01 is day 0: walk outwards from it, over two whole cycles each way, without any formula
    ctx.all("walk-from-epoch", 2, |r, c| { let i = c.idx;
        let mut day = Day { n: 0, y: 1970, m: 1, d: 1 };
        c.mix(i as u64);
        for _ in 0..2 * 146_097 + 40_000 { let (t, n) = (tod(r), nanos(r)); check(c, day, t, n); if day.m == 1 && day.d == 1 && day.y % 400 == 0 { c.ok(day == cycle(day.y / 400), "cycle-length", || format!("{day:?}")); c.ev("cycle anchors confirmed by walking"); } day = if i == 0 { day.next() } else { day.prev() }; }
    });
    ctx.require("cycle anchors confirmed by walking", 3);
    ctx.family("cycles", 24, 400, |r, c| {
        let k = match r.below(3) { 0 => r.int(-26, 26), 1 => r.int(-3, 6), _ => r.int(-5_000, 5_000) };
        let mut day = cycle(k);
        c.mix(k as u64);
        for _ in 0..146_097 { let (t, n) = (tod(r), nanos(r)); check(c, day, t, n); day = day.next(); }
        c.ok(day == cycle(k + 1), "cycle-length", || format!("{day:?}"));
        c.ev("whole 400-year cycles");
    });
    ctx.family("instants", 100_000, 2_000_000, |r, c| {
        // any instant whose year fits i32; the walk starts at the nearest cycle and steps years then days
        let span = *r.pick(&[4_000_000_000i64, 400_000_000_000, 60_000_000_000_000]);
        let s = match r.below(4) { 0 => 86_400 * r.int(-span / 86_400, span / 86_400) + r.int(-1, 1), 1 => r.int(-200_000, 200_000), _ => r.int(-span, span) };
        let n = nanos(r);
        c.mix(s as u64 ^ n as u64);
        let num = s.div_euclid(86_400);
        let mut d = cycle((num + 719_528).div_euclid(146_097));
        loop { let l = 365 + leap(d.y) as i64; if d.n + l > num { break } d = Day { n: d.n + l, y: d.y + 1, m: 1, d: 1 }; }
        while d.n + (mlen(d.y, d.m) as i64) <= num { d = Day { n: d.n + mlen(d.y, d.m) as i64, y: d.y, m: d.m + 1, d: 1 }; }
        d = Day { d: d.d + (num - d.n) as u8, n: num, ..d };
        check(c, d, s.rem_euclid(86_400), n);
        // order: a second instant near or far
        let s2 = if r.chance(0.5) { s + r.int(-90_000, 90_000) } else { r.int(-span, span) };
        let n2 = nanos(r);
        let (a, b) = (Time::<UTC>::new(s, n), Time::<UTC>::new(s2, n2));
        let key = |t: UtcDateTime| (t.year, t.month, t.day, t.hour, t.minute, t.second, t.nanos);
        if let (Ok(x), Ok(y)) = (guard(|| a.to_utc_datetime()), guard(|| b.to_utc_datetime())) { c.ok(key(x).cmp(&key(y)) == a.cmp(&b), "order", || format!("({s},{n}) {x:?} vs ({s2},{n2}) {y:?}")); }
    });
    ctx.require("before 1970", 100_000);
    ctx.require("negative years", 10_000);
    ctx.require("29 February", 100);
    ctx.finish();
}
