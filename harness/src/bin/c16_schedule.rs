//! C16: alarms, schedules, timers and the timekeeper against integer-nanosecond models of their polling history.
use aether_monitors::fw::*;
use aether_time::time::*;
use std::time::Duration as Std;

const G: i128 = 1_000_000_000;
const DAY: i64 = 86_400;
fn dn(d: Duration) -> i128 { d.sec as i128 * G + d.nano_sec as i128 }
fn tn<T>(t: &Time<T>) -> i128 { t.sec as i128 * G + t.nano_sec as i128 }
fn ut(n: i128) -> Time<UTC> { Time::new(n.div_euclid(G) as i64, n.rem_euclid(G) as i32) }
fn du(n: i128) -> Duration { Duration { sec: n.div_euclid(G) as i64, nano_sec: n.rem_euclid(G) as i32 } }
fn leap(y: i64) -> bool { (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 }
fn mlen(y: i64, m: i64) -> i64 { match m { 2 => 28 + leap(y) as i64, 4 | 6 | 9 | 11 => 30, _ => 31 } }
/// day number of 1 January, by counting leap years
fn jan1(y: i64) -> i64 { let f = |a: i64| { let b = a - 1; b.div_euclid(4) - b.div_euclid(100) + b.div_euclid(400) }; 365 * (y - 1970) + f(y) - f(1970) }
/// month/day of a year as a day number; 29 February of a common year is the day after 28 February
fn ymd(y: i64, m: i64, d: i64) -> i64 { jan1(y) + (1..m).map(|k| mlen(y, k)).sum::<i64>() + d - 1 }

#[derive(Clone, Copy, Debug)]
enum P { Once, Every(i128), Hourly(i64, i64), Daily(i64, i64, i64), Yearly(i64, i64, i64, i64, i64) }
impl P {
    fn real(self) -> Recurrence {
        match self {
            P::Once => Recurrence::Once, P::Every(p) => Recurrence::Interval(du(p)),
            P::Hourly(m, s) => Recurrence::Hourly { minute: m as u8, second: s as u8 },
            P::Daily(h, m, s) => Recurrence::Daily { hour: h as u8, minute: m as u8, second: s as u8 },
            P::Yearly(mo, d, h, m, s) => Recurrence::Yearly { month: mo as u8, day: d as u8, hour: h as u8, minute: m as u8, second: s as u8 },
        }
    }
    /// earliest occurrence strictly after `t` (grid start `g` for intervals)
    fn after(self, t: i128, g: i128) -> i128 {
        let grid = |off: i128, p: i128| { let k = (t - off).div_euclid(p); off + (k + 1) * p };
        match self {
            P::Once => i128::MAX, P::Every(p) => grid(g, p),
            P::Hourly(m, s) => grid((m * 60 + s) as i128 * G, 3600 * G),
            P::Daily(h, m, s) => grid((h * 3600 + m * 60 + s) as i128 * G, DAY as i128 * G),
            P::Yearly(mo, d, h, m, s) => {
                let y0 = 1970 + (t.div_euclid(G) as i64).div_euclid(31_556_952);
                (y0 - 2..=y0 + 3).map(|y| (ymd(y, mo, d) * DAY + h * 3600 + m * 60 + s) as i128 * G).filter(|x| *x > t).min().unwrap()
            }
        }
    }
}
fn pattern(r: &mut Rng) -> P {
    let hh = r.int(0, 23);
    let (h, m, s) = (*r.pick(&[0, 23, hh]), *r.pick(&[0i64, 59, 30]), *r.pick(&[0i64, 59, 1]));
    let (m, s) = if r.chance(0.5) { (r.int(0, 59), r.int(0, 59)) } else { (m, s) };
    match r.below(5) {
        0 => P::Once,
        1 => P::Every(match r.below(5) { 0 => 1, 1 => G, 2 => r.int128(1, 3 * G), 3 => r.int128(1, 100_000 * G), _ => *r.pick(&[100_000_000, 999_999_999, 1_000_000_001, 60 * G, 1_500_000_000]) }),
        2 => P::Hourly(m, s), 3 => P::Daily(h, m, s),
        _ => { let mo = r.int(1, 12); let d = match r.below(4) { 0 => 1, 1 => mlen(2000, mo), _ => r.int(1, mlen(2000, mo)) }; let (mo, d) = if r.chance(0.15) { (2, 29) } else { (mo, d) }; P::Yearly(mo, d, h, m, s) }
    }
}
fn instant(r: &mut Rng) -> i128 {
    let s = match r.below(6) { 0 => r.int(-5, 5), 1 => DAY * r.int(-1000, 1000) + r.int(-2, 2), 2 => 3600 * r.int(-10_000, 10_000) + r.int(-2, 2), 3 => r.int(-4_000_000_000, 0), 4 => { let y = r.int(-800, 2600); jan1(y) * DAY + r.int(-2, 2) + if r.chance(0.5) { 59 * DAY } else { 0 } } _ => r.int(0, 4_000_000_000) };
    s as i128 * G + match r.below(4) { 0 => 999_999_999, 1 => r.int128(0, G - 1), _ => 0 }
}
static HUNG: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// runs `f` with a time limit; the polling thread is abandoned if it never comes back
fn limited<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> Result<T, String> {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || { let _ = tx.send(guard(f)); });
    match rx.recv_timeout(Std::from_secs(10)) { Ok(r) => r, Err(_) => { HUNG.store(true, std::sync::atomic::Ordering::Relaxed); Err("did not return within 10 s".into()) } }
}

fn main() {
    let mut ctx = Ctx::from_args("C16");
    // whatever the configuration, polling returns
    ctx.family("always-returns", 64, 400, |r, c| {
        // one hang is enough: abandoned pollers keep spinning
        if HUNG.load(std::sync::atomic::Ordering::Relaxed) { c.ok(true, "skipped", String::new); return }
        let p = match r.below(6) { 0 => 0, 1 => -1, 2 => -r.int128(1, 10 * G), 3 => 1, 4 => r.int128(1, 1000), _ => -G };
        let t0 = instant(r);
        let gap = match r.below(4) { 0 => r.int128(0, 10 * G), 1 => r.int128(0, 1 << 62), 2 => r.int128(1 << 62, 1 << 68), _ => G * 4_000_000_000 };
        c.mix(p as u64 ^ gap as u64); c.mix(t0 as u64);
        let e = limited(move || { let mut s = UtcSchedule::new(ut(t0), Recurrence::Interval(du(p))); let a = s.check(ut(t0 + gap)); let n = s.next_fire(); (a, s.check(ut(t0 + gap)), tn(&n)) });
        match e {
            Err(e) => { c.fail("schedule-hang", format!("interval {p} ns from {t0}, polled {gap} ns later: {e}")) }
            Ok((a, b, n)) => {
                if p > 0 { c.ok(a == (gap >= p) && !b && n == P::Every(p).after(t0 + gap, t0), "schedule-catch-up", || format!("interval {p} ns from {t0}, polled {gap} later: fired {a} then {b}, next {n}")); }
                else { c.ok(a && b, "schedule-nonpositive-period", || format!("interval {p} ns: fired {a}, {b}")); c.ev("non-positive period"); }
            }
        }
        let dt = match r.below(3) { 0 => 0, 1 => r.int128(0, 10 * G), _ => gap };
        let e = limited(move || { let mut t = TimerEvent::new(du(p)); (t.step(du(dt)), t.step(du(0)), t.step(du(dt))) });
        match e {
            Err(e) => c.fail("timer-hang", format!("timer period {p} ns stepped {dt}: {e}")),
            Ok(f) => { let want = if p > 0 { (dt >= p, false, 2 * dt / p > dt / p) } else { (true, true, true) }; c.ok(f == want, "timer-catch-up", || format!("timer period {p} ns stepped {dt}, 0, {dt}: {f:?}, expected {want:?}")); if gap > 1_000_000_000 * p.max(1) { c.ev("billions of periods in one poll") } }
        }
    });
    ctx.require("non-positive period", 10);
    ctx.require("billions of periods in one poll", 5);
    ctx.family("schedule-history", 60_000, 1_200_000, |r, c| {
        let p = pattern(r);
        let t0 = instant(r);
        c.mix(t0 as u64); c.mix(hash_str(&format!("{p:?}")));
        let mut s = match guard(|| UtcSchedule::new(ut(t0), p.real())) { Ok(s) => s, Err(e) => return c.fail("panic", format!("{p:?} from {t0}: {e}")) };
        let mut next = if let P::Once = p { t0 } else { p.after(t0, t0) };
        let name = match p { P::Once => "once", P::Every(_) => "interval", P::Hourly(..) => "hourly", P::Daily(..) => "daily", P::Yearly(..) => "yearly" };
        let show = |n: i128| { let t = ut(n); format!("({},{}) {:?}", t.sec, t.nano_sec, t.to_utc_datetime()) };
        if !c.ok(tn(&s.next_fire()) == next, &format!("{name}-first"), || format!("{p:?} from {}: next {}, expected {}", show(t0), show(tn(&s.next_fire())), show(next))) { return }
        let scale = match p { P::Once => 3 * G, P::Every(p) => p, P::Hourly(..) => 3600 * G, P::Daily(..) => DAY as i128 * G, P::Yearly(..) => 365 * DAY as i128 * G };
        let mut now = t0;
        let mut fired = 0;
        for _ in 0..24 {
            let old = now;
            now = match r.below(9) { 0 => now, 1 => next.min(t0 + (1 << 70)), 2 => next.min(t0 + (1 << 70)) - 1, 3 => next.min(t0 + (1 << 70)) + 1, 4 => now + 1, 5 => now + r.int128(0, scale), 6 => { c.ev("stall over several occurrences"); now + r.int128(0, 20 * scale) } 7 => { c.ev("clock stepped back"); now - r.int128(0, 3 * scale) } _ => now + r.int128(0, scale / 10 + 2) };
            if let P::Once = p { if fired > 0 && r.chance(0.1) { now += 1i128 << r.int(50, 92); c.ev("far after a one-shot") } }
            if now.abs() > 1i128 << if let P::Once = p { 92 } else { 66 } { now = old }
            let due = now >= next && !(matches!(p, P::Once) && fired > 0);
            let got = match guard(|| s.check(ut(now))) { Ok(g) => g, Err(e) => return c.fail("panic", format!("{p:?}: {e}")) };
            let exp = next;
            if due { fired += 1; next = p.after(now, t0); }
            if !c.ok(got == due, &format!("{name}-due"), || format!("{p:?} from {}, due at {}, polled at {}: fired {got}", show(t0), show(exp.min(1 << 66)), show(now))) { return }
            if got { c.ev(match p { P::Once => "once fired", P::Every(_) => "interval fired", P::Hourly(..) => "hourly fired", P::Daily(..) => "daily fired", P::Yearly(..) => "yearly fired" }); if now < 0 { c.ev("fired before 1970") } }
            if !matches!(p, P::Once) { if !c.ok(tn(&s.next_fire()) == next, &format!("{name}-next"), || format!("{p:?} from {}, polled at {}: next {}, expected {}", show(t0), show(now), show(tn(&s.next_fire())), show(next))) { return } }
            c.state(hash_str(&format!("{name}{due}{}", (next.min(1 << 70) - now) * 4 / scale)));
        }
        if fired > 1 { c.ev("several occurrences reported") }
    });
    for e in ["once fired", "interval fired", "hourly fired", "daily fired", "yearly fired", "fired before 1970", "stall over several occurrences", "clock stepped back"] { ctx.require(e, 1000) }
    ctx.family("alarm-history", 60_000, 1_000_000, |r, c| {
        let t = instant(r);
        c.mix(t as u64);
        let mut a = UtcAlarm::new(ut(t));
        let mut fired = false;
        for _ in 0..12 {
            let now = t + match r.below(7) { 0 => 0, 1 => -1, 2 => 1, 3 => -r.int128(0, 3 * G), 4 => r.int128(0, 3 * G), 5 => -r.int128(0, 1 << 60), _ => r.int128(0, 1 << 60) };
            let due = !fired && now >= t;
            c.ok(!fired || a.is_done(), "alarm-done", || format!("alarm {t} fired and is not done"));
            c.ok(fired || !a.is_done(), "alarm-done-early", || format!("alarm {t} done before it fired"));
            let got = a.check(ut(now));
            c.ok(got == due, "alarm-due", || format!("alarm at {t} ns polled at {now} (already reported {fired}): {got}"));
            if due { fired = true; c.ev("alarm fired") }
            c.ok(a.is_done() == fired, "alarm-is-done", || format!("alarm {t} is_done {}", a.is_done()));
        }
    });
    ctx.require("alarm fired", 10_000);
    fn timers<const N: usize>(r: &mut Rng, c: &mut Case) {
        let mut per = || match r.below(5) { 0 => 1, 1 => G, 2 => r.int128(1, 1000), 3 => r.int128(1, 10 * G), _ => *r.pick(&[10_000_000, 16_666_667, 999_999_999, 1_000_000_001, 33_333_333]) };
        let mut ps: [i128; N] = std::array::from_fn(|_| per());
        c.mix(hash_str(&format!("{ps:?}")));
        let mut set = TimerSet::new(ps.map(du));
        let mut one = TimerEvent::new(du(ps[0]));
        c.ok(set.event_mut(N).is_none() && set.event_mut(usize::MAX).is_none() && set.event_mut(N - 1).is_some(), "event-index", || "event_mut bounds".into());
        let mut tot = [0i128; N];
        let pmax = *ps.iter().max().unwrap();
        for k in 0..32 {
            if k == 20 && r.chance(0.3) { let i = r.below(N); ps[i] = r.int128(1, 3 * G); tot[i] = 0; *set.event_mut(i).unwrap() = TimerEvent::new(du(ps[i])); if i == 0 { one = TimerEvent::new(du(ps[0])); } c.ev("timer replaced"); }
            let p = *r.pick(&ps);
            let dt = match r.below(8) { 0 => 0, 1 => p, 2 => p - 1, 3 => 1, 4 => r.int128(0, p), 5 => p * r.int128(0, 5), 6 => r.int128(0, pmax), _ => p - tot[0].rem_euclid(p) };
            let dt = dt.min(100_000 * ps.iter().min().unwrap());
            let want: [bool; N] = std::array::from_fn(|i| (tot[i] + dt) / ps[i] > tot[i] / ps[i]);
            for t in &mut tot { *t += dt }
            let got = match guard(|| set.step(du(dt))) { Ok(g) => g, Err(e) => return c.fail("panic", format!("periods {ps:?}: {e}")) };
            let g1 = one.step(du(dt));
            c.ok(got == want, "timer-set-due", || format!("periods {ps:?} ns, totals {tot:?} after a step of {dt}: fired {got:?}, expected {want:?}"));
            c.ok(g1 == want[0], "timer-due", || format!("period {} ns, total {} after a step of {dt}: fired {g1}", ps[0], tot[0]));
            c.evn("timer occurrences", want.iter().filter(|x| **x).count() as u64);
            if tot[0] % ps[0] == 0 && dt > 0 { c.ev("step landing on a period") }
        }
    }
    ctx.family("timer-history", 40_000, 800_000, |r, c| match r.below(8) { 0 => timers::<1>(r, c), 1 => timers::<13>(r, c), 2 => timers::<33>(r, c), _ => timers::<4>(r, c) });
    ctx.require("timer occurrences", 10_000);
    ctx.require("step landing on a period", 1000);
    ctx.require("timer replaced", 1000);
    ctx.family("timekeeper", 100_000, 2_000_000, |r, c| {
        let tps = match r.below(4) { 0 => *r.pick(&[1u64, 2, 3, 1000, 32_768, 1_000_000, 72_000_000, 480_000_000, 999_999_999, 1_000_000_000, 1_000_000_001, u64::MAX, 1 << 63]), 1 => 1 + r.u64() % 1_000_000_000, 2 => 1 + r.u64() % 100_000, _ => 1 + r.u64() % (1 << 40) };
        let t0 = match r.below(4) { 0 => 0, 1 => u64::MAX - r.u64() % 1000, _ => r.u64() };
        let start = instant(r);
        let st = Time::<TAI>::new(start.div_euclid(G) as i64, start.rem_euclid(G) as i32);
        let utc0 = st.to_utc();
        let m = if r.chance(0.5) { MissionEpoch::new_tai(st) } else { MissionEpoch::new_utc(utc0) };
        c.ok(m.start() == st, "mission-start", || format!("{:?} vs {st:?}", m.start()));
        c.mix(tps); c.mix(t0);
        let (k, ku, kg) = (TimeKeeper::<TAI>::new(m, t0, tps), TimeKeeper::<UTC>::new(m, t0, tps), TimeKeeper::<GPS>::new(m, t0, tps));
        let ep = Epoch::<TAI>::new(m, t0, tps);
        c.ok(ep.mission().start() == st, "epoch-mission", || "mission epoch changed".into());
        let mut last = t0;
        let mut sum = 0u128;
        let lim = (1u128 << 62) * tps as u128;
        for _ in 0..6 {
            let left = tps - (sum % tps as u128) as u64;
            let step = match r.below(7) { 0 => 0, 1 => 1, 2 => tps, 5 => left - 1, 6 => {
                // the first tick of some nanosecond, or the last of the one before
                let j = match r.below(3) { 0 => 999_999_999, 1 => r.below(1_000_000_000) as u128, _ => r.below(1000) as u128 };
                let f = (j * tps as u128).div_ceil(1_000_000_000) as u64;
                (left as u128 + f as u128 - (f > 0 && r.chance(0.5)) as u128).min(u64::MAX as u128) as u64
            } 3 => r.u64() % tps.saturating_mul(10).max(1), _ => r.u64() >> 3 };
            if sum + step as u128 >= lim.min(1 << 64) { break }
            sum += step as u128;
            let now = last.wrapping_add(step);
            if now < last { c.ev("tick counter wrapped") }
            let fl = |t: u128| -> (i64, i32) { ((t / tps as u128) as i64, (t % tps as u128 * 1_000_000_000 / tps as u128) as i32) };
            let (s, n) = fl(sum);
            let tp = k.t_plus(now);
            c.ok((tp.sec, tp.nano_sec) == (s, n), "t-plus", || format!("{sum} ticks at {tps}/s: T+ ({}, {}), exact ({s}, {n})", tp.sec, tp.nano_sec));
            c.ok(ep.t_plus(now) == tp, "epoch-t-plus", || format!("{sum} ticks at {tps}/s"));
            let abs = start + s as i128 * G + n as i128;
            let a = match guard(|| (k.now_tai(now), ku.now_utc(now), kg.now_gps(now))) { Ok(a) => a, Err(e) => return c.fail("panic", format!("{sum} ticks at {tps}/s from {start}: {e}")) };
            c.ok(tn(&a.0) == abs, "now-tai", || format!("{sum} ticks at {tps}/s from {start}: {}", tn(&a.0)));
            c.ok(tn(&a.1) == abs - 37 * G, "now-utc", || format!("{sum} ticks at {tps}/s from {start}: {}", tn(&a.1)));
            c.ok(tn(&a.2) == abs - 315_964_819 * G, "now-gps", || format!("{sum} ticks at {tps}/s from {start}: {}", tn(&a.2)));
            let mut l = last;
            let d = k.dt_from_ticks(&mut l, now);
            let (s, n) = fl(step as u128);
            c.ok((d.sec, d.nano_sec) == (s, n) && l == now && dn(d) >= 0, "dt-from-ticks", || format!("{last} -> {now} at {tps}/s: {d:?}, exact ({s}, {n}); stored {l}"));
            last = now;
        }
    });
    ctx.require("tick counter wrapped", 1000);
    ctx.finish();
}
