//! C29: performance logs written by many threads, read while written and checked line by line afterwards.
use aether_benchmark::performance::monitor::*;
use aether_monitors::fw::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant, SystemTime, UNIX_EPOCH};

static NEXT: AtomicU64 = AtomicU64::new(0);
fn root() -> PathBuf { std::env::temp_dir().join(format!("aether_c29_{}", std::process::id())) }
struct Tmp(PathBuf);
impl Tmp { fn new() -> Self { fs::create_dir_all(root()).unwrap(); Tmp(root().join(format!("{}.csv", NEXT.fetch_add(1, SeqCst)))) } fn s(&self) -> &str { self.0.to_str().unwrap() } }
impl Drop for Tmp { fn drop(&mut self) { let _ = fs::remove_file(&self.0); } }
fn wall() -> u64 { SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_nanos() as u64 }
fn pause(r: &mut Rng) { match r.below(12) { 0 => std::thread::yield_now(), 1 => { for _ in 0..r.below(3000) { std::hint::spin_loop() } } 2 => std::thread::sleep(Duration::from_micros(r.below(200) as u64)), _ => {} } }

const TH: &str = "unix_ns,stage,elapsed_ms";
const PH: &str = "unix_ns,source,power_W,energy_J_total";
/// complete lines of a log that may still be growing
fn lines(path: &PathBuf) -> Vec<String> { let b = fs::read(path).unwrap(); let e = b.iter().rposition(|c| *c == b'\n').map_or(0, |p| p + 1); String::from_utf8_lossy(&b[..e]).lines().map(|s| s.to_string()).collect() }
fn value(r: &mut Rng) -> f64 { match r.below(7) { 0 => 0.0, 1 => r.int(0, 100000) as f64, 2 => r.logu(1e-300, 1e300), 3 => f64::from_bits(r.u64() & !(3 << 62)), _ => r.logu(1e-6, 1e6) } }

#[derive(Clone, Debug)]
struct Want { thread: usize, name: String, rest: Vec<String>, lo: u64, hi: u64 }

fn logging(r: &mut Rng, c: &mut Case, timing: bool) {
    let t = Tmp::new(); let n = 1 + r.below(16); let per = if c.thorough { 200 } else { 60 };
    let (tl, pl) = if timing { (Some(TimingCsv::new(t.s())), None) } else { (None, Some(PowerCsv::new(t.s()))) };
    let seed = r.u64(); let start = wall(); let done = AtomicBool::new(false); let go = std::sync::Barrier::new(n);
    let (want, live): (Vec<Vec<Want>>, (usize, Option<String>)) = std::thread::scope(|s| {
        let (tl, pl, t, done, go) = (&tl, &pl, &t, &done, &go);
        let hs: Vec<_> = (0..n).map(|k| s.spawn(move || {
            let mut r = Rng::new(splitmix(seed ^ k as u64)); let mut v = vec![]; go.wait();
            let per = per / 4 + r.below(per);
            for i in 0..per {
                pause(&mut r);
                let name = format!("t{k}_{i}{}", *r.pick(&["", " stage", "_a-rather-long-name-with-some-padding-to-make-the-line-long", "é"]));
                let lo = wall();
                let rest = if let Some(l) = tl { let v = value(&mut r); l.timing_ms(&name, v); vec![format!("{:x}", v.to_bits())] }
                    else { let mut o = || if r.chance(0.3) { None } else { Some(value(&mut r)) }; let (a, b) = (o(), o()); pl.as_ref().unwrap().sample(&name, a, b); [a, b].iter().map(|v| v.map(|v| format!("{:x}", v.to_bits())).unwrap_or_default()).collect() };
                v.push(Want { thread: k, name, rest, lo, hi: wall() });
            }
            v
        })).collect();
        // a reader sees only whole, final lines
        let rd = s.spawn(move || {
            let mut seen: Vec<String> = vec![]; let mut bad = None; let mut looks = 0;
            while !done.load(SeqCst) { let l = lines(&t.0); if l.len() < seen.len() || l[..seen.len()] != seen[..] { bad.get_or_insert(format!("{} lines shown, then {}", seen.len(), l.len())); } seen = l; looks += 1; std::thread::sleep(Duration::from_micros(100)) }
            (looks, bad)
        });
        let w = hs.into_iter().map(|h| h.join().unwrap()).collect(); done.store(true, SeqCst); (w, rd.join().unwrap())
    });
    c.evn("looks while logging", live.0 as u64); c.ok(live.1.is_none(), "log-rewritten", || live.1.unwrap());
    let raw = fs::read(&t.0).unwrap(); let text = String::from_utf8_lossy(&raw).into_owned();
    c.ok(raw.ends_with(b"\n"), "last-line-open", || format!("{:?}", &text[text.len().saturating_sub(80)..]));
    let all: Vec<&str> = text.lines().collect();
    if !c.ok(all.first() == Some(if timing { &TH } else { &PH }), "header", || format!("{:?}", all.first())) { return }
    let total: usize = want.iter().map(|v| v.len()).sum();
    c.ok(all.len() == total + 1, "line-count", || format!("{} lines for {total} events of {n} threads", all.len() - 1));
    let idx: BTreeMap<&str, &Want> = want.iter().flatten().map(|w| (w.name.as_str(), w)).collect();
    let mut seen = BTreeSet::new(); let mut last = vec![None; n]; let (mut order, mut switches, mut prev) = (0u64, 0, usize::MAX);
    for l in &all[1..] {
        let f: Vec<&str> = l.split(',').collect();
        if !c.ok(f.len() == if timing { 3 } else { 4 } && f[0].parse::<u64>().is_ok() && idx.contains_key(f[1]), "torn-line", || format!("{l:?}")) { return }
        let w = idx[f[1]];
        c.ok(seen.insert(f[1]), "duplicate-line", || format!("{l:?}"));
        let got: Vec<String> = f[2..].iter().map(|v| if v.is_empty() { String::new() } else { v.parse::<f64>().map(|v| format!("{:x}", v.to_bits())).unwrap_or("?".into()) }).collect();
        c.ok(got == w.rest, "value", || format!("{l:?} for {w:?}"));
        let ts = f[0].parse::<u64>().unwrap(); let slack = 2_000_000_000;
        c.ok(ts + slack >= w.lo && ts <= w.hi + slack, "timestamp", || format!("{ts} logged between {} and {}", w.lo, w.hi));
        let i = want[w.thread].iter().position(|x| x.name == w.name).unwrap();
        c.ok(last[w.thread].map_or(true, |p| p < i), "thread-order", || format!("thread {} event {i} after {:?}", w.thread, last[w.thread])); last[w.thread] = Some(i);
        if w.thread != prev { switches += 1; prev = w.thread } order = splitmix(order ^ w.thread as u64);
    }
    let _ = start;
    c.evn("lines", total as u64); c.evn("switches between threads", switches); if n > 1 { c.ev("concurrent logs") }
    c.state(order); c.mix(order ^ seed);
}
#[derive(Debug)]
struct Span { name: &'static str, thread: usize, worked: f64, outer: f64, depth: usize }
fn spans(r: &mut Rng, c: &mut Case) {
    let t = Tmp::new(); let n = 1 + r.below(12); let log = TimingCsv::new(t.s()); let seed = r.u64(); let quick = if c.thorough { 20 } else { 8 };
    // expected lines per thread in the order the spans end
    let want: Vec<Vec<Span>> = std::thread::scope(|s| {
        let log = &log;
        let hs: Vec<_> = (0..n).map(|k| s.spawn(move || {
            fn work(r: &mut Rng) -> f64 { let t = Instant::now(); match r.below(4) { 0 => {} 1 => std::thread::sleep(Duration::from_micros(r.below(8000) as u64)), 2 => { let d = Duration::from_micros(r.below(3000) as u64); while t.elapsed() < d { std::hint::spin_loop() } } _ => std::thread::yield_now() } t.elapsed().as_secs_f64() * 1e3 }
            fn nest<'a>(r: &mut Rng, log: &'a TimingCsv, k: usize, id: &mut usize, depth: usize, out: &mut Vec<Span>, unwind: bool) {
                *id += 1; let name: &'static str = Box::leak(format!("s{k}_{id}").into_boxed_str());
                let o = Instant::now(); let sp = TimeSpan::new(name, log); let i = Instant::now();
                let slot = out.len(); let mut w = work(r);
                let _ = slot;
                if depth < 4 && r.chance(0.6) { nest(r, log, k, id, depth + 1, out, unwind) }
                w += work(r); let _ = w;
                // recorded before the drop, so that the record exists when unwinding skips what follows
                let worked = i.elapsed().as_secs_f64() * 1e3;
                let fail = unwind && depth == 2;
                if fail { out.push(Span { name, thread: k, worked, outer: f64::INFINITY, depth }); std::panic::resume_unwind(Box::new(())) }
                drop(sp); out.push(Span { name, thread: k, worked, outer: o.elapsed().as_secs_f64() * 1e3, depth });
            }
            let mut r = Rng::new(splitmix(seed ^ (k as u64) << 8)); let (mut id, mut out) = (0, vec![]); let mut lost: Vec<(usize, usize)> = vec![];
            for _ in 0..quick {
                let before = id; let n0 = out.len(); let unwind = r.chance(0.4);
                let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| nest(&mut r, log, k, &mut id, 0, &mut out, unwind))).is_ok();
                if !ok {
                    // the spans around the one that unwound end too, innermost first, without a record of their own
                    let have: BTreeSet<&str> = out[n0..].iter().map(|s| s.name).collect();
                    let miss: Vec<usize> = (before + 1..=id).filter(|i| !have.contains(format!("s{k}_{i}").as_str())).collect();
                    for i in miss.into_iter().rev() { out.push(Span { name: Box::leak(format!("s{k}_{i}").into_boxed_str()), thread: k, worked: 0.0, outer: f64::INFINITY, depth: 99 }) }
                    lost.push((before, id));
                }
            }
            out
        })).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let all = lines(&t.0);
    if !c.ok(all.first().map(|s| s.as_str()) == Some(TH), "header", || format!("{:?}", all.first())) { return }
    let total: usize = want.iter().map(|w| w.len()).sum();
    c.ok(all.len() == total + 1, "span-count", || format!("{} lines for {total} spans of {n} threads", all.len() - 1));
    let mut at = vec![0; n]; let mut order = 0;
    for l in &all[1..] {
        let f: Vec<&str> = l.split(',').collect();
        let k = f.get(1).and_then(|s| s.strip_prefix('s')).and_then(|s| s.split('_').next()).and_then(|s| s.parse::<usize>().ok()).filter(|k| *k < n);
        let (Some(k), 3) = (k, f.len()) else { c.fail("torn-line", format!("{l:?}")); return };
        let Some(w) = want[k].get(at[k]) else { c.fail("span-repeated", format!("{l:?}")); return };
        if !c.ok(w.name == f[1], "span-order", || format!("{l:?} where {w:?} ends next")) { return }
        at[k] += 1; order = splitmix(order ^ k as u64);
        let ms: f64 = f[2].parse().unwrap_or(f64::NAN);
        // generous: the clock behind the log is calibrated separately and may be coarse
        if w.worked > 0.1 && w.outer.is_finite() { LOW.fetch_add(((ms - w.worked) * 1e6) as i64, SeqCst); HIGH.fetch_add(((w.outer - ms) * 1e6) as i64, SeqCst); SPANS.fetch_add(1, SeqCst); }
        c.ok(ms >= 0.0 && ms >= 0.9 * w.worked - 6.0 && ms <= 1.1 * w.outer + 6.0, "elapsed", || format!("{l:?} for {w:?}"));
        if w.depth == 99 { c.ev("spans ended by unwinding") } else if w.outer.is_infinite() { c.ev("spans that unwound") } else { c.ev("spans") } if w.depth > 0 { c.ev("nested spans") } if w.worked > 7.0 { c.ev("spans longer than the clock slack") }
        let _ = w.thread;
    }
    c.state(order); c.mix(order ^ seed);
}
static LOW: AtomicI64 = AtomicI64::new(0); static HIGH: AtomicI64 = AtomicI64::new(0); static SPANS: AtomicI64 = AtomicI64::new(0);
fn counters(r: &mut Rng, c: &mut Case) {
    let t = Tmp::new();
    let (text, v): (Vec<u8>, Option<u128>) = match r.below(8) {
        0 => (b"".to_vec(), None), 1 => (r.pick(&["abc", "-5", "1 2", "0x10", "\u{0}", "1,5", "--", "18446744073709551616"]).as_bytes().to_vec(), None), 2 => (vec![0xff, 0x31], None),
        3 => (format!("{}\n", u64::MAX).into_bytes(), Some(u64::MAX as u128)), _ => { let v = r.u64() >> r.below(64); (format!("{}{v}{}", *r.pick(&["", "", " ", "\n"]), *r.pick(&["\n", "", "\r\n", " \n"])).into_bytes(), Some(v as u128)) }
    };
    let gone = r.chance(0.05); if !gone { fs::write(&t.0, &text).unwrap() }
    c.mix(hash_str(&String::from_utf8_lossy(&text)));
    let (a, b, z) = (CPUEnergy::Powercap { energy_uj: t.0.clone() }, CPUEnergy::Hwmon { power_uw: t.0.clone() }, CPUEnergy::None);
    let want = if gone { None } else { v.map(|v| v as f64 / 1e6) };
    let close = |g: Option<f64>| match (g, want) { (None, None) => true, (Some(g), Some(w)) => (g - w).abs() <= 1e-15 * w, _ => false };
    let g = guard(|| a.read_total_j()); c.ok(matches!(g, Ok(g) if close(g)), "energy", || format!("{:?} read as {g:?}, holds {want:?} J", String::from_utf8_lossy(&text)));
    if v.is_some() || gone { let g = guard(|| b.read_watts()); c.ok(matches!(g, Ok(g) if close(g)), "power", || format!("{:?} read as {g:?}, holds {want:?} W", String::from_utf8_lossy(&text))); }
    c.ok(a.read_watts().is_none() && b.read_total_j().is_none() && z.read_total_j().is_none() && z.read_watts().is_none(), "other-quantity", || format!("{:?}", String::from_utf8_lossy(&text)));
    c.ok(a.debug_source_path() == format!("powercap:{}", t.0.display()) && b.debug_source_path() == format!("hwmon:{}", t.0.display()) && z.debug_source_path() == "none", "source", || a.debug_source_path());
    c.ev(if want.is_some() { "counters read" } else { "unreadable counters" });
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut x = Ctx::from_args("C29");
    x.family("timing", 250, 3000, |r, c| logging(r, c, true));
    x.family("power", 250, 3000, |r, c| logging(r, c, false));
    x.family("spans", 300, 3000, spans);
    // a clock of 4 ms granularity would leave no bias over this many spans; a truncated or rounded one does
    x.serial("bias", 1, 1, |_, c| {
        let n = SPANS.load(SeqCst); if n < 4000 { c.trivial(); return }
        let (lo, hi) = (LOW.load(SeqCst) as f64 * 1e-6 / n as f64, HIGH.load(SeqCst) as f64 * 1e-6 / n as f64);
        let slack = 0.15 + 24.0 / (n as f64).sqrt(); c.mix(n as u64);
        c.ok(lo >= -slack, "shorter-than-the-work", || format!("over {n} spans the mean elapsed time is {} ms less than the work inside them", -lo));
        c.ok(hi >= -slack, "longer-than-the-code-around", || format!("over {n} spans the mean elapsed time is {} ms more than the code around them took", -hi));
        c.evn("spans averaged", n as u64); c.sample(|| format!("{n} spans, mean excess over the work {lo} ms, mean remainder {hi} ms, slack {slack}"));
    });
    x.family("counters", 20000, 200000, counters);
    for (e, n) in [("lines", 20000), ("switches between threads", 2000), ("concurrent logs", 100), ("looks while logging", 200), ("spans", 500), ("nested spans", 300), ("spans that unwound", 50), ("spans ended by unwinding", 100), ("spans longer than the clock slack", 50), ("counters read", 500), ("unreadable counters", 100)] { x.require(e, n) }
    let _ = fs::remove_dir_all(root());
    x.finish()
}
