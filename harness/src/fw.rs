//! Case runner, monitors' verdict bookkeeping, event counters, replay and evidence fragments.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------------ RNG
#[inline]
pub fn splitmix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    splitmix(h)
}

/// xoshiro256++ seeded with splitmix.
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed;
        let mut s = [0; 4];
        for v in s.iter_mut() {
            z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
            *v = splitmix(z);
        }
        Rng { s }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[0].wrapping_add(self.s[3]).rotate_left(23).wrapping_add(self.s[0]);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    /// uniform in [0, n)
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// inclusive integer range
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        let span = (hi as i128 - lo as i128 + 1) as u128;
        (lo as i128 + ((self.u64() as u128 * span) >> 64) as i128) as i64
    }
    pub fn int128(&mut self, lo: i128, hi: i128) -> i128 {
        let span = (hi - lo + 1) as u128;
        let r = ((self.u64() as u128) << 64 | self.u64() as u128) % span;
        lo + r as i128
    }
    /// [0,1)
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 * (1.0 / (1u64 << 53) as f64)
    }
    pub fn range(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.unit() < p
    }
    pub fn sign(&mut self) -> f64 {
        if self.u64() & 1 == 0 {
            1.0
        } else {
            -1.0
        }
    }
    /// log-uniform magnitude
    pub fn logu(&mut self, lo: f64, hi: f64) -> f64 {
        (self.range(lo.ln(), hi.ln())).exp()
    }
    pub fn normal(&mut self) -> f64 {
        let u = 1.0 - self.unit();
        let v = self.unit();
        (-2.0 * u.ln()).sqrt() * (2.0 * std::f64::consts::PI * v).cos()
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
    /// uniform unit 3-vector
    pub fn unit3(&mut self) -> [f64; 3] {
        loop {
            let v = [self.normal(), self.normal(), self.normal()];
            let n = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
            if n > 1e-3 {
                return [v[0] / n, v[1] / n, v[2] / n];
            }
        }
    }
    /// uniform unit quaternion
    pub fn unit4(&mut self) -> [f64; 4] {
        loop {
            let v = [self.normal(), self.normal(), self.normal(), self.normal()];
            let n = v.iter().map(|x| x * x).sum::<f64>().sqrt();
            if n > 1e-3 {
                return [v[0] / n, v[1] / n, v[2] / n, v[3] / n];
            }
        }
    }
    /// A float with adversarial structure: small integers, powers of two, wide exponents, plain.
    pub fn wild(&mut self, scale: f64) -> f64 {
        match self.below(8) {
            0 => self.int(-4, 4) as f64,
            1 => self.sign() * 2f64.powi(self.int(-8, 8) as i32) * scale,
            2 => self.sign() * self.logu(1e-6, 1e3) * scale,
            3 => 0.0,
            _ => self.normal() * scale,
        }
    }
}

// ------------------------------------------------------------------ panic capture
thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: Cell<u32> = const { Cell::new(0) };
}
fn payload(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}
/// Run code under test; Err carries the panic message and location.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            let loc = LAST_PANIC.with(|l| l.borrow().clone());
            Err(if loc.is_empty() { payload(&*p) } else { loc })
        }
    }
}

// ------------------------------------------------------------------ case
#[derive(Clone, Debug)]
pub struct Violation {
    pub key: String,
    pub family: String,
    pub idx: u64,
    pub detail: String,
}

pub struct Case {
    pub family: String,
    pub idx: u64,
    pub thorough: bool,
    sig: u64,
    checks: u64,
    trivial: bool,
    events: BTreeMap<&'static str, u64>,
    ratios: BTreeMap<&'static str, f64>,
    viol: Vec<Violation>,
    sample: Option<String>,
    want_sample: bool,
    states: Vec<u64>,
}
impl Case {
    #[inline]
    pub fn ev(&mut self, name: &'static str) {
        *self.events.entry(name).or_insert(0) += 1;
    }
    #[inline]
    pub fn evn(&mut self, name: &'static str, n: u64) {
        *self.events.entry(name).or_insert(0) += n;
    }
    /// Mix something that identifies this case into its signature.
    #[inline]
    pub fn mix(&mut self, v: u64) {
        self.sig = splitmix(self.sig ^ v);
    }
    #[inline]
    pub fn mixf(&mut self, v: f64) {
        self.mix(v.to_bits());
    }
    /// A distinct abstract state / interleaving / branch seen (counted separately).
    pub fn state(&mut self, v: u64) {
        self.states.push(splitmix(v ^ hash_str(&self.family)));
    }
    /// The case carried no information (identity input, rejected...).
    pub fn trivial(&mut self) {
        self.trivial = true;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.sample.is_none() {
            self.sample = Some(f());
        }
    }
    pub fn fail(&mut self, key: &str, detail: String) {
        if self.viol.len() < 20 {
            self.viol.push(Violation {
                key: format!("{}/{}", self.family, key),
                family: self.family.clone(),
                idx: self.idx,
                detail,
            });
        }
    }
    #[inline]
    pub fn ok(&mut self, cond: bool, key: &str, detail: impl FnOnce() -> String) -> bool {
        self.checks += 1;
        if !cond {
            self.fail(key, detail());
        }
        cond
    }
    /// |got-want| <= tol, both finite. Records the worst observed ratio err/tol under `name`.
    #[inline]
    pub fn close(&mut self, name: &'static str, got: f64, want: f64, tol: f64, ctx: impl FnOnce() -> String) -> bool {
        self.checks += 1;
        let err = (got - want).abs();
        let good = err <= tol; // NaN -> false
        if good {
            let r = if tol > 0.0 { err / tol } else { 0.0 };
            let e = self.ratios.entry(name).or_insert(0.0);
            if r > *e {
                *e = r;
            }
        } else {
            let c = ctx();
            self.fail(name, format!("got {got:e} want {want:e} err {err:e} tol {tol:e}; {c}"));
        }
        good
    }
    pub fn failed(&self) -> bool {
        !self.viol.is_empty()
    }
}

// ------------------------------------------------------------------ context
#[derive(Default)]
struct FamStat {
    cases: u64,
    checks: u64,
    distinct: u64,
    violations: u64,
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub scale: f64,
    pub threads: usize,
    pub stage: String,
    out: Option<String>,
    only: Option<(String, u64)>,
    fam_filter: Option<String>,
    evaluations: u64,
    checks: u64,
    sigs: HashSet<u64>,
    states: HashSet<u64>,
    events: BTreeMap<&'static str, u64>,
    ratios: BTreeMap<String, f64>,
    fams: BTreeMap<String, FamStat>,
    viols: Vec<Violation>,
    viol_total: u64,
    samples: Vec<String>,
    required: Vec<(&'static str, u64)>,
    inconclusive: Vec<String>,
}

extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, clk: *mut i32) -> i32;
    fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32;
}
fn cpu_ns(clk: i32) -> i64 {
    let mut ts = [0i64; 2];
    if unsafe { clock_gettime(clk, &mut ts) } != 0 {
        return 0;
    }
    ts[0] * 1_000_000_000 + ts[1]
}

struct Slot {
    clk: AtomicI64,
    start: AtomicI64,
    idx: AtomicU64,
    busy: AtomicBool,
}

/// CPU seconds one single case may burn before it counts as non-terminating. Ordinary cases take
/// micro- to milliseconds; the limit is CPU time of that thread, not wall time.
/// CPU time of the slowest case so far
static SLOWEST_MS: AtomicU64 = AtomicU64::new(0);
/// quick-tier cases take milliseconds (the slowest, under ThreadSanitizer, 2.5 s)
const QUICK_CASE_CPU_LIMIT_S: i64 = 25;
const THOROUGH_CASE_CPU_LIMIT_S: i64 = 100;

impl Ctx {
    pub fn from_args(prop: &str) -> Ctx {
        let mut a = std::env::args().skip(1);
        let mut c = Ctx {
            prop: prop.to_string(),
            seed: 1,
            thorough: false,
            scale: 1.0,
            threads: if cfg!(miri) { 1 } else { 8 },
            stage: "native".into(),
            out: None,
            only: None,
            fam_filter: None,
            evaluations: 0,
            checks: 0,
            sigs: HashSet::new(),
            states: HashSet::new(),
            events: BTreeMap::new(),
            ratios: BTreeMap::new(),
            fams: BTreeMap::new(),
            viols: vec![],
            viol_total: 0,
            samples: vec![],
            required: vec![],
            inconclusive: vec![],
        };
        while let Some(k) = a.next() {
            let mut v = || a.next().expect("argument value");
            match k.as_str() {
                "--seed" => c.seed = v().parse().expect("seed"),
                "--tier" => c.thorough = v() == "thorough",
                "--scale" => c.scale = v().parse().expect("scale"),
                "--threads" => c.threads = v().parse().expect("threads"),
                "--stage" => c.stage = v(),
                "--out" => c.out = Some(v()),
                "--family" => c.fam_filter = Some(v()),
                "--replay" => {
                    let s = v();
                    let (f, i) = s.rsplit_once(':').expect("family:idx");
                    c.only = Some((f.to_string(), i.parse().expect("idx")));
                }
                other => panic!("unknown argument {other}"),
            }
        }
        std::panic::set_hook(Box::new(|info| {
            let msg = payload_info(info);
            LAST_PANIC.with(|l| *l.borrow_mut() = msg);
        }));
        c
    }

    /// Require at least `n` events `name` by the end, else the run is inconclusive.
    pub fn require(&mut self, name: &'static str, n: u64) {
        self.required.push((name, n));
    }
    pub fn inconclusive(&mut self, why: String) {
        self.inconclusive.push(why);
    }

    pub fn family<F>(&mut self, name: &str, quick: u64, thorough: u64, f: F)
    where
        F: Fn(&mut Rng, &mut Case) + Sync,
    {
        let t = self.threads;
        self.run(name, quick, thorough, t, true, &f)
    }
    /// Single-threaded family (code under test has global state, or cases are exact probes).
    pub fn serial<F>(&mut self, name: &str, quick: u64, thorough: u64, f: F)
    where
        F: Fn(&mut Rng, &mut Case) + Sync,
    {
        self.run(name, quick, thorough, 1, true, &f)
    }
    /// Exhaustive family: idx enumerates a finite space of `n` cases, never scaled.
    pub fn all<F>(&mut self, name: &str, n: u64, f: F)
    where
        F: Fn(&mut Rng, &mut Case) + Sync,
    {
        let t = self.threads;
        self.run(name, n, n, t, false, &f)
    }

    fn run(&mut self, name: &str, quick: u64, thorough: u64, threads: usize, scaled: bool, f: &(dyn Fn(&mut Rng, &mut Case) + Sync)) {
        if let Some(ff) = &self.fam_filter {
            if !name.starts_with(ff.as_str()) {
                return;
            }
        }
        let mut n = if self.thorough { thorough } else { quick };
        if scaled {
            n = ((n as f64 * self.scale).ceil() as u64).max(1);
        }
        let mut first = 0u64;
        if let Some((fam, idx)) = &self.only {
            if fam != name {
                return;
            }
            first = *idx;
            n = *idx + 1;
        }
        let next = AtomicU64::new(first);
        let done = AtomicUsize::new(0);
        let (seed, thorough_flag) = (self.seed, self.thorough);
        let merged: Mutex<Vec<Case>> = Mutex::new(vec![]);
        let acc = Mutex::new((FamStat::default(), Vec::<u64>::new(), Vec::<u64>::new()));
        let threads = threads.min((n - first).max(1) as usize).max(1);
        let slots: Arc<Vec<Slot>> = Arc::new(
            (0..threads)
                .map(|_| Slot { clk: AtomicI64::new(0), start: AtomicI64::new(0), idx: AtomicU64::new(0), busy: AtomicBool::new(false) })
                .collect(),
        );
        let fam_hash = hash_str(name);
        let stop = Arc::new(AtomicBool::new(false));
        // CPU-time watchdog: a case that burns this much CPU does not terminate.
        if !cfg!(miri) {
            let (slots, stop) = (slots.clone(), stop.clone());
            let (prop, stage, fam, out) = (self.prop.clone(), self.stage.clone(), name.to_string(), self.out.clone());
            let (seed, tier) = (self.seed, if self.thorough { "thorough" } else { "quick" });
            let limit = if self.thorough { THOROUGH_CASE_CPU_LIMIT_S } else { QUICK_CASE_CPU_LIMIT_S };
            std::thread::spawn(move || {
                while !stop.load(Ordering::Relaxed) {
                    std::thread::sleep(std::time::Duration::from_millis(200));
                    for s in slots.iter() {
                        if !s.busy.load(Ordering::Acquire) {
                            continue;
                        }
                        let i = s.idx.load(Ordering::Relaxed);
                        let used = cpu_ns(s.clk.load(Ordering::Relaxed) as i32) - s.start.load(Ordering::Relaxed);
                        if used > limit * 1_000_000_000 && s.busy.load(Ordering::Acquire) && s.idx.load(Ordering::Relaxed) == i && !stop.load(Ordering::Relaxed) {
                            let v = Violation { key: format!("{fam}/nontermination"), family: fam.clone(), idx: i,
                                detail: format!("case {i} of {fam} burned more than {limit} s of CPU time without finishing (normal cases take milliseconds)") };
                            let js = format!("{{\"prop\":{},\"stage\":{},\"tier\":{},\"seed\":{},\"evaluations\":{},\"checks\":0,\"distinct\":0,\"states\":0,\"events\":{{}},\"ratios\":{{}},\"families\":{{}},\"samples\":[],\"violations\":[{}],\"violation_total\":1,\"inconclusive\":[]}}",
                                jstr(&prop), jstr(&stage), jstr(tier), seed, i, jviol(&v));
                            if let Some(o) = &out { let _ = std::fs::write(o, js); }
                            let _ = std::io::Write::write_all(&mut std::io::stderr(), format!("NONTERMINATION {}\n", v.detail).as_bytes());
                            std::process::exit(1);
                        }
                    }
                }
            });
        }
        std::thread::scope(|s| {
            for t in 0..threads {
                let (next, merged, acc, slots, done) = (&next, &merged, &acc, &slots, &done);
                s.spawn(move || {
                    let slot = &slots[t];
                    if !cfg!(miri) {
                        let mut c = 0i32;
                        unsafe { pthread_getcpuclockid(pthread_self(), &mut c) };
                        slot.clk.store(c as i64, Ordering::Relaxed);
                    }
                    let mut keep: Vec<Case> = vec![];
                    let mut st = FamStat::default();
                    let (mut sigs, mut states) = (vec![], vec![]);
                    let mut agg: Option<Case> = None;
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n {
                            break;
                        }
                        if !cfg!(miri) {
                            slot.idx.store(i, Ordering::Relaxed);
                            slot.start.store(cpu_ns(slot.clk.load(Ordering::Relaxed) as i32), Ordering::Relaxed);
                            slot.busy.store(true, Ordering::Release);
                        }
                        let mut rng = Rng::new(splitmix(seed ^ fam_hash).wrapping_add(splitmix(i)));
                        let mut case = Case {
                            family: name.to_string(),
                            idx: i,
                            thorough: thorough_flag,
                            sig: fam_hash,
                            checks: 0,
                            trivial: false,
                            events: BTreeMap::new(),
                            ratios: BTreeMap::new(),
                            viol: vec![],
                            sample: None,
                            want_sample: i < 2 || i == first,
                            states: vec![],
                        };
                        let r = guard(|| f(&mut rng, &mut case));
                        if let Err(p) = r {
                            case.checks += 1;
                            case.fail("panic", format!("unexpected panic: {p}"));
                        }
                        if !cfg!(miri) { SLOWEST_MS.fetch_max(((cpu_ns(slot.clk.load(Ordering::Relaxed) as i32) - slot.start.load(Ordering::Relaxed)) / 1_000_000).max(0) as u64, Ordering::Relaxed); }
                        slot.busy.store(false, Ordering::Release);
                        st.cases += 1;
                        st.checks += case.checks;
                        if case.checks > 0 && !case.trivial {
                            sigs.push(case.sig);
                        }
                        states.append(&mut case.states);
                        st.violations += case.viol.len() as u64;
                        if !case.viol.is_empty() || case.sample.is_some() {
                            if keep.len() < 200 {
                                keep.push(case);
                                continue;
                            }
                        }
                        match &mut agg {
                            None => agg = Some(case),
                            Some(a) => {
                                for (k, v) in case.events {
                                    *a.events.entry(k).or_insert(0) += v;
                                }
                                for (k, v) in case.ratios {
                                    let e = a.ratios.entry(k).or_insert(0.0);
                                    if v > *e {
                                        *e = v;
                                    }
                                }
                            }
                        }
                    }
                    done.fetch_add(1, Ordering::Relaxed);
                    let mut m = merged.lock().unwrap();
                    m.extend(keep);
                    m.extend(agg);
                    let mut a = acc.lock().unwrap();
                    a.0.cases += st.cases;
                    a.0.checks += st.checks;
                    a.0.violations += st.violations;
                    a.1.append(&mut sigs);
                    a.2.append(&mut states);
                });
            }
        });
        stop.store(true, Ordering::Relaxed);
        let (mut st, sigs, states) = acc.into_inner().unwrap();
        let set: HashSet<u64> = sigs.into_iter().collect();
        st.distinct = set.len() as u64;
        self.sigs.extend(set);
        self.states.extend(states);
        self.evaluations += st.cases;
        self.checks += st.checks;
        self.viol_total += st.violations;
        let mut cs = merged.into_inner().unwrap();
        cs.sort_by_key(|c| c.idx);
        let mut nsamp = 0;
        for c in cs {
            for (k, v) in c.events {
                *self.events.entry(k).or_insert(0) += v;
            }
            for (k, v) in c.ratios {
                let e = self.ratios.entry(format!("{name}/{k}")).or_insert(0.0);
                if v > *e {
                    *e = v;
                }
            }
            if let Some(s) = c.sample {
                if nsamp < 1 {
                    nsamp += 1;
                    self.samples.push(format!("{name}#{}: {s}", c.idx));
                }
            }
            for v in c.viol {
                let same = self.viols.iter().filter(|w| w.key == v.key).count();
                if same < 3 {
                    self.viols.push(v);
                }
            }
        }
        if st.checks == 0 && self.only.is_none() {
            self.inconclusive.push(format!("family {name} evaluated no check"));
        }
        self.fams.insert(name.to_string(), st);
    }

    pub fn finish(mut self) -> ! {
        if self.only.is_none() && self.fam_filter.is_none() {
            for (k, n) in &self.required {
                let got = self.events.get(k).copied().unwrap_or(0);
                if got < *n {
                    self.inconclusive.push(format!("event {k} seen {got} times, needed {n}"));
                }
            }
        }
        let mut s = String::new();
        let _ = write!(
            s,
            "{{\"prop\":{},\"stage\":{},\"tier\":\"{}\",\"seed\":{},\"evaluations\":{},\"checks\":{},\"distinct\":{},\"states\":{},\"slowest_case_cpu_ms\":{},",
            jstr(&self.prop), jstr(&self.stage), if self.thorough { "thorough" } else { "quick" }, self.seed, self.evaluations, self.checks, self.sigs.len(), self.states.len(), SLOWEST_MS.load(Ordering::Relaxed)
        );
        let ev: Vec<String> = self.events.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
        let ra: Vec<String> = self.ratios.iter().map(|(k, v)| format!("{}:{:.4}", jstr(k), v)).collect();
        let fa: Vec<String> = self
            .fams
            .iter()
            .map(|(k, v)| format!("{}:{{\"cases\":{},\"checks\":{},\"distinct\":{},\"violations\":{}}}", jstr(k), v.cases, v.checks, v.distinct, v.violations))
            .collect();
        let sa: Vec<String> = self.samples.iter().map(|x| jstr(x)).collect();
        let vi: Vec<String> = self.viols.iter().map(jviol).collect();
        let inc: Vec<String> = self.inconclusive.iter().map(|x| jstr(x)).collect();
        let _ = write!(
            s,
            "\"events\":{{{}}},\"ratios\":{{{}}},\"families\":{{{}}},\"samples\":[{}],\"violations\":[{}],\"violation_total\":{},\"inconclusive\":[{}]}}",
            ev.join(","), ra.join(","), fa.join(","), sa.join(","), vi.join(","), self.viol_total, inc.join(",")
        );
        match &self.out {
            Some(o) => {
                if cfg!(miri) {
                    println!("@@RESULT@@{s}");
                }
                if !cfg!(miri) {
                    std::fs::write(o, &s).expect("write result");
                }
            }
            None => println!("@@RESULT@@{s}"),
        }
        for v in &self.viols {
            eprintln!("VIOL {} #{}: {}", v.key, v.idx, v.detail);
        }
        for i in &self.inconclusive {
            eprintln!("INCONCLUSIVE {i}");
        }
        std::process::exit(if !self.viols.is_empty() {
            1
        } else if !self.inconclusive.is_empty() {
            2
        } else {
            0
        })
    }
}

fn payload_info(info: &std::panic::PanicHookInfo) -> String {
    let m = payload(info.payload());
    match info.location() {
        Some(l) => format!("{m} at {}:{}", l.file(), l.line()),
        None => m,
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jviol(v: &Violation) -> String {
    let mut d = v.detail.clone();
    if d.len() > 1500 {
        let mut n = 1500;
        while !d.is_char_boundary(n) {
            n -= 1;
        }
        d.truncate(n);
    }
    format!("{{\"key\":{},\"family\":{},\"idx\":{},\"detail\":{}}}", jstr(&v.key), jstr(&v.family), v.idx, jstr(&d))
}
