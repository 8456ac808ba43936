//! C19: stochastic and parallel optimisers; recorded samples replayed against the stated update, jittered schedules.
#![feature(f128)]
use aether_core::math::Vector;
use aether_monitors::fw::*;
use aether_monitors::num::*;
use aether_opt::gradient_descent::{GDStochastic, GDStochasticParallel};
use aether_rand::randomizers::XorShift64Star;
use std::collections::{HashMap, HashSet};
use std::ops::Mul;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::*};
use std::sync::Mutex;

#[derive(Clone, Debug)]
struct Cfg { lr: f64, decay: f64, mu: f64, bs: u32, beta: f64, tg: f64, ts: f64, tf: f64, min_it: u32, max_it: u32, corr: bool, bounds: Option<(Vec<f64>, Vec<f64>)>, x0: Vec<f64>, noise: f64, shift: f64, seed: u64 }
fn cfg(r: &mut Rng, n: usize) -> Cfg {
    let bounds = r.chance(0.6).then(|| (0..n).map(|_| match r.below(4) { 0 => (f64::NEG_INFINITY, f64::INFINITY), 1 => (r.int(-3, 2) as f64 * 0.5, f64::INFINITY), 2 => { let v = r.int(-4, 4) as f64 * 0.25; (v, v) } _ => { let a = r.int(-8, 8) as f64 * 0.25; (a, a + r.int(0, 8) as f64 * 0.25) } }).unzip());
    let mut k = Cfg { lr: *r.pick(&[0.05, 0.2, 0.5, 1e-3, 0.0, -1.0, 1.0]), decay: *r.pick(&[0.0, 1e-3, 0.5, -1.0, 5.0]), mu: *r.pick(&[0.0, 0.0, 0.5, 0.9, -0.5]), bs: *r.pick(&[0, 1, 1, 2, 3, 7, 8, 32]), beta: *r.pick(&[0.0, 0.9, 0.5, 0.95, -1.0]), tg: *r.pick(&[0.0, 1e-4, 0.3, -1.0]), ts: *r.pick(&[0.0, 1e-8, 1e-2, -1.0]), tf: *r.pick(&[0.0, 0.0, 0.5, 1e-3, -1.0]), min_it: *r.pick(&[0, 0, 1, 5, 1000]), max_it: *r.pick(&[0, 1, 2, 12, 40]), corr: r.chance(0.7), bounds, x0: (0..n).map(|_| r.int(-12, 12) as f64 * 0.5).collect(), noise: *r.pick(&[0.0, 0.1, 1.0]), shift: *r.pick(&[0.0, 0.0, -5.0, 3.0]), seed: *r.pick(&[0, 1, 7, u64::MAX, 0x9E3779B97F4A7C15]) ^ if r.chance(0.7) { r.u64() } else { 0 } };
    // a refused (negative) objective tolerance, near the minimum
    if r.chance(0.05) { k.tf = -1.0; k.shift = 0.0; k.noise = 0.0; k.lr = 0.2; k.decay = 0.0; k.max_it = 40; k.tg = 0.0; k.bounds = None }
    k
}
/// long runs and batches beyond a byte: slow decay, slow averages, late minimum iterations
fn lengthen(r: &mut Rng, k: &mut Cfg, its: &[u32], bss: &[u32]) {
    if r.chance(0.5) { k.max_it = *r.pick(its); k.bs = *r.pick(&[0, 1, 2]); } else { k.max_it = *r.pick(&[1, 2, 3]); k.bs = *r.pick(bss); }
    k.lr = *r.pick(&[0.01, 0.002, 0.1]); k.decay = *r.pick(&[0.0, 1e-3, 0.02, 0.2]); k.beta = *r.pick(&[0.99, 0.999, 0.9999, 0.5]);
    k.tg = *r.pick(&[0.0, 0.0, 0.3, 3.0]); k.ts = *r.pick(&[0.0, 0.0, 1e-6]); k.min_it = *r.pick(&[0, 200, 257, 280, 1000]);
}
fn proj(b: &Option<(Vec<f64>, Vec<f64>)>, i: usize, v: f64) -> f64 { match b { None => v, Some((lo, hi)) => if v < lo[i] { lo[i] } else if v > hi[i] { hi[i] } else { v } } }

/// one finished run: evaluation points in order, samples in order, result
struct Log<const N: usize> { f: Vec<[f64; N]>, g: Vec<([f64; N], [f64; N])>, out: ([f64; N], f64, u32, bool) }

/// The stated rules, replayed on what was recorded. `u` is the unit roundoff of the element type.
fn replay<const N: usize>(c: &mut Case, k: &Cfg, l: &Log<N>, u: f64, obj: &dyn Fn(&[f64; N]) -> f64, par: bool) {
    let what = || format!("N={N} {k:?}");
    let bs = k.bs.max(1) as usize;
    let (x, fx, used, conv) = l.out;
    let p0: [f64; N] = std::array::from_fn(|i| proj(&k.bounds, i, k.x0[i]));
    if (0..N).any(|i| p0[i] != k.x0[i]) { c.ev("start outside the bounds") }
    let inb = |p: &[f64; N]| (0..N).all(|i| proj(&k.bounds, i, p[i]) == p[i]);
    c.ok(l.f.iter().chain(l.g.iter().map(|(p, _)| p)).chain([&x]).all(|p| inb(p)), "infeasible", || format!("a point outside the bounds was evaluated or returned; result {x:?}; {}", what()));
    c.ok(fx.to_bits() == obj(&x).to_bits(), "value-of-result", || format!("returned {fx} at {x:?}, objective there {}; {}", obj(&x), what()));
    c.ok(used <= k.max_it && (conv || used == k.max_it), "iterations", || format!("used {used} converged {conv}; {}", what()));
    if !c.ok(l.g.len() % bs == 0 && { let n = (l.g.len() / bs) as u32; n == used || n == used + 1 && conv }, "sample-count", || format!("{} samples in {used} iterations of batch {bs}; {}", l.g.len(), what())) { return }
    let iters = l.g.len() / bs;
    let mut xs = vec![];
    let mut means = vec![];
    for ch in l.g.chunks(bs) {
        c.ok(ch.iter().all(|(p, _)| *p == ch[0].0), "samples-at-one-point", || format!("a batch was sampled at several points; {}", what()));
        xs.push(ch[0].0);
        means.push(std::array::from_fn::<f64, N, _>(|i| ch.iter().map(|(_, g)| g[i]).sum::<f64>() / bs as f64));
    }
    let amp: Vec<f64> = l.g.chunks(bs).map(|ch| ch.iter().map(|(_, g)| g.iter().map(|v| v.abs()).sum::<f64>()).sum::<f64>() / bs as f64).collect();
    if iters == 0 { c.ok(x == p0, "moved-without-iterating", || format!("{x:?}; {}", what())); return }
    c.ok(xs[0] == p0, "first-point", || format!("first samples at {:?}, projected start {p0:?}; {}", xs[0], what()));
    let by_grad = iters as u32 == used + 1;
    if !by_grad { xs.push(x) } else { c.ok(x == xs[iters - 1], "stopped-elsewhere", || what()); }
    let (lr, de) = (k.lr.max(0.0), k.decay.max(0.0));
    let mu = k.mu.clamp(0.0, 0.999999);
    let eps = 2.0 * u;
    for t in 0..xs.len() - 1 {
        let a = lr / (1.0 + de * t as f64);
        for i in 0..N {
            let v = if t > 0 { xs[t][i] - xs[t - 1][i] } else { 0.0 };
            let want = proj(&k.bounds, i, xs[t][i] - a * means[t][i] + mu * v);
            let tol = eps * (16.0 * (xs[t][i].abs() + mu * if t > 0 { xs[t - 1][i].abs() + xs[t][i].abs() } else { 0.0 }) + a * amp[t] * (bs as f64 + 16.0)) + 1e-300;
            if !c.ok((xs[t + 1][i] - want).abs() <= tol, "update-law", || format!("iteration {t} axis {i}: {} -> {}, expected {want} (mean gradient {}, step {a}); {}", xs[t][i], xs[t + 1][i], means[t][i], what())) { return }
        }
        if mu > 0.0 && t > 0 { c.ev("momentum steps compared") }
    }
    c.evn("iterations replayed", xs.len() as u64 - 1);
    // stopping rules, with a band where rounding decides
    let beta = k.beta.clamp(0.0, 0.999999999);
    let (tg, ts, tf) = (k.tg.max(0.0), k.ts.max(0.0), k.tf.max(0.0));
    let mut ema = 0.0;
    for t in 0..iters {
        let n = means[t].iter().map(|v| v * v).sum::<f64>().sqrt();
        ema = beta * ema + (1.0 - beta) * n;
        let h = if k.corr || par { ema / (1.0 - beta.powi(t as i32 + 1)) } else { ema };
        let slack = eps * (bs as f64 + 64.0) * (1.0 + h + amp[..=t].iter().cloned().fold(0.0, f64::max)) / (1.0 - beta);
        let f = obj(&xs[t]);
        let active = t as u32 >= k.min_it;
        let (must, may) = (active && (h < tg - slack || tf > 0.0 && f <= tf), active && (h <= tg + slack || tf > 0.0 && f <= tf));
        let stopped = by_grad && t == iters - 1;
        if !c.ok(!(must && !stopped) && !(stopped && !may), if stopped { "stopped-without-reason" } else { "ran-past-the-stopping-rule" }, || format!("iteration {t}: smoothed gradient norm {h} (tolerance {tg}), objective {f} (tolerance {tf}), stopped {stopped}; {}", what())) { return }
        if stopped { c.ev(if tf > 0.0 && f <= tf { "stopped by objective" } else { "stopped by gradient" }) } else {
            let s = (0..N).map(|i| (xs[t + 1][i] - xs[t][i]).powi(2)).sum::<f64>().sqrt();
            let stopped = conv && !by_grad && t == iters - 1;
            let sl = s * 16.0 * eps + 1e-18;
            let (must, may) = (active && s < ts - sl, active && s <= ts + sl);
            if !c.ok(!(must && !stopped) && !(stopped && !may), if stopped { "stopped-without-reason" } else { "ran-past-the-step-rule" }, || format!("iteration {t}: step {s} (tolerance {ts}), stopped {stopped}; {}", what())) { return }
            if stopped { c.ev("stopped by step") }
        }
    }
    if !conv { c.ev("hit the iteration limit") }
    if k.shift < 0.0 { c.ev("negative objective values") }
}
fn objective<T: Num, const N: usize>(k: &Cfg) -> impl Fn(&[f64; N]) -> f64 + '_ { move |p| T::of(p.iter().enumerate().map(|(i, v)| (0.5 + i as f64) * v * v).sum::<f64>() + k.shift).f() }
fn sample<T: Num, const N: usize>(k: &Cfg, p: &[f64; N], rng: &mut XorShift64Star) -> ([f64; N], u64) {
    let mut first = 0;
    let g = std::array::from_fn(|i| { let z = rng.next_u64(); if i == 0 { first = z } T::of((1.0 + 2.0 * i as f64) * p[i] + k.noise * ((z >> 11) as f64 / (1u64 << 53) as f64 - 0.5)).f() });
    (g, first)
}

fn serial<const N: usize>(r: &mut Rng, c: &mut Case, long: bool) where Vector<f64, N>: Copy {
    let mut k = cfg(r, N);
    if long { lengthen(r, &mut k, &[257, 300, 700], &[255, 256, 257, 1000, 70_000]); c.ev("long serial runs") }
    c.mix(hash_str(&format!("{k:?}")));
    let mut o = GDStochastic::<N>::new(k.seed);
    o.learning_rate(k.lr).decay(k.decay).momentum(k.mu).batch_size(k.bs).ema(k.beta).tolerances(k.tg, k.ts).tol_f(k.tf).min_iters(k.min_it).max_iters(k.max_it).bias_corrected_ema(k.corr);
    if r.chance(0.1) { o.set_bounds([5.0; N], [6.0; N]); o.clear_bounds(); }
    if let Some((lo, hi)) = &k.bounds { o.set_bounds(std::array::from_fn(|i| lo[i]), std::array::from_fn(|i| hi[i])); }
    let mut stream = XorShift64Star::new(k.seed);
    let twin = o; // same state, to be replayed
    for run in 0..2 {
        // the second run of the same optimiser carries on with the generator
        let (fl, gl) = (Mutex::new(vec![]), Mutex::new(vec![]));
        let x0 = Vector::new(std::array::from_fn(|i| k.x0[i]));
        let obj = objective::<f64, N>(&k);
        let arr = |x: &Vector<f64, N>| -> [f64; N] { std::array::from_fn(|i| x[i]) };
        let st = Mutex::new(stream);
        let drift = AtomicU64::new(0);
        let body = |o: &mut GDStochastic<N>| o.minimize(x0, |x| { let p = arr(x); fl.lock().unwrap().push(p); obj(&p) }, |x, rng| { let p = arr(x); let g = sample::<f64, N>(&k, &p, rng).0; let mut s = st.lock().unwrap(); let h = sample::<f64, N>(&k, &p, &mut s).0; if g != h { drift.fetch_add(1, Relaxed); } gl.lock().unwrap().push((p, g)); Vector::new(g) });
        let out = match guard(|| body(&mut o)) { Ok(v) => v, Err(e) => return c.fail("panic", format!("{e}; {k:?}")) };
        stream = *st.lock().unwrap();
        c.ok(drift.load(Relaxed) == 0, "generator-stream", || format!("run {run}: the sampler was not given the seed's generator sequence; {k:?}"));
        let log = Log { f: fl.into_inner().unwrap(), g: gl.into_inner().unwrap(), out: (arr(&out.0), out.1, out.2, out.3) };
        replay(c, &k, &log, f64::U, &obj, false);
        if run == 0 {
            let mut t = twin;
            let o2 = t.minimize(x0, |x| obj(&arr(x)), |x, rng| Vector::new(sample::<f64, N>(&k, &arr(x), rng).0));
            let f = log.out;
            c.ok(arr(&o2.0).map(f64::to_bits) == f.0.map(f64::to_bits) && o2.1.to_bits() == f.1.to_bits() && (o2.2, o2.3) == (f.2, f.3), "not-reproducible", || format!("{o2:?} then {f:?}; {k:?}"));
        }
    }
    c.ev("serial runs");
}

fn parallel<T: Num + Mul<Output = T>, const N: usize>(r: &mut Rng, c: &mut Case, jitter: bool, long: bool) where Vector<T, N>: Copy + Send + Sync {
    let mut k = cfg(r, N);
    // keep all data exactly representable in T
    k.max_it = k.max_it.min(if jitter { 4 } else { 8 });
    if long { lengthen(r, &mut k, &[257, 290, 320], &[255, 256, 257, 700, 70_000]); c.ev("long parallel runs") }
    if let Some((lo, hi)) = &mut k.bounds { for v in lo.iter_mut().chain(hi) { *v = T::of(*v).f() } }
    if !jitter && !long && r.chance(0.15) { k.bs = *r.pick(&[64, 48, 100]); k.max_it = k.max_it.min(3); }
    let threads = *r.pick(if k.bs >= 48 && !long { &[17usize, 24, 33, 48] } else if long { &[1usize, 1, 2, 3][..] } else { &[0usize, 1, 2, 3, 4, 7, 16] });
    c.mix(hash_str(&format!("{k:?}{threads}")));
    let mut o = GDStochasticParallel::<T, N>::new(k.seed);
    o.learning_rate(T::of(k.lr)).decay(T::of(k.decay)).momentum(T::of(k.mu)).batch_size(k.bs).ema(T::of(k.beta)).tolerances(T::of(k.tg), T::of(k.ts)).tol_f(T::of(k.tf)).min_iters(k.min_it).max_iters(k.max_it).threads(threads);
    if let Some((lo, hi)) = &k.bounds { o.set_bounds(std::array::from_fn(|i| T::of(lo[i])), std::array::from_fn(|i| T::of(hi[i]))); }
    // what T makes of the configuration
    for v in [&mut k.lr, &mut k.decay, &mut k.mu, &mut k.beta, &mut k.tg, &mut k.ts, &mut k.tf] { *v = T::of(*v).f() }
    let obj = objective::<T, N>(&k);
    let arr = |x: &Vector<T, N>| -> [f64; N] { std::array::from_fn(|i| x[i].f()) };
    let x0 = Vector::new(std::array::from_fn(|i| T::of(k.x0[i])));
    let bs = k.bs.max(1) as u64;
    let mut outs: Vec<([u64; N], u64, u32, bool)> = vec![];
    let jit = AtomicU64::new(r.u64());
    for run in 0..2 {
        let (fl, gl) = (Mutex::new(vec![]), Mutex::new(vec![]));
        let (seen, busy, peak) = (Mutex::new(HashMap::<std::thread::ThreadId, (u64, u64)>::new()), AtomicI64::new(0), AtomicI64::new(0));
        let order = AtomicU64::new(0);
        let res = guard(|| o.minimize(x0,
            |x| { let p = arr(x); fl.lock().unwrap().push(p); T::of(obj(&p)) },
            |x, rng| {
                let n = busy.fetch_add(1, Relaxed) + 1; peak.fetch_max(n, Relaxed);
                if jitter { let j = splitmix(jit.fetch_add(0x9E37, Relaxed)); match j % 5 { 0 => std::thread::yield_now(), 1 => std::thread::sleep(std::time::Duration::from_micros(j >> 8 & 127)), 2 => for _ in 0..(j >> 8 & 2047) { std::hint::spin_loop() }, _ => {} } }
                let p = arr(x);
                let (g, z) = sample::<T, N>(&k, &p, rng);
                let me = std::thread::current().id();
                { let mut m = seen.lock().unwrap(); let e = m.entry(me).or_insert((z, 0)); e.1 += 1; }
                let mut l = gl.lock().unwrap();
                let h = format!("{me:?}").bytes().fold(order.load(Relaxed), |a, b| a.wrapping_mul(31).wrapping_add(b as u64)); order.store(h, Relaxed);
                l.push((p, g)); drop(l);
                busy.fetch_sub(1, Relaxed);
                Vector::new(g.map(T::of))
            }));
        let out = match res { Ok(v) => v, Err(e) => return c.fail("panic", format!("{e}; threads {threads}; {k:?}")) };
        let log = Log { f: fl.into_inner().unwrap(), g: gl.into_inner().unwrap(), out: (arr(&out.0), out.1.f(), out.2, out.3) };
        replay(c, &k, &log, T::U, &obj, true);
        let seen = seen.into_inner().unwrap();
        let iters = log.g.len() as u64 / bs;
        c.ok(peak.load(Relaxed) as usize <= threads.max(1), "too-many-threads", || format!("{} samplers at once, {threads} configured; {k:?}", peak.load(Relaxed)));
        // every worker of every iteration has its own stream
        let firsts: HashSet<u64> = seen.values().map(|v| v.0).collect();
        let used_threads = (threads.max(1) as u64).min(bs);
        if seen.len() as u64 == used_threads * iters {
            c.ok(firsts.len() == seen.len(), "streams-repeat", || format!("{} workers started from {} distinct generator states; threads {threads}; {k:?}", seen.len(), firsts.len()));
c.ev("runs with one thread per worker");
        }
        c.evn("parallel samples", log.g.len() as u64);
        if peak.load(Relaxed) > 1 { c.ev("runs with concurrent samplers") }
        c.state(order.load(Relaxed));
        outs.push((log.out.0.map(f64::to_bits), log.out.1.to_bits(), log.out.2, log.out.3));
        let _ = run;
    }
    c.ok(outs[0] == outs[1], "schedule-dependent", || format!("two runs differ: {outs:?}; threads {threads}; {k:?}"));
}

fn main() {
    let mut ctx = Ctx::from_args("C19");
    ctx.family("serial", 30_000, 600_000, |r, c| match r.below(3) { 0 => serial::<1>(r, c, false), 1 => serial::<2>(r, c, false), _ => serial::<4>(r, c, false) });
    ctx.serial("parallel", 500, 8_000, |r, c| match r.below(4) { 0 => parallel::<f64, 1>(r, c, false, false), 1 => parallel::<f64, 3>(r, c, false, false), 2 => parallel::<f32, 2>(r, c, false, false), _ => parallel::<f64, 2>(r, c, false, false) });
    ctx.serial("parallel-jitter", 400, 8_000, |r, c| match r.below(3) { 0 => parallel::<f64, 3>(r, c, true, false), 1 => parallel::<f32, 2>(r, c, true, false), _ => parallel::<f64, 2>(r, c, true, false) });
    ctx.family("serial-long", 400, 8_000, |r, c| match r.below(2) { 0 => serial::<1>(r, c, true), _ => serial::<2>(r, c, true) });
    ctx.serial("parallel-long", 24, 400, |r, c| match r.below(3) { 0 => parallel::<f64, 1>(r, c, false, true), 1 => parallel::<f32, 2>(r, c, false, true), _ => parallel::<f64, 2>(r, c, false, true) });
    // iteration counts beyond sixteen bits still give every worker its own stream
    ctx.serial("parallel-very-long", 1, 6, |r, c| {
        let (its, seed) = (66_000 + r.below(200) as u32, r.u64());
        c.mix(seed);
        let mut o = GDStochasticParallel::<f64, 1>::new(seed);
        o.batch_size(1).threads(1).learning_rate(1e-3).decay(0.0).tolerances(0.0, 0.0).max_iters(its);
        let seen = Mutex::new(HashSet::new());
        let res = guard(|| o.minimize(Vector::new([1.0]), |x| x[0], |_, rng| { let z = rng.next_u64(); seen.lock().unwrap().insert(z); Vector::new([(z >> 11) as f64 / (1u64 << 53) as f64 - 0.5]) }));
        let n = seen.lock().unwrap().len();
        c.ok(matches!(res, Ok((_, _, u, false)) if u == its), "very-long-run", || format!("{res:?} for {its} iterations"));
        c.ok(n == its as usize, "streams-repeat", || format!("{its} iterations started from {n} distinct generator states, seed {seed:#x}"));
        c.evn("iterations of very long runs", its as u64);
    });
    // a sampler that panics: the failure reaches the caller, nothing hangs, the optimiser stays usable
    ctx.serial("worker-panic", 40, 400, |r, c| {
        let (bs, th, at) = (r.int(1, 24) as u32, r.int(1, 8) as usize, r.int(0, 40) as u64);
        c.mix(bs as u64 | (th as u64) << 8 | at << 16);
        let mut o = GDStochasticParallel::<f64, 2>::new(r.u64());
        o.batch_size(bs).threads(th).max_iters(3).tolerances(0.0, 0.0);
        let n = AtomicU64::new(0);
        let run = |limit: u64| guard(|| o.minimize(Vector::new([1.0, 2.0]), |x| x[0] * x[0] + x[1] * x[1], |x, _| { if n.fetch_add(1, Relaxed) == limit { panic!("sampler failed") } *x }));
        let res = run(at);
        let reached = at < 3 * bs as u64;
        c.ok(res.is_err() == reached, "lost-panic", || format!("batch {bs}, {th} threads, panic at sample {at}: {res:?}"));
        if reached { c.ev("panics that reached the caller") }
        n.store(0, Relaxed);
        c.ok(run(u64::MAX).is_ok(), "unusable-after-panic", || "second run failed".into());
    });
    for e in ["start outside the bounds", "momentum steps compared", "stopped by gradient", "stopped by objective", "stopped by step", "hit the iteration limit", "negative objective values"] { ctx.require(e, 50) }
    ctx.require("runs with concurrent samplers", 20);
    ctx.require("long serial runs", 100); ctx.require("long parallel runs", 8);
    ctx.require("panics that reached the caller", 5);
    ctx.finish();
}
