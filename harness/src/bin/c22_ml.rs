//! C22: learning models against binary128 evaluations of their criteria.
#![feature(f128)]
use aether_core::math::Vector;
use aether_ml::classification::{lda_qda::*, naive_bayes::*, perceptron::*, svm::*};
use aether_ml::regression::{linear::*, logistic::*, ridge::*};
use aether_monitors::fw::*;
use aether_monitors::la;
use aether_monitors::num::*;
use aether_opt::gradient_descent::GradientDescentGeneric;

type Q = f128;
#[derive(Clone, Copy, PartialEq, Debug)]
enum M { Linear, Ridge, Logistic, Svm, Perceptron }
const ALL: [M; 5] = [M::Linear, M::Ridge, M::Logistic, M::Svm, M::Perceptron];

/// one data set; `y` real targets, `k` labels (sign of y >= 0)
struct Data<T, const N: usize> { x: Vec<Vector<T, N>>, y: Vec<T> }
/// loss and gradient at p (weights then bias) in binary128; `reg` multiplies |w|^2; returns (loss, grad, loss error scale, grad error scales, ambiguous hinge)
struct Eval { loss: Q, grad: Vec<Q>, le: f64, ge: Vec<f64>, ambiguous: bool }
fn eval<T: Num, const N: usize>(m: M, d: &Data<T, N>, p: &[Q], reg: Q) -> Eval {
    let n = d.x.len();
    let mut e = Eval { loss: 0.0, grad: vec![0.0; N + 1], le: 0.0, ge: vec![0.0; N + 1], ambiguous: false };
    for (x, y) in d.x.iter().zip(&d.y) {
        let (mut s, mut a) = (p[N], (p[N] as f64).abs());
        for i in 0..N { s += p[i] * x[i].q(); a += (p[i] * x[i].q()).abs() as f64; }
        let lab: Q = if y.f() >= 0.0 { 1.0 } else { -1.0 };
        let es = (N as f64 + 4.0) * T::U * a; // rounding of the score
        let (l, g, eg, el) = match m {
            M::Linear | M::Ridge => { let r = s - y.q(); let er = es + 2.0 * T::U * (r as f64).abs(); (r * r, 2.0 * r, 2.0 * er, 2.0 * er * (r as f64).abs() + er * er + T::U * (r * r) as f64) }
            M::Logistic => {
                let pr = 1.0 / (1.0 + (-s).exp());
                let yv: Q = if lab > 0.0 { 1.0 } else { 0.0 };
                // cross entropy: log(1 + exp(-lab s))
                let l = if -lab * s > 0.0 { -lab * s + (lab * s).exp().ln_1p() } else { (-lab * s).exp().ln_1p() };
                (l, pr - yv, es + 8.0 * T::U, es + 8.0 * T::U * (1.0 + (s as f64).abs()))
            }
            M::Svm => { let mg = lab * s; if (mg as f64 - 1.0).abs() <= 4.0 * es + 8.0 * T::U { e.ambiguous = true } if mg < 1.0 { (1.0 - mg, -lab, 0.0, es + 4.0 * T::U) } else { (0.0, 0.0, 0.0, 0.0) } }
            M::Perceptron => { let v = -lab * s; if (v as f64).abs() <= 4.0 * es + T::TINY { e.ambiguous = true } if v > 0.0 { (v, -lab, 0.0, es) } else { (0.0, 0.0, 0.0, 0.0) } }
        };
        e.loss += l; e.le += el + (n as f64 + 4.0) * T::U * (l as f64);
        for i in 0..=N { let xi = if i < N { x[i].q() } else { 1.0 }; e.grad[i] += g * xi; e.ge[i] += (xi as f64).abs() * (eg + (n as f64 + 6.0) * T::U * (g as f64).abs()); }
    }
    let n = n as Q;
    e.loss /= n; e.le /= n as f64;
    for i in 0..=N { e.grad[i] /= n; e.ge[i] /= n as f64; }
    for i in 0..N { e.loss += reg * p[i] * p[i]; e.le += 8.0 * T::U * (reg * p[i] * p[i]) as f64; e.grad[i] += 2.0 * reg * p[i]; e.ge[i] += 8.0 * T::U * (reg * p[i]).abs() as f64; }
    e
}
fn data<T: Num, const N: usize>(r: &mut Rng, n: usize, noise: f64) -> Data<T, N> {
    let mode = r.below(3);
    let x: Vec<Vector<T, N>> = (0..n).map(|_| Vector::new(std::array::from_fn(|_| T::of(match mode { 0 => r.int(-4, 4) as f64, 1 => r.normal(), _ => r.normal() * 3.0 + 1.0 })))).collect();
    let w: Vec<f64> = (0..=N).map(|_| r.normal()).collect();
    let y = x.iter().map(|x| T::of((0..N).map(|i| w[i] * x[i].f()).sum::<f64>() + w[N] + noise * r.normal())).collect();
    Data { x, y }
}
struct Model<T: Num, const N: usize> { m: M, w: [T; N], b: T, lr: T, reg: T }
impl<T: Num, const N: usize> Model<T, N> {
    fn p(&self) -> Vec<Q> { self.w.iter().chain([&self.b]).map(|v| v.q()).collect() }
    fn epoch(&self, d: &Data<T, N>) -> Vec<T> {
        let (weights, bias, lr) = (Vector::new(self.w), self.b, self.lr);
        let lab8: Vec<u8> = d.y.iter().enumerate().map(|(i, y)| if y.f() >= 0.0 { 1 + (i % 3) as u8 } else { 0 }).collect();
        let labi: Vec<i8> = d.y.iter().map(|y| if y.f() >= 0.0 { 1 } else { -1 }).collect();
        let (w, b) = match self.m {
            M::Linear => { let mut o = LinearRegression { weights, bias, lr }; o.train_epoch(&d.x, &d.y); (o.weights, o.bias) }
            M::Ridge => { let mut o = RidgeRegression { weights, bias, lr, alpha: self.reg }; o.train_epoch(&d.x, &d.y); (o.weights, o.bias) }
            M::Logistic => { let mut o = LogisticRegression { weights, bias, lr }; o.train_epoch(&d.x, &lab8); (o.weights, o.bias) }
            M::Svm => { let mut o = LinearSvm { weights, bias, lr, c: self.reg }; o.train_epoch(&d.x, &labi); (o.weights, o.bias) }
            M::Perceptron => { let mut o = Perceptron { weights, bias, lr }; o.train_epoch(&d.x, &labi); (o.weights, o.bias) }
        };
        (0..N).map(|i| w[i]).chain([b]).collect()
    }
    fn fit<const K: usize>(&self, d: &Data<T, N>, o: GradientDescentGeneric<T, K>) -> Vec<T> {
        let (weights, bias, lr) = (Vector::new(self.w), self.b, self.lr);
        let lab8: Vec<u8> = d.y.iter().enumerate().map(|(i, y)| if y.f() >= 0.0 { 1 + (i % 3) as u8 } else { 0 }).collect();
        let labi: Vec<i8> = d.y.iter().map(|y| if y.f() >= 0.0 { 1 } else { -1 }).collect();
        let (w, b) = match self.m {
            M::Linear => { let mut m = LinearRegression { weights, bias, lr }; m.fit_with_optimizer(&d.x, &d.y, o); (m.weights, m.bias) }
            M::Ridge => { let mut m = RidgeRegression { weights, bias, lr, alpha: self.reg }; m.fit_with_optimizer(&d.x, &d.y, o); (m.weights, m.bias) }
            M::Logistic => { let mut m = LogisticRegression { weights, bias, lr }; m.fit_with_optimizer(&d.x, &lab8, o); (m.weights, m.bias) }
            M::Svm => { let mut m = LinearSvm { weights, bias, lr, c: self.reg }; m.fit_with_optimizer(&d.x, &labi, o); (m.weights, m.bias) }
            M::Perceptron => { let mut m = Perceptron { weights, bias, lr }; m.fit_with_optimizer(&d.x, &labi, o); (m.weights, m.bias) }
        };
        (0..N).map(|i| w[i]).chain([b]).collect()
    }
    /// weight of |w|^2 in the criterion of an epoch step / of the optimiser fit
    fn l2(&self, n: usize, epoch: bool) -> Q { match self.m { M::Ridge => self.reg.q(), M::Svm => if epoch { 1.0 / (self.reg.q() * n as Q) } else { 0.5 / self.reg.q() }, _ => 0.0 } }
}
fn model<T: Num, const N: usize>(r: &mut Rng) -> Model<T, N> {
    let z = r.chance(0.15);
    Model { m: *r.pick(&ALL), w: std::array::from_fn(|_| T::of(if z { 0.0 } else { r.normal() })), b: T::of(if z { 0.0 } else { r.normal() }), lr: T::of(r.logu(1e-3, 1.0)), reg: T::of(r.logu(0.05, 20.0)) }
}
fn steps<T: Num, const N: usize, const K: usize>(r: &mut Rng, c: &mut Case) {
    let o = model::<T, N>(r);
    let n = if r.chance(0.04) { 0 } else { r.int(1, 25) as usize };
    let d = data::<T, N>(r, n, 0.5);
    let p = o.p();
    for v in &p { c.mixf(*v as f64) }
    c.mix(n as u64); if n > 0 { c.mixf(d.y[0].f()); }
    let what = || format!("{} {:?} weights {:?} bias {} lr {} reg {} x {:?} y {:?}", T::NAME, o.m, o.w, o.b, o.lr, o.reg, d.x, d.y);
    // prediction
    let xs: [T; N] = std::array::from_fn(|_| T::of(r.normal() * *r.pick(&[1.0, 30.0])));
    let (mut s, mut a) = (p[N], (p[N] as f64).abs());
    for i in 0..N { s += p[i] * xs[i].q(); a += (p[i] * xs[i].q()).abs() as f64; }
    let es = (N as f64 + 4.0) * T::U * a + T::TINY;
    let (x, weights, bias) = (Vector::new(xs), Vector::new(o.w), o.b);
    match o.m {
        M::Linear => { c.close("predict", LinearRegression { weights, bias, lr: o.lr }.predict(&x).f(), s as f64, es, what); }
        M::Ridge => { c.close("predict", RidgeRegression { weights, bias, lr: o.lr, alpha: o.reg }.predict(&x).f(), s as f64, es, what); }
        M::Logistic => {
            let l = LogisticRegression { weights, bias, lr: o.lr };
            let pr = (1.0 / (1.0 + (-s).exp())) as f64;
            c.close("probability", l.predict_probability(&x).f(), pr, pr * (es + 12.0 * T::U * (1.0 + (s as f64).abs())) + T::TINY * 4.0, what);
            if l.predict_probability(&x) == T::of(0.5) { c.ok(l.predict(&x) == 0, "logistic-class", || format!("even odds; {}", what())); c.ev("even odds") }
            if (s as f64).abs() > 2.0 * es + 16.0 * T::U { c.ok(l.predict(&x) == (s > 0.0) as u8, "logistic-class", || format!("score {:e}; {}", s as f64, what())); }
        }
        M::Svm => { c.close("decision", LinearSvm { weights, bias, lr: o.lr, c: o.reg }.decision(&x).f(), s as f64, es, what); }
        M::Perceptron => {
            let l = Perceptron { weights, bias, lr: o.lr };
            c.close("decision", l.predict_raw(&x).f(), s as f64, es, what);
            if (s as f64).abs() > es { c.ok(l.predict(&x) == if s > 0.0 { 1 } else { -1 }, "perceptron-class", what); }
        }
    }
    // a new model has learnt nothing
    let zero = match o.m {
        M::Linear => { let m = LinearRegression::<T, N>::new(); m.predict(&x) == T::of(0.0) && m.lr == T::of(1.0) }
        M::Ridge => { let m = RidgeRegression::<T, N>::new(); m.predict(&x) == T::of(0.0) && m.lr == T::of(1.0) && m.alpha == T::of(1.0) }
        M::Logistic => { let m = LogisticRegression::<T, N>::new(); m.predict_probability(&x) == T::of(0.5) && m.lr == T::of(1.0) }
        M::Svm => { let m = LinearSvm::<T, N>::new(); m.decision(&x) == T::of(0.0) && m.lr == T::of(1.0) && m.c == T::of(1.0) }
        M::Perceptron => { let m = Perceptron::<T, N>::new(); m.predict_raw(&x) == T::of(0.0) && m.lr == T::of(1.0) }
    };
    c.ok(zero, "new-model", what);
    // one epoch
    let got = match guard(|| o.epoch(&d)) { Ok(v) => v, Err(e) => return c.fail("panic", format!("{e}; {}", what())) };
    if n == 0 { let f = guard(|| o.fit::<K>(&d, GradientDescentGeneric::new())); c.ok((0..=N).all(|i| got[i].q() == p[i] && f.as_ref().is_ok_and(|f| f[i].q() == p[i])), "empty-data-changes-model", what); c.ev("empty data"); return }
    let e = eval(o.m, &d, &p, o.l2(n, true));
    if o.m != M::Perceptron && !e.ambiguous {
        for i in 0..=N { let st = o.lr.q() * e.grad[i]; c.close("epoch-step", (got[i].q() - (p[i] - st)) as f64, 0.0, 2.0 * o.lr.f() * e.ge[i] + 3.0 * T::U * ((p[i] as f64).abs() + (st as f64).abs()) + T::TINY, || format!("parameter {i}; {}", what())); }
        c.ev(match o.m { M::Linear => "linear epochs", M::Ridge => "ridge epochs", M::Logistic => "logistic epochs", _ => "svm epochs" });
    }
    // one step of the optimiser, fixed and with line search
    let e = eval(o.m, &d, &p, o.l2(n, false));
    if e.ambiguous { c.trivial(); return }
    let gn2: Q = la::dot(&e.grad, &e.grad);
    let mut gd = GradientDescentGeneric::<T, K>::new();
    gd.max_iters(1).tolerances(T::ZERO, T::ZERO).backtracking(false).learning_rate(o.lr);
    let got = match guard(|| o.fit::<K>(&d, gd)) { Ok(v) => v, Err(e) => return c.fail("panic", format!("{e}; {}", what())) };
    for i in 0..=N { let st = o.lr.q() * e.grad[i]; c.close("fit-step", (got[i].q() - (p[i] - st)) as f64, 0.0, 2.0 * o.lr.f() * e.ge[i] + 3.0 * T::U * ((p[i] as f64).abs() + (st as f64).abs()) + T::TINY, || format!("parameter {i}; {}", what())); }
    c.ev("fixed optimiser steps");
    if (gn2 as f64).sqrt() < 1e4 * la::norm(&e.ge.iter().map(|v| *v as Q).collect::<Vec<_>>()) as f64 || gn2 as f64 == 0.0 { return }
    let (lr, c1) = (T::of(*r.pick(&[16.0, 4.0, 1.0, 0.25])), T::of(*r.pick(&[1e-4, 0.125, 0.375])));
    let mut gd = GradientDescentGeneric::<T, K>::new();
    gd.max_iters(1).tolerances(T::ZERO, T::ZERO).backtracking(true).armijo(c1, T::of(0.5)).learning_rate(lr);
    let got = match guard(|| o.fit::<K>(&d, gd)) { Ok(v) => v, Err(e) => return c.fail("panic", format!("{e}; {}", what())) };
    let mut amb = false;
    let mut a = lr.q();
    for k in 0..50 {
        let t: Vec<Q> = (0..=N).map(|i| p[i] - a * e.grad[i]).collect();
        let f = eval(o.m, &d, &t, o.l2(n, false));
        let diff = f.loss - (e.loss - c1.q() * a * gn2);
        // the trial point itself carries the rounding of the step
        let tol = 4.0 * (f.le + e.le) + (0..=N).map(|i| (f.grad[i] as f64).abs() * (2.0 * a as f64 * e.ge[i] + 4.0 * T::U * ((p[i] as f64).abs() + (a * e.grad[i]).abs() as f64))).sum::<f64>() * 2.0 + c1.f() * a as f64 * 2.0 * (0..=N).map(|i| (e.grad[i] as f64).abs() * e.ge[i]).sum::<f64>() + 8.0 * T::U * (e.loss as f64).abs();
        if (diff as f64).abs() <= tol || f.ambiguous && (diff as f64).abs() <= 1e-3 * (e.loss as f64).abs() { amb = true; break }
        if diff < 0.0 {
            for i in 0..=N { let st = a * e.grad[i]; c.close("line-search-step", (got[i].q() - (p[i] - st)) as f64, 0.0, 2.0 * a as f64 * e.ge[i] + 3.0 * T::U * ((p[i] as f64).abs() + (st as f64).abs()) + T::TINY, || format!("parameter {i}, first acceptable step {} after {k} halvings, c1 {c1}; {}", a as f64, what())); }
            c.ev(if k == 0 { "line search: first trial" } else { "line search: backtracked" });
            break;
        }
        a /= 2.0;
    }
    if amb { c.ev("line search: too close to call") }
}
/// the fit reaches the minimiser: the true gradient vanishes there
fn minimum<const N: usize, const K: usize>(r: &mut Rng, c: &mut Case) {
    let mut o = model::<f64, N>(r);
    o.m = *r.pick(&[M::Linear, M::Ridge, M::Logistic, M::Logistic]);
    let n = N * 12 + r.below(20);
    let mut d = data::<f64, N>(r, n, 0.5);
    if o.m == M::Logistic { for y in &mut d.y { if r.chance(0.25) { *y = -*y } } }
    for v in &o.w { c.mixf(*v) } c.mixf(d.y[0]);
    let what = || format!("{:?} reg {} n {n} x {:?} y {:?}", o.m, o.reg, d.x, d.y);
    let mut gd = GradientDescentGeneric::<f64, K>::new();
    gd.max_iters(20_000).tolerances(1e-9, 0.0).backtracking(true).armijo(0.25, 0.5).learning_rate(2.0);
    let got = match guard(|| o.fit::<K>(&d, gd)) { Ok(v) => v, Err(e) => return c.fail("panic", format!("{e}; {}", what())) };
    let p: Vec<Q> = got.iter().map(|v| v.q()).collect();
    let e = eval(o.m, &d, &p, o.l2(n, false));
    // curvature of the criterion at the result
    let mut h = la::zeros(N + 1, N + 1);
    for x in &d.x {
        let mut s = p[N]; for i in 0..N { s += p[i] * x[i] as Q }
        let w: Q = if o.m == M::Logistic { let q = 1.0 / (1.0 + (-s).exp()); q * (1.0 - q) } else { 2.0 } / n as Q;
        for i in 0..=N { for j in 0..=N { let g = |k: usize| if k < N { x[k] as Q } else { 1.0 }; h[i][j] += w * g(i) * g(j) } }
    }
    for i in 0..N { h[i][i] += 2.0 * o.l2(n, false) }
    let lmax: f64 = (0..=N).map(|i| h[i][i] as f64).sum();
    let lmin = la::inv_det(&h).0.map(|v| 1.0 / (0..=N).map(|i| v[i][i] as f64).sum::<f64>()).unwrap_or(0.0);
    let l0 = if o.m == M::Logistic { d.x.iter().map(|x| 1.0 + (0..N).map(|i| x[i] * x[i]).sum::<f64>()).sum::<f64>() / n as f64 / 4.0 } else { lmax };
    if !(lmin > lmax.max(l0) / 300.0) { c.trivial(); c.ev("badly conditioned fits skipped"); return }
    let gn = la::norm(&e.grad) as f64;
    c.close("minimiser", gn, 0.0, 4e-9 + 8.0 * (l0.max(lmax) * (e.le + e.loss as f64 * 1e-15)).sqrt(), || format!("gradient at the fitted parameters {got:?}: {:?}; {}", e.grad.iter().map(|v| *v as f64).collect::<Vec<_>>(), what()));
    c.ev("fits to the minimum");
}
/// perceptron on exactly representable data: the update rule replayed, and the convergence theorem
fn perceptron<const N: usize>(r: &mut Rng, c: &mut Case) {
    let n = r.int(2, 40) as usize;
    let sep = r.chance(0.7);
    let w: Vec<i64> = loop { let w: Vec<i64> = (0..=N).map(|_| r.int(-4, 4)).collect(); if w[..N].iter().any(|v| *v != 0) { break w } };
    let mut pts: Vec<(Vec<i64>, i8)> = Vec::new();
    while pts.len() < n { let x: Vec<i64> = (0..N).map(|_| r.int(-8, 8)).collect(); let s: i64 = (0..N).map(|i| w[i] * x[i]).sum::<i64>() + w[N]; if sep && s == 0 { if r.chance(0.02) { break } continue } pts.push((x, if sep { s.signum() as i8 } else { r.sign() as i8 })); }
    if pts.is_empty() { c.trivial(); return }
    let lr = *r.pick(&[1.0, 0.5, 0.125, 4.0]);
    for (x, l) in &pts { for v in x { c.mix(*v as u64) } c.mix(*l as u64) }
    let xs: Vec<Vector<f64, N>> = pts.iter().map(|(x, _)| Vector::new(std::array::from_fn(|i| x[i] as f64))).collect();
    let ys: Vec<i8> = pts.iter().map(|p| p.1).collect();
    let mut m = Perceptron::<f64, N> { weights: Vector::new([0.0; N]), bias: 0.0, lr };
    let mut rw = vec![0.0f64; N + 1];
    let (wn, rr) = (w.iter().map(|v| v * v).sum::<i64>(), pts.iter().map(|(x, _)| 1 + x.iter().map(|v| v * v).sum::<i64>()).max().unwrap());
    let gamma = pts.iter().map(|(x, _)| ((0..N).map(|i| w[i] * x[i]).sum::<i64>() + w[N]).abs()).min().unwrap();
    let bound = if sep { rr * wn / (gamma * gamma).max(1) } else { 0 };
    let (mut mistakes, mut epoch) = (0i64, 0);
    loop {
        m.train_epoch(&xs, &ys);
        let mut here = 0;
        for (x, l) in &pts { let s: f64 = (0..N).map(|i| rw[i] * x[i] as f64).sum::<f64>() + rw[N]; if *l as f64 * s <= 0.0 { here += 1; for i in 0..=N { rw[i] += lr * *l as f64 * if i < N { x[i] as f64 } else { 1.0 } } } }
        mistakes += here; epoch += 1;
        if !c.ok((0..N).all(|i| m.weights[i] == rw[i]) && m.bias == rw[N], "perceptron-update", || format!("after epoch {epoch}: {:?} {} instead of {rw:?}; lr {lr} {pts:?}", m.weights, m.bias)) { return }
        if sep && !c.ok(mistakes <= bound, "mistake-bound", || format!("{mistakes} mistakes > {bound}; {pts:?}")) { return }
        if here == 0 { break }
        if !sep && epoch >= 20 { c.ev("non-separable sets"); return }
    }
    c.ok(pts.iter().zip(&xs).all(|((_, l), x)| m.predict(x) == *l), "not-separated", || format!("{pts:?}"));
    c.ev("separable sets learned");
}
fn gauss<const N: usize>(r: &mut Rng, c: &mut Case) {
    let k = r.int(1, 5) as usize;
    let sc = *r.pick(&[1.0, 1.0, 1e-3, 1e3]);
    let (mut x, mut y) = (vec![], vec![]);
    let crowd = if r.chance(0.02) { c.ev("unbalanced classes"); r.below(k) } else { k };
    for cl in 0..k {
        let n = match r.below(8) { _ if cl == crowd => r.int(400, 900) as usize, 0 => 0, 1 => 1, 2 => 2, 3 if crowd < k => N + 1, _ => r.int(N as i64 + 1, 40) as usize };
        let mu: Vec<f64> = (0..N).map(|_| r.normal() * 2.0).collect();
        let s: Vec<f64> = (0..N).map(|_| r.logu(0.3, 3.0)).collect();
        let mix = r.normal() * 0.5;
        for _ in 0..n { let z: Vec<f64> = (0..N).map(|_| r.normal()).collect(); x.push(Vector::new(std::array::from_fn::<f64, N, _>(|i| sc * (mu[i] + s[i] * (z[i] + if i > 0 { mix * z[i - 1] } else { 0.0 }))))); y.push(cl); }
    }
    if x.is_empty() { c.trivial(); return }
    let mut order: Vec<usize> = (0..x.len()).collect(); r.shuffle(&mut order);
    let (x, y): (Vec<_>, Vec<_>) = (order.iter().map(|i| x[*i]).collect::<Vec<_>>(), order.iter().map(|i| y[*i]).collect::<Vec<_>>());
    for v in &x { c.mixf(v[0]) }
    let what = || format!("{k} classes, labels {y:?}, x {x:?}");
    let (g, l, q) = match guard(|| (GaussianNB::<N>::fit(&x, &y, k), Lda::<N>::fit(&x, &y, k), Qda::<N>::fit(&x, &y, k))) { Ok(v) => v, Err(e) => return c.fail("panic", format!("{e}; {}", what())) };
    // definitions
    let mut pooled = la::zeros(N, N);
    let (mut means, mut covs, mut prior, mut cnt) = (vec![], vec![], vec![], vec![]);
    let mut ptol = vec![vec![0.0f64; N]; N];
    for cl in 0..k {
        let s: Vec<&Vector<f64, N>> = x.iter().zip(&y).filter(|(_, l)| **l == cl).map(|(x, _)| x).collect();
        let n = s.len();
        let pr = n as f64 / x.len() as f64;
        let mut mu = vec![0.0 as Q; N];
        for v in &s { for i in 0..N { mu[i] += v[i] as Q } }
        let em: Vec<f64> = (0..N).map(|i| if n == 0 { 0.0 } else { (n as f64 + 3.0) * f64::U * s.iter().map(|v| v[i].abs()).sum::<f64>() / n as f64 }).collect();
        if n > 0 { for m in &mut mu { *m /= n as Q } }
        c.ok(g.class_count[cl] == n, "class-count", what);
        for p in [g.class_prior[cl], l.priors[cl], q.priors[cl]] { c.close("prior", p, pr, 2.0 * f64::U * pr, what); }
        for i in 0..N { for (nm, m) in [("nb", g.class_mean[cl][i]), ("lda", l.means[cl][i]), ("qda", q.means[cl][i])] { c.close("class-mean", m, mu[i] as f64, em[i], || format!("{nm} class {cl} feature {i}; {}", what())); } }
        let mut cv = la::zeros(N, N);
        for i in 0..N { for j in 0..N {
            let (mut t, mut a) = (0.0 as Q, 0.0f64);
            for v in &s { let (p, w) = (v[i] as Q - mu[i], v[j] as Q - mu[j]); t += p * w; let (p, w) = ((p as f64).abs(), (w as f64).abs()); a += p * (em[j] + f64::U * w) * 2.0 + w * (em[i] + f64::U * p) * 2.0 + em[i] * em[j] + (n as f64 + 6.0) * f64::U * p * w; }
            if i == j { let v = t / (n as Q).max(1.0); c.close("nb-variance", g.class_var[cl][i], v as f64, a / (n as f64).max(1.0) + 4.0 * f64::U * v as f64, || format!("class {cl} feature {i}; {}", what())); }
            let dn = (n as f64 - 1.0).max(1.0);
            cv[i][j] = t / dn as Q;
            let tol = a / dn + 4.0 * f64::U * (cv[i][j] as f64).abs();
            c.close("qda-covariance", q.covs[cl][(i, j)], cv[i][j] as f64, tol, || format!("class {cl} [{i}][{j}]; {}", what()));
            pooled[i][j] += cv[i][j] * pr as Q; ptol[i][j] += pr * (tol + 8.0 * f64::U * (cv[i][j] as f64).abs());
        } }
        means.push(mu); covs.push(cv); prior.push(pr); cnt.push(n);
    }
    for i in 0..N { for j in 0..N { c.close("pooled-covariance", l.pooled_cov[(i, j)], pooled[i][j] as f64, ptol[i][j], || format!("[{i}][{j}]; {}", what())); } }
    let cond = |m: &la::M| { let t: f64 = (0..N).map(|i| m[i][i] as f64).sum(); la::inv_det(m).0.map_or(f64::INFINITY, |v| { let k = t.abs() * (0..N).map(|i| (v[i][i] as f64).abs()).sum::<f64>(); if k.is_nan() { f64::INFINITY } else { k } }) };
    // prediction: the class with the largest score
    for _ in 0..6 {
        let z: [f64; N] = if r.chance(0.5) { let v = x[r.below(x.len())]; std::array::from_fn(|i| v[i] + sc * r.normal()) } else { std::array::from_fn(|_| sc * r.normal() * 4.0) };
        let mut judge = |nm: &'static str, sc: Vec<(usize, Q, f64)>, got: usize| {
            let Some(b) = sc.iter().max_by(|a, b| a.1.partial_cmp(&b.1).unwrap()) else { return };
            if sc.iter().any(|s| s.0 != b.0 && (b.1 - s.1) as f64 <= s.2 + b.2) { c.ev("ties skipped"); return }
            c.ok(got == b.0, nm, || format!("class {got} instead of {} at {z:?}, scores {:?}; {}", b.0, sc.iter().map(|s| (s.0, s.1 as f64)).collect::<Vec<_>>(), what()));
            c.ev(nm);
        };
        let ln2pi = (2.0 * aether_monitors::hp::PI).ln();
        let nb = (0..k).filter(|i| cnt[*i] > 0).map(|cl| { let (mut s, mut a) = ((prior[cl] as Q).ln(), 1.0f64); for i in 0..N { let v = (g.class_var[cl][i] as Q).max(1e-12); let d = z[i] as Q - g.class_mean[cl][i] as Q; let t = (ln2pi + v.ln() + d * d / v) / 2.0; s -= t; a += (t as f64).abs() + 20.0 } (cl, s, a * 1e-13) }).collect();
        judge("naive-bayes-class", nb, g.predict(&Vector::new(z)));
        let pc = cond(&pooled);
        // full rank first: an exactly singular matrix has no meaningful condition number in floating point
        if cnt.iter().map(|n| n.saturating_sub(1)).sum::<usize>() >= N && pc < 1e6 {
            let inv = la::inv_det(&pooled).0.unwrap();
            let ld = (0..k).filter(|i| cnt[*i] > 0).map(|cl| { let t = la::mulv(&inv, &means[cl]); let (mut a, mut b) = (0.0 as Q, 0.0f64); for i in 0..N { a += (z[i] as Q - means[cl][i] / 2.0) * t[i]; b += ((z[i].abs() + (means[cl][i] as f64).abs()) * la::norm(&t) as f64).abs() } (cl, a + (prior[cl] as Q).ln(), (b + 10.0) * pc * 1e-13) }).collect();
            judge("lda-class", ld, l.predict(&Vector::new(z)));
        }
        if (0..k).all(|cl| cnt[cl] <= 1 || cnt[cl] > N && cond(&covs[cl]) < 1e6) {
            let qd: Vec<_> = (0..k).filter(|i| cnt[*i] > 1).map(|cl| { let (inv, det) = la::inv_det(&covs[cl]); let inv = inv.unwrap(); let d: Vec<Q> = (0..N).map(|i| z[i] as Q - means[cl][i]).collect(); let qf = la::dot(&d, &la::mulv(&inv, &d)); let s = -det.ln() / 2.0 - qf / 2.0 + (prior[cl] as Q).ln(); (cl, s, (10.0 + qf as f64 + (det.ln() as f64).abs()) * cond(&covs[cl]) * 1e-12) }).collect();
            if !qd.is_empty() { judge("qda-class", qd, q.predict(&Vector::new(z))); }
        }
    }
    if cnt.iter().any(|n| *n == 0) { c.ev("empty classes") }
    if cnt.iter().any(|n| *n == 1) { c.ev("single-sample classes") }
}

fn main() {
    let mut ctx = Ctx::from_args("C22");
    ctx.family("steps", 60_000, 1_200_000, |r, c| match r.below(5) { 0 => steps::<f64, 1, 2>(r, c), 1 => steps::<f64, 3, 4>(r, c), 2 => steps::<f64, 6, 7>(r, c), 3 => steps::<f32, 2, 3>(r, c), _ => steps::<f32, 4, 5>(r, c) });
    for e in ["linear epochs", "ridge epochs", "logistic epochs", "svm epochs", "line search: first trial", "line search: backtracked", "empty data"] { ctx.require(e, 300) }
    ctx.family("minimum", 1_500, 30_000, |r, c| match r.below(3) { 0 => minimum::<1, 2>(r, c), 1 => minimum::<2, 3>(r, c), _ => minimum::<4, 5>(r, c) });
    ctx.require("fits to the minimum", 500);
    ctx.family("perceptron", 20_000, 300_000, |r, c| match r.below(3) { 0 => perceptron::<1>(r, c), 1 => perceptron::<2>(r, c), _ => perceptron::<5>(r, c) });
    ctx.require("separable sets learned", 5_000);
    ctx.family("gaussian", 20_000, 300_000, |r, c| match r.below(4) { 0 => gauss::<1>(r, c), 1 => gauss::<2>(r, c), 2 => gauss::<3>(r, c), _ => gauss::<5>(r, c) });
    for e in ["naive-bayes-class", "lda-class", "qda-class", "empty classes", "single-sample classes"] { ctx.require(e, 1000) }
    ctx.finish();
}
