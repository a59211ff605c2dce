#![allow(non_snake_case)]
use aether_core::math::{Matrix, Vector};
use aether_ml::classification::lda_qda::{Lda, Qda};
use aether_ml::classification::naive_bayes::GaussianNB;
use aether_ml::classification::perceptron::Perceptron;
use aether_ml::classification::svm::LinearSvm;
use aether_ml::regression::linear::LinearRegression;
use aether_ml::regression::logistic::LogisticRegression;
use aether_ml::regression::ridge::RidgeRegression;
use aether_opt::gradient_descent::{GDStochastic, GradientDescentGeneric};
use aether_rand::randomizers::XorShift64Star;
use core::cell::Cell;
use sym::*;
use geo::sq;
const PI: f64 = core::f64::consts::PI;
const M: usize = 20;
static F: [&str; M] = ["f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7", "f8", "f9", "f10", "f11", "f12", "f13", "f14", "f15", "f16", "f17", "f18", "f19"];
static G: [&str; 8] = ["g0", "g1", "g2", "g3", "g4", "g5", "g6", "g7"];
static X: [&str; 12] = ["x0", "x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8", "x9", "x10", "x11"];
static Y: [&str; 6] = ["y0", "y1", "y2", "y3", "y4", "y5"];
/// what the optimiser asked for and was told
struct Log<const N: usize> { nf: Cell<usize>, ng: Cell<usize>, xf: Cell<[[f64; N]; M]>, xg: Cell<[[f64; N]; 8]>, f: Cell<[f64; M]>, g: Cell<[[f64; N]; 8]> }
impl<const N: usize> Log<N> {
    fn new() -> Self { Log { nf: Cell::new(0), ng: Cell::new(0), xf: Cell::new([[0.; N]; M]), xg: Cell::new([[0.; N]; 8]), f: Cell::new([0.; M]), g: Cell::new([[0.; N]; 8]) } }
    fn cost(&self, p: &Vector<f64, N>) -> f64 {
        let i = self.nf.get(); if i >= M { check(false, "evaluates the cost a bounded number of times"); return 0.; }
        let v = f(F[i], -1e3, 1e3); let mut a = self.xf.get(); let mut c = self.f.get(); for k in 0..N { a[i][k] = p[k]; } c[i] = v; self.xf.set(a); self.f.set(c); self.nf.set(i + 1); v
    }
    fn grad(&self, p: &Vector<f64, N>) -> Vector<f64, N> {
        let i = self.ng.get(); if i >= 8 / N { check(false, "evaluates the gradient a bounded number of times"); return Vector::new([0.; N]); }
        let v: [f64; N] = core::array::from_fn(|k| f(G[i * N + k], -100., 100.)); let mut a = self.xg.get(); let mut c = self.g.get(); for k in 0..N { a[i][k] = p[k]; } c[i] = v; self.xg.set(a); self.g.set(c); self.ng.set(i + 1); Vector::new(v)
    }
}
fn clamp(x: f64, b: Option<(f64, f64)>) -> f64 { match b { Some((lo, _)) if x < lo => lo, Some((_, hi)) if x > hi => hi, _ => x } }
fn ss<const N: usize>(v: [f64; N]) -> f64 { let mut s = 0.; for k in 0..N { s += v[k] * v[k]; } s }
struct Opt { lr: f64, mu: f64, tg: f64, ts: f64, iters: u32, c1: f64, tau: f64, line: bool }
/// what the documentation of the optimiser promises, replayed on the recorded values
fn descent<const N: usize>(o: &Opt, x0: [f64; N], bx: Option<(f64, f64)>) {
    let mut g = GradientDescentGeneric::<f64, N>::new(); g.backtracking(o.line).armijo(o.c1, o.tau).learning_rate(o.lr).momentum(o.mu).tolerances(o.tg, o.ts).max_iters(o.iters);
    if let Some((lo, hi)) = bx { g.set_bounds([lo; N], [hi; N]); } else if N == 2 { g.set_bounds([0.5; N], [0.6; N]).clear_bounds(); }
    let l = Log::<N>::new(); let (x, fx, it, conv) = g.minimize(Vector::new(x0), |p| l.cost(p), |p| l.grad(p));
    let (nf, ng, fv, gv, xf, xg) = (l.nf.get(), l.ng.get(), l.f.get(), l.g.get(), l.xf.get(), l.xg.get());
    let (mut cur, mut fc, mut v, mut i, mut k, mut done) = (x0, fv[0], [0.; N], 1usize, 0u32, false);
    for c in 0..N { eqs(xf[0][c], x0[c], 1e3, "the first cost is that of the start"); }
    while k < o.iters && !done {
        let n = k as usize; check(ng > n, "one gradient per iteration"); if ng <= n { return; }
        for c in 0..N { eqs(xg[n][c], cur[c], 1e4, "the gradient is taken at the current point"); }
        if ss(gv[n]).sqrt() <= o.tg { done = true; break; }
        let mut d = [0.; N]; let mut gd = 0.; for c in 0..N { d[c] = -gv[n][c] + o.mu * v[c]; gd += gv[n][c] * d[c]; }
        let mut next = cur; let mut fnext = fc;
        if o.line {
            if gd >= 0. { gd = 0.; for c in 0..N { d[c] = -gv[n][c]; gd += gv[n][c] * d[c]; } }
            let mut s = o.lr;
            loop {
                check(i < nf, "tries a step until one is accepted or negligible"); if i >= nf { return; }
                let mut t = cur; for c in 0..N { t[c] = clamp(cur[c] + s * d[c], bx); eqs(xf[i][c], t[c], 1e4, "a trial is the projected step"); }
                if fv[i] <= fc + o.c1 * s * gd { next = t; fnext = fv[i]; i += 1; break; }
                i += 1; s *= o.tau; if s <= 1e-20 { break; }
            }
            le(fnext, fc, "line search never increases the cost");
        } else {
            check(i < nf, "evaluates the cost of the step"); if i >= nf { return; }
            for c in 0..N { next[c] = clamp(cur[c] + o.lr * d[c], bx); eqs(xf[i][c], next[c], 1e4, "the step is the projected descent step"); if let Some((lo, hi)) = bx { le(lo, xf[i][c], "the step is within the bounds"); le(xf[i][c], hi, "the step is within the bounds"); } }
            fnext = fv[i]; i += 1;
        }
        for c in 0..N { v[c] = next[c] - cur[c]; } cur = next; fc = fnext; k += 1;
        if ss(v).sqrt() <= o.ts { done = true; }
    }
    check(conv == done, "convergence is reported exactly when a tolerance is met"); check(it == k, "iterations are counted"); check(nf == i, "no further cost evaluations"); check(it <= o.iters, "the iteration limit is respected");
    for c in 0..N { eqs(x[c], cur[c], 1e4, "the returned point is the last iterate"); } eqs(fx, fc, 1e3, "the returned cost is that of the returned point");
}
struct Sgd { lr: f64, decay: f64, mu: f64, batch: u32, beta: f64, bias: bool, tg: f64, ts: f64, tf: f64, min: u32, iters: u32 }
fn stochastic<const N: usize>(o: &Sgd, x0: [f64; N], bx: Option<(f64, f64)>) {
    let mut s = GDStochastic::<N>::new(77); s.learning_rate(o.lr).decay(o.decay).momentum(o.mu).batch_size(o.batch).ema(o.beta).bias_corrected_ema(o.bias).tolerances(o.tg, o.ts).tol_f(o.tf).min_iters(o.min).max_iters(o.iters);
    if let Some((lo, hi)) = bx { s.set_bounds([lo; N], [hi; N]); } else if N == 2 { s.set_bounds([0.5; N], [0.6; N]).clear_bounds(); }
    let l = Log::<N>::new(); let same = Cell::new(true); let stream = Cell::new(XorShift64Star::new(77));
    let (x, fx, it, conv) = s.minimize(Vector::new(x0), |p| l.cost(p), |p, r| { let mut q = stream.get(); if r.next_u64() != q.next_u64() { same.set(false); } stream.set(q); l.grad(p) });
    check(same.get(), "samples draw from one stream of the seed");
    let (nf, ng, fv, gv, xg) = (l.nf.get(), l.ng.get(), l.f.get(), l.g.get(), l.xg.get());
    let (mut cur, mut fc, mut v, mut ema, mut k, mut n, mut done, mut bp) = (x0, fv[0], [0.; N], 0., 0u32, 0usize, false, 1.);
    while k < o.iters && !done {
        let mut g = [0.; N];
        for _ in 0..o.batch { check(n < ng, "a batch has the configured size"); if n >= ng { return; } for c in 0..N { eqs(xg[n][c], cur[c], 1e4, "samples are taken at the current point"); g[c] += gv[n][c]; } n += 1; }
        for c in 0..N { g[c] /= o.batch as f64; }
        ema = o.beta * ema + (1. - o.beta) * ss(g).sqrt(); bp *= o.beta; let e = if o.bias { ema / (1. - bp) } else { ema };
        if k >= o.min && (e <= o.tg || fc <= o.tf) { done = true; break; }
        let a = o.lr / (1. + o.decay * k as f64); let mut t = cur;
        for c in 0..N { t[c] = clamp(cur[c] + a * (o.mu * v[c] - g[c]), bx); v[c] = t[c] - cur[c]; if let Some((lo, hi)) = bx { le(lo, t[c], "within the bounds"); le(t[c], hi, "within the bounds"); } }
        cur = t; k += 1; check((k as usize) < nf, "the cost of the new point is evaluated"); if k as usize >= nf { return; } fc = fv[k as usize];
        if k > o.min && ss(v).sqrt() <= o.ts { done = true; }
    }
    check(conv == done, "convergence is reported exactly when a criterion is met"); check(it == k, "iterations are counted"); check(ng == n, "no further samples");
    for c in 0..N { eqs(x[c], cur[c], 1e4, "the returned point is the last iterate"); } eqs(fx, fc, 1e3, "the returned cost is that of the returned point");
}
fn pts<const N: usize, const K: usize>(h: f64) -> [Vector<f64, N>; K] { core::array::from_fn(|i| Vector::new(core::array::from_fn(|j| f(X[i * N + j], -h, h)))) }
fn fixed<const N: usize>(lr: f64) -> GradientDescentGeneric<f64, N> { let mut g = GradientDescentGeneric::new(); g.backtracking(false).learning_rate(lr).tolerances(0., 0.).max_iters(1); g }
/// one try of a full step: taken exactly when the loss decreases enough
fn single<const N: usize>(c1: f64) -> GradientDescentGeneric<f64, N> { let mut g = GradientDescentGeneric::new(); g.armijo(c1, 1e-20).learning_rate(1.).tolerances(0., 0.).max_iters(1); g }
fn lin<const N: usize>(w: [f64; N], b: f64, x: &Vector<f64, N>) -> f64 { let mut s = b; for k in 0..N { s += w[k] * x[k]; } s }
/// gradient of the mean of a loss whose derivative with respect to w.x + b is given per sample
fn mean<const N: usize, const K: usize>(x: &[Vector<f64, N>; K], d: [f64; K]) -> ([f64; N], f64) { let (mut g, mut h) = ([0.; N], 0.); for i in 0..K { for k in 0..N { g[k] += d[i] * x[i][k]; } h += d[i]; } for k in 0..N { g[k] /= K as f64; } (g, h / K as f64) }
fn step<const N: usize>(w: &Vector<f64, N>, b: f64, o: ([f64; N], f64), g: ([f64; N], f64), lr: f64, n: &'static str) { for k in 0..N { eqs(w[k], o.0[k] - lr * g.0[k], 1e4, n); } eqs(b, o.1 - lr * g.1, 1e4, n); }
fn wts() -> ([f64; 2], f64) { ([f("w0", -10., 10.), f("w1", -10., 10.)], f("b", -10., 10.)) }
fn pm(n: &'static str) -> i8 { if b(n) { 1 } else { -1 } }
fn sig(s: f64) -> f64 { 1. / (1. + (-s).exp()) }
harness! {
    // ---------------------------------------------------------------- O01
    fn o01_line() { let o = Opt { lr: f("lr", 0.1, 1.), mu: 0., tg: f("tol_grad", 0., 1.), ts: f("tol_step", 0., 1.), iters: 1, c1: f("c1", 0., 0.5), tau: 1e-3, line: true }; descent::<1>(&o, [f("p", -100., 100.)], None); }
    fn o01_line_bounds() { let o = Opt { lr: f("lr", 0.1, 1.), mu: 0., tg: 0., ts: f("tol_step", 0., 1.), iters: 1, c1: f("c1", 0., 0.5), tau: 1e-7, line: true }; descent::<1>(&o, [f("p", -100., 100.)], Some((f("lo", -100., 0.), f("hi", 0., 100.)))); }
    fn o01_line_pair() { let o = Opt { lr: f("lr", 0.1, 1.), mu: 0., tg: 0., ts: f("tol_step", 0., 1.), iters: 1, c1: 1e-4, tau: 1e-11, line: true }; descent::<2>(&o, [f("p", -100., 100.), f("q", -100., 100.)], Some((f("lo", -100., 0.), f("hi", 0., 100.)))); }
    fn o01_line_momentum() { let o = Opt { lr: 1., mu: f("mu", 0., 0.9), tg: f("tol_grad", 0., 1.), ts: 1e-3, iters: 2, c1: 1e-4, tau: 1e-11, line: true }; descent::<1>(&o, [f("p", -100., 100.)], None); }
    fn o01_fixed() { let o = Opt { lr: f("lr", 0., 1.), mu: f("mu", 0., 0.9), tg: f("tol_grad", 0., 1.), ts: f("tol_step", 0., 1.), iters: 3, c1: 1e-4, tau: 0.5, line: false }; descent::<1>(&o, [f("p", -100., 100.)], None); }
    fn o01_fixed_bounds() { let o = Opt { lr: f("lr", 0., 1.), mu: f("mu", 0., 0.9), tg: 0., ts: f("tol_step", 0., 1.), iters: 2, c1: 1e-4, tau: 0.5, line: false }; descent::<1>(&o, [f("p", -100., 100.)], Some((f("lo", -100., 0.), f("hi", 0., 100.)))); }
    fn o01_fixed_pair() { let o = Opt { lr: f("lr", 0., 1.), mu: f("mu", 0., 0.9), tg: f("tol_grad", 0., 1.), ts: f("tol_step", 0., 1.), iters: 2, c1: 1e-4, tau: 0.5, line: false }; descent::<2>(&o, [f("p", -100., 100.), f("q", -100., 100.)], None); }
    fn o01_settings() {
        let (a, c, d, e, h) = (f("a", -2., 2.), f("c", -2., 2.), f("d", -2., 2.), f("e", -2., 2.), f("h", -2., 2.)); let mut g = GradientDescentGeneric::<f64, 1>::new(); g.armijo(0.1, a).learning_rate(c).momentum(d).tolerances(e, h);
        lt(0., g.backtrack_tau, "line search shrinks"); lt(g.backtrack_tau, 1., "line search shrinks"); if a > 0. && a < 1. { eq(g.backtrack_tau, a, "a valid shrink factor is kept"); } le(0., g.lr, "no negative rate"); if c >= 0. { eq(g.lr, c, "a valid rate is kept"); }
        le(0., g.momentum, "momentum in range"); lt(g.momentum, 1., "momentum in range"); if d >= 0. && d <= 0.999 { eq(g.momentum, d, "a valid momentum is kept"); } le(0., g.tol_grad, "tolerance in range"); le(0., g.tol_step, "tolerance in range"); if e >= 0. { eq(g.tol_grad, e, "a valid tolerance is kept"); } if h >= 0. { eq(g.tol_step, h, "a valid tolerance is kept"); }
    }
    fn o01_no_iterations() { let o = Opt { lr: 1., mu: 0., tg: 1., ts: 1., iters: 0, c1: 1e-4, tau: 0.5, line: b("line") }; descent::<1>(&o, [f("p", -100., 100.)], None); }
    // ---------------------------------------------------------------- O02
    fn o02_batch() { let o = Sgd { lr: f("lr", 0., 1.), decay: f("decay", 0., 2.), mu: f("mu", 0., 0.9), batch: 3, beta: f("beta", 0., 0.99), bias: b("bias"), tg: f("tol_grad", 0., 1.), ts: f("tol_step", 0., 1.), tf: f("tol_f", 0., 1.), min: 0, iters: 2 }; stochastic::<1>(&o, [f("p", -100., 100.)], None); }
    fn o02_patience() { let o = Sgd { lr: f("lr", 0., 1.), decay: f("decay", 0., 2.), mu: f("mu", 0., 0.9), batch: 1, beta: f("beta", 0., 0.99), bias: b("bias"), tg: f("tol_grad", 0., 1.), ts: f("tol_step", 0., 1.), tf: 0.5, min: u("min", 0, 3) as u32, iters: 3 }; stochastic::<1>(&o, [f("p", -100., 100.)], None); }
    fn o02_bounds() { let o = Sgd { lr: f("lr", 0., 1.), decay: f("decay", 0., 2.), mu: f("mu", 0., 0.9), batch: 1, beta: 0.9, bias: true, tg: 0., ts: f("tol_step", 0., 1.), tf: 0., min: 0, iters: 2 }; stochastic::<1>(&o, [f("p", -100., 100.)], Some((f("lo", -100., 0.), f("hi", 0., 100.)))); }
    fn o02_pair() { let o = Sgd { lr: f("lr", 0., 1.), decay: f("decay", 0., 2.), mu: f("mu", 0., 0.9), batch: 2, beta: f("beta", 0., 0.99), bias: false, tg: f("tol_grad", 0., 1.), ts: 0.01, tf: 0., min: 1, iters: 2 }; stochastic::<2>(&o, [f("p", -100., 100.), f("q", -100., 100.)], None); }
    fn o02_settings() {
        let (a, c, d, e, h, k, n) = (f("a", -2., 2.), f("c", -2., 2.), f("d", -2., 2.), f("e", -2., 2.), f("h", -2., 2.), f("k", -2., 2.), u("n", 0, 1 << 31) as u32); let mut g = GDStochastic::<1>::new(1); g.learning_rate(a).decay(c).momentum(d).ema(e).tolerances(h, k).batch_size(n).tol_f(h);
        le(0., g.lr0, "no negative rate"); if a >= 0. { eq(g.lr0, a, "a valid rate is kept"); } le(0., g.decay, "no negative decay"); if c >= 0. { eq(g.decay, c, "a valid decay is kept"); } le(0., g.momentum, "momentum in range"); lt(g.momentum, 1., "momentum in range"); if d >= 0. && d <= 0.999 { eq(g.momentum, d, "a valid momentum is kept"); }
        le(0., g.ema_beta, "average in range"); lt(g.ema_beta, 1., "average in range"); if e >= 0. && e <= 0.999 { eq(g.ema_beta, e, "a valid average is kept"); } le(0., g.tol_grad_ema, "tolerance in range"); le(0., g.tol_step, "tolerance in range"); le(0., g.tol_f, "tolerance in range"); if h >= 0. { eq(g.tol_grad_ema, h, "a valid tolerance is kept"); eq(g.tol_f, h, "a valid tolerance is kept"); } if k >= 0. { eq(g.tol_step, k, "a valid tolerance is kept"); }
        check(g.batch_size >= 1 && (n == 0 || g.batch_size == n), "a batch has at least one sample");
    }
    // ---------------------------------------------------------------- L01
    fn l01_linear() {
        let x = pts::<2, 3>(10.); let y = [f("t0", -10., 10.), f("t1", -10., 10.), f("t2", -10., 10.)]; let (o, lr) = (wts(), f("lr", 1e-3, 1.)); let e = [0, 1, 2].map(|i| 2. * (lin(o.0, o.1, &x[i]) - y[i])); let g = mean(&x, e); assume(g.1 * g.1 >= 1e-6);
        let mut r = LinearRegression { weights: Vector::new(o.0), bias: o.1, lr }; eqs(r.predict(&x[0]), lin(o.0, o.1, &x[0]), 1e3, "prediction"); r.train_epoch(&x, &y); step(&r.weights, r.bias, o, g, lr, "an epoch follows the gradient");
        let mut r = LinearRegression { weights: Vector::new(o.0), bias: o.1, lr: 5. }; r.fit_with_optimizer::<3>(&x, &y, fixed(lr)); step(&r.weights, r.bias, o, g, lr, "the optimiser follows the gradient");
        let mut r = LinearRegression { weights: Vector::new(o.0), bias: o.1, lr }; r.train_epoch(&[], &[]); r.fit_with_optimizer::<3>(&[], &[], fixed(lr)); step(&r.weights, r.bias, o, g, 0., "no data, no change");
    }
    fn l01_ridge() {
        let x = pts::<2, 3>(10.); let y = [f("t0", -10., 10.), f("t1", -10., 10.), f("t2", -10., 10.)]; let (o, lr, al) = (wts(), f("lr", 1e-3, 1.), f("alpha", 0., 10.)); let e = [0, 1, 2].map(|i| 2. * (lin(o.0, o.1, &x[i]) - y[i])); let mut g = mean(&x, e); assume(g.1 * g.1 >= 1e-6); for k in 0..2 { g.0[k] += 2. * al * o.0[k]; }
        let mut r = RidgeRegression { weights: Vector::new(o.0), bias: o.1, lr, alpha: al }; eqs(r.predict(&x[0]), lin(o.0, o.1, &x[0]), 1e3, "prediction"); r.train_epoch(&x, &y); step(&r.weights, r.bias, o, g, lr, "an epoch follows the gradient");
        let mut r = RidgeRegression { weights: Vector::new(o.0), bias: o.1, lr: 5., alpha: al }; r.fit_with_optimizer::<3>(&x, &y, fixed(lr)); step(&r.weights, r.bias, o, g, lr, "the optimiser follows the gradient");
        let mut r = RidgeRegression { weights: Vector::new(o.0), bias: o.1, lr, alpha: al }; r.train_epoch(&[], &[]); r.fit_with_optimizer::<3>(&[], &[], fixed(lr)); step(&r.weights, r.bias, o, g, 0., "no data, no change");
    }
    fn l01_logistic() {
        let x = pts::<2, 3>(10.); let y = [b("t0") as u8, b("t1") as u8 * 3, 1]; let (o, lr) = (wts(), f("lr", 1e-3, 1.)); let e = [0, 1, 2].map(|i| sig(lin(o.0, o.1, &x[i])) - if y[i] == 0 { 0. } else { 1. }); let g = mean(&x, e);
        let mut r = LogisticRegression { weights: Vector::new(o.0), bias: o.1, lr }; r.train_epoch(&x, &y); step(&r.weights, r.bias, o, g, lr, "an epoch follows the gradient");
        assume(g.1 * g.1 >= 1e-6); let mut r = LogisticRegression { weights: Vector::new(o.0), bias: o.1, lr: 5. }; r.fit_with_optimizer::<3>(&x, &y, fixed(lr)); step(&r.weights, r.bias, o, g, lr, "the optimiser follows the gradient");
        let mut r = LogisticRegression { weights: Vector::new(o.0), bias: o.1, lr }; r.train_epoch(&[], &[]); r.fit_with_optimizer::<3>(&[], &[], fixed(lr)); step(&r.weights, r.bias, o, g, 0., "no data, no change");
    }
    fn l01_logistic_predict() {
        let (o, x) = (wts(), pts::<2, 1>(10.)); let r = LogisticRegression { weights: Vector::new(o.0), bias: o.1, lr: 1. }; let s = lin(o.0, o.1, &x[0]); let p = r.predict_probability(&x[0]); eq(p * (1. + (-s).exp()), 1., "logistic probability"); lt(0., p, "a probability"); lt(p, 1., "a probability");
        let c = r.predict(&x[0]); check(c <= 1, "a label"); if c == 1 { le(0., s, "label one on the positive side"); } else { le(s, 0., "label zero on the negative side"); }
    }
    fn l01_perceptron() {
        let x = pts::<2, 2>(10.); let y = [pm("t0"), pm("t1")]; let (o, lr) = (wts(), f("lr", 1e-3, 1.)); let mut r = Perceptron { weights: Vector::new(o.0), bias: o.1, lr };
        eqs(r.predict_raw(&x[0]), lin(o.0, o.1, &x[0]), 1e3, "prediction"); check(r.predict(&x[0]) == if lin(o.0, o.1, &x[0]) >= 0. { 1 } else { -1 }, "predicted side"); r.train_epoch(&x, &y);
        let mut w = o; for i in 0..2 { let t = y[i] as f64; if t * lin(w.0, w.1, &x[i]) <= 0. { for k in 0..2 { w.0[k] += lr * t * x[i][k]; } w.1 += lr * t; } } step(&r.weights, r.bias, w, w, 0., "an epoch corrects each mistake");
    }
    fn l01_perceptron_fit() {
        let x = pts::<2, 3>(10.); let y = [pm("t0"), pm("t1"), 1]; let (o, lr) = (wts(), f("lr", 1e-3, 1.)); let e = [0, 1, 2].map(|i| { let t = y[i] as f64; if t * lin(o.0, o.1, &x[i]) < 0. { -t } else { 0. } }); let g = mean(&x, e); assume(g.1 * g.1 >= 1e-6);
        let mut r = Perceptron { weights: Vector::new(o.0), bias: o.1, lr: 5. }; r.fit_with_optimizer::<3>(&x, &y, fixed(lr)); step(&r.weights, r.bias, o, g, lr, "the optimiser follows the gradient");
        let mut r = Perceptron { weights: Vector::new(o.0), bias: o.1, lr }; r.train_epoch(&[], &[]); r.fit_with_optimizer::<3>(&[], &[], fixed(lr)); step(&r.weights, r.bias, o, g, 0., "no data, no change");
    }
    fn l01_svm() {
        let x = pts::<2, 3>(10.); let y = [i("t0", -2, 2) as i8, 1, -1]; let (o, lr, c) = (wts(), f("lr", 1e-3, 1.), f("c", 0.1, 10.)); let e = [0, 1, 2].map(|i| { let t = if y[i] < 0 { -1. } else { 1. }; if t * lin(o.0, o.1, &x[i]) < 1. { -t } else { 0. } }); let g = mean(&x, e);
        let mut r = LinearSvm { weights: Vector::new(o.0), bias: o.1, lr, c }; eqs(r.decision(&x[0]), lin(o.0, o.1, &x[0]), 1e3, "decision"); let mut h = g; for k in 0..2 { h.0[k] += 2. * o.0[k] / (3. * c); } r.train_epoch(&x, &y); step(&r.weights, r.bias, o, h, lr, "an epoch follows the gradient");
        let mut h = g; for k in 0..2 { h.0[k] += o.0[k] / c; } assume(h.1 * h.1 >= 1e-6); let mut r = LinearSvm { weights: Vector::new(o.0), bias: o.1, lr: 5., c }; r.fit_with_optimizer::<3>(&x, &y, fixed(lr)); step(&r.weights, r.bias, o, h, lr, "the optimiser follows the gradient");
        let mut r = LinearSvm { weights: Vector::new(o.0), bias: o.1, lr, c }; r.train_epoch(&[], &[]); r.fit_with_optimizer::<3>(&[], &[], fixed(lr)); step(&r.weights, r.bias, o, g, 0., "no data, no change");
    }
    // the loss handed to the optimiser: a full step is taken exactly when it decreases enough
    fn l01_loss_linear() {
        let x = pts::<1, 2>(3.); let y = [f("t0", -3., 3.), f("t1", -3., 3.)]; let (w, c, k) = (f("w", -3., 3.), f("b", -3., 3.), f("c1", 0., 0.5)); let al = f("alpha", 0., 3.); let ridge = b("ridge"); let al = if ridge { al } else { 0. };
        let L = |w: f64, c: f64| { let mut s = 0.; for i in 0..2 { s += sq(w * x[i][0] + c - y[i]); } s / 2. + al * w * w }; let mut g = mean(&x, [0, 1].map(|i| 2. * (w * x[i][0] + c - y[i]))); g.0[0] += 2. * al * w; assume(g.1 * g.1 >= 1e-6);
        let (nw, nc) = if ridge { let mut r = RidgeRegression { weights: Vector::new([w]), bias: c, lr: 5., alpha: al }; r.fit_with_optimizer::<2>(&x, &y, single(k)); (r.weights[0], r.bias) } else { let mut r = LinearRegression { weights: Vector::new([w]), bias: c, lr: 5. }; r.fit_with_optimizer::<2>(&x, &y, single(k)); (r.weights[0], r.bias) };
        let t = L(w - g.0[0], c - g.1) <= L(w, c) - k * (sq(g.0[0]) + sq(g.1)); if t { eqs(nw, w - g.0[0], 1e3, "a good step is taken"); eqs(nc, c - g.1, 1e3, "a good step is taken"); } else { eqs(nw, w, 1e3, "a bad step is not taken"); eqs(nc, c, 1e3, "a bad step is not taken"); }
    }
    fn l01_loss_hinge() {
        let x = pts::<1, 2>(3.); let y = [pm("t0"), 1]; let (w, c, k) = (f("w", -3., 3.), f("b", -3., 3.), f("c1", 0., 0.5)); let C = f("c", 0.1, 10.); let svm = b("svm"); let m = if svm { 1. } else { 0. };
        let L = |w: f64, c: f64| { let mut s = 0.; for i in 0..2 { let q = m - y[i] as f64 * (w * x[i][0] + c); if q > 0. { s += q; } } s / 2. + m * w * w / (2. * C) }; let mut g = mean(&x, [0, 1].map(|i| { let t = y[i] as f64; if t * (w * x[i][0] + c) < m { -t } else { 0. } })); g.0[0] += m * w / C; assume(g.1 * g.1 >= 1e-6);
        let (nw, nc) = if svm { let mut r = LinearSvm { weights: Vector::new([w]), bias: c, lr: 5., c: C }; r.fit_with_optimizer::<2>(&x, &y, single(k)); (r.weights[0], r.bias) } else { let mut r = Perceptron { weights: Vector::new([w]), bias: c, lr: 5. }; r.fit_with_optimizer::<2>(&x, &y, single(k)); (r.weights[0], r.bias) };
        let t = L(w - g.0[0], c - g.1) <= L(w, c) - k * (sq(g.0[0]) + sq(g.1)); if t { eqs(nw, w - g.0[0], 1e3, "a good step is taken"); eqs(nc, c - g.1, 1e3, "a good step is taken"); } else { eqs(nw, w, 1e3, "a bad step is not taken"); eqs(nc, c, 1e3, "a bad step is not taken"); }
    }
    fn l01_loss_logistic() {
        let x = pts::<1, 1>(3.); let y = [b("t0") as u8]; let (w, c, k) = (f("w", -3., 3.), f("b", -3., 3.), f("c1", 0., 0.5));
        let L = |w: f64, c: f64| { let p = sig(c + w * x[0][0]); -((if y[0] == 1 { p } else { 1. - p }) + f64::EPSILON).ln() }; let g = mean(&x, [sig(c + w * x[0][0]) - y[0] as f64]); assume(g.1 * g.1 >= 1e-6);
        let mut r = LogisticRegression { weights: Vector::new([w]), bias: c, lr: 5. }; r.fit_with_optimizer::<2>(&x, &y, single(k)); let (nw, nc) = (r.weights[0], r.bias);
        let t = L(w - g.0[0], c - g.1) <= L(w, c) - k * (sq(g.0[0]) + sq(g.1)); if t { eqs(nw, w - g.0[0], 1e3, "a good step is taken"); eqs(nc, c - g.1, 1e3, "a good step is taken"); } else { eqs(nw, w, 1e3, "a bad step is not taken"); eqs(nc, c, 1e3, "a bad step is not taken"); }
    }
    // ---------------------------------------------------------------- L02
    fn l02_lda_fit() {
        let x = pts::<2, 5>(10.); let l = [0usize, 1, 0, 1, 1]; let m = Lda::fit(&x, &l, 3); eq(m.priors[0], 0.4, "prior is the class share"); eq(m.priors[1], 0.6, "prior is the class share"); eq(m.priors[2], 0., "an empty class has no prior"); let mut s = [[0.; 2]; 2];
        for (c, i) in [(0, [0, 2, 0]), (1, [1, 3, 4])] { let n = if c == 0 { 2 } else { 3 }; let mut u = [0.; 2]; for k in 0..n { for j in 0..2 { u[j] += x[i[k]][j] / n as f64; } } for j in 0..2 { eqs(m.means[c][j], u[j], 10., "class mean"); } for k in 0..n { for a in 0..2 { for e in 0..2 { s[a][e] += (x[i[k]][a] - u[a]) * (x[i[k]][e] - u[e]) / (n as f64 - 1.) * (n as f64 / 5.); } } } }
        for a in 0..2 { for e in 0..2 { eqs(m.pooled_cov.data[a][e], s[a][e], 1e3, "pooled covariance is the prior-weighted class covariance"); } } check(m.means.len() == 3 && m.priors.len() == 3, "one entry per class");
    }
    fn l02_qda_fit() {
        let x = pts::<2, 5>(10.); let l = [0usize, 2, 0, 2, 2]; let m = Qda::fit(&x, &l, 3); eq(m.priors[0], 0.4, "prior is the class share"); eq(m.priors[2], 0.6, "prior is the class share"); eq(m.priors[1], 0., "an empty class has no prior");
        for (c, i) in [(0, [0, 2, 0]), (2, [1, 3, 4])] { let n = if c == 0 { 2 } else { 3 }; let mut u = [0.; 2]; for k in 0..n { for j in 0..2 { u[j] += x[i[k]][j] / n as f64; } } let mut s = [[0.; 2]; 2]; for j in 0..2 { eqs(m.means[c][j], u[j], 10., "class mean"); } for k in 0..n { for a in 0..2 { for e in 0..2 { s[a][e] += (x[i[k]][a] - u[a]) * (x[i[k]][e] - u[e]) / (n as f64 - 1.); } } } for a in 0..2 { for e in 0..2 { eqs(m.covs[c].data[a][e], s[a][e], 1e3, "class covariance"); } } }
        check(m.means.len() == 3 && m.priors.len() == 3 && m.covs.len() == 3, "one entry per class");
    }
    fn l02_bayes_fit() {
        let x = pts::<2, 5>(10.); let l = [0usize, 2, 0, 2, 2]; let m = GaussianNB::fit(&x, &l, 3); check(m.class_count[0] == 2 && m.class_count[1] == 0 && m.class_count[2] == 3, "class counts"); eq(m.class_prior[0], 0.4, "prior is the class share"); eq(m.class_prior[2], 0.6, "prior is the class share"); eq(m.class_prior[1], 0., "an empty class has no prior");
        for (c, i) in [(0, [0, 2, 0]), (2, [1, 3, 4])] { let n = if c == 0 { 2 } else { 3 }; for j in 0..2 { let mut u = 0.; for k in 0..n { u += x[i[k]][j] / n as f64; } eqs(m.class_mean[c][j], u, 10., "class mean"); let mut s = 0.; for k in 0..n { s += sq(x[i[k]][j] - u) / n as f64; } eqs(m.class_var[c][j], s, 1e3, "class variance"); } }
    }
    fn l02_lda_one() {
        let (v, q) = (f("v", 0.1, 10.), f("q", -10., 10.)); let mu = [f("m0", -10., 10.), f("m1", -10., 10.), f("m2", -10., 10.)]; let p = [f("p0", 0.01, 1.), f("p1", 0.01, 1.), f("p2", 0.01, 1.)];
        let m = Lda { means: vec![Vector::new([mu[0]]), Vector::new([mu[1]]), Vector::new([mu[2]])], priors: vec![p[0], p[1], p[2]], pooled_cov: Matrix::new([[v]]) }; let c = m.predict(&Vector::new([q])); check(c < 3, "a class"); if c < 3 { let s = |i: usize| p[i].ln() - sq(q - mu[i]) / (2. * v); for i in 0..3 { le(s(i), s(c), "the predicted class has the highest score"); } }
    }
    fn l02_lda_two() {
        let (a, d, e) = (f("a", 1., 10.), f("d", 1., 10.), f("e", -0.9, 0.9)); let q = [f("q0", -10., 10.), f("q1", -10., 10.)]; let mu = [[f("m0", -10., 10.), f("m1", -10., 10.)], [f("n0", -10., 10.), f("n1", -10., 10.)]]; let p = [f("p0", 0.01, 1.), f("p1", 0.01, 1.)];
        let m = Lda { means: vec![Vector::new(mu[0]), Vector::new(mu[1])], priors: vec![p[0], p[1]], pooled_cov: Matrix::new([[a, e], [e, d]]) }; let c = m.predict(&Vector::new(q)); check(c < 2, "a class"); if c < 2 { let s = |i: usize| { let (u, v) = (q[0] - mu[i][0], q[1] - mu[i][1]); 2. * (a * d - e * e) * p[i].ln() - (d * u * u - 2. * e * u * v + a * v * v) }; le(s(1 - c), s(c), "the predicted class has the highest score"); }
    }
    fn l02_qda_one() {
        let q = f("q", -10., 10.); let (v, mu, p) = ([f("v0", 0.1, 10.), f("v1", 0.1, 10.)], [f("m0", -10., 10.), f("m1", -10., 10.)], [f("p0", 0.01, 1.), f("p1", 0.01, 1.)]);
        let m = Qda { means: vec![Vector::new([mu[0]]), Vector::new([mu[1]])], priors: vec![p[0], p[1]], covs: vec![Matrix::new([[v[0]]]), Matrix::new([[v[1]]])] }; let c = m.predict(&Vector::new([q])); check(c < 2, "a class"); if c < 2 { let s = |i: usize| p[i].ln() - v[i].ln() / 2. - sq(q - mu[i]) / (2. * v[i]); le(s(1 - c), s(c), "the predicted class has the highest score"); }
    }
    fn l02_qda_two() {
        let q = [f("q0", -10., 10.), f("q1", -10., 10.)]; let mu = [[f("m0", -10., 10.), f("m1", -10., 10.)], [f("n0", -10., 10.), f("n1", -10., 10.)]]; let p = [f("p0", 0.01, 1.), f("p1", 0.01, 1.)]; let v = [[f("a", 1., 10.), f("d", 1., 10.)], [f("h", 1., 10.), f("k", 1., 10.)]];
        let m = Qda { means: vec![Vector::new(mu[0]), Vector::new(mu[1])], priors: vec![p[0], p[1]], covs: vec![Matrix::new([[v[0][0], 0.], [0., v[0][1]]]), Matrix::new([[v[1][0], 0.], [0., v[1][1]]])] }; let c = m.predict(&Vector::new(q)); check(c < 2, "a class"); if c < 2 { let s = |i: usize| p[i].ln() - (v[i][0] * v[i][1]).ln() / 2. - sq(q[0] - mu[i][0]) / (2. * v[i][0]) - sq(q[1] - mu[i][1]) / (2. * v[i][1]); le(s(1 - c), s(c), "the predicted class has the highest score"); }
    }
    fn l02_bayes() {
        let q = [f("q0", -10., 10.), f("q1", -10., 10.)]; let mu = [[f("m0", -10., 10.), f("m1", -10., 10.)], [f("n0", -10., 10.), f("n1", -10., 10.)]]; let p = [f("p0", 0.01, 1.), f("p1", 0.01, 1.)]; let v = [[f("a", 0.1, 10.), f("d", 0.1, 10.)], [f("h", 0.1, 10.), f("k", 0.1, 10.)]]; let e = b("empty"); let z = Vector::new([0.; 2]);
        let m = if e { GaussianNB { class_count: vec![3, 0, 4], class_prior: vec![p[0], 0., p[1]], class_mean: vec![Vector::new(mu[0]), z, Vector::new(mu[1])], class_var: vec![Vector::new(v[0]), z, Vector::new(v[1])] } } else { GaussianNB { class_count: vec![3, 4], class_prior: vec![p[0], p[1]], class_mean: vec![Vector::new(mu[0]), Vector::new(mu[1])], class_var: vec![Vector::new(v[0]), Vector::new(v[1])] } };
        let c = m.predict(&Vector::new(q)); let c = if e { check(c != 1, "an empty class is never predicted"); if c == 2 { 1 } else { c } } else { c }; check(c < 2, "a class");
        if c < 2 { let s = |i: usize| { let mut s = p[i].ln(); for j in 0..2 { s -= 0.5 * ((2. * PI * v[i][j]).ln() + sq(q[j] - mu[i][j]) / v[i][j]); } s }; le(s(1 - c), s(c), "the predicted class has the highest score"); }
    }
}
