use aether_core::math::Vector;
use aether_opt::gradient_descent::GDStochasticParallel;
use aether_rand::randomizers::XorShift64Star;
use core::cell::Cell;
use geo::sq;
use sym::*;
static S: [&str; 16] = ["sched0", "sched1", "sched2", "sched3", "sched4", "sched5", "sched6", "sched7", "sched8", "sched9", "sched10", "sched11", "sched12", "sched13", "sched14", "sched15"];
static G: [&str; 12] = ["g0", "g1", "g2", "g3", "g4", "g5", "g6", "g7", "g8", "g9", "g10", "g11"];
static C: [&str; 6] = ["f0", "f1", "f2", "f3", "f4", "f5"];
/// order of the workers: chosen by inputs, or every worker in turn when joined
struct Sched { free: Cell<bool>, n: Cell<usize> }
unsafe impl Sync for Sched {}
static SCHED: Sched = Sched { free: Cell::new(false), n: Cell::new(0) };
#[no_mangle]
fn aether_verif_choose(n: usize) -> usize {
    if n <= 1 || !SCHED.free.get() { return 0; }
    let k = SCHED.n.get(); if k >= 16 { return 0; } SCHED.n.set(k + 1);
    let v = u(S[k], 0, n as u64 - 1); let mut j = 0; while j + 1 < n { if v == j as u64 { return j; } j += 1; } j
}
const M: usize = 12;
/// a gradient that is an arbitrary function of the worker's random stream (and counts its calls)
struct Noise<const N: usize> { n: Cell<usize>, key: Cell<[u64; M]>, val: Cell<[[f64; N]; M]>, calls: Cell<usize>, x: Cell<[[f64; N]; M]>, k: Cell<[usize; M]> }
unsafe impl<const N: usize> Sync for Noise<N> {}
impl<const N: usize> Noise<N> {
    fn new() -> Self { Noise { n: Cell::new(0), key: Cell::new([0; M]), val: Cell::new([[0.; N]; M]), calls: Cell::new(0), x: Cell::new([[0.; N]; M]), k: Cell::new([0; M]) } }
    fn clear(&self) { self.calls.set(0); }
    fn at(&self, x: &Vector<f64, N>, r: &mut XorShift64Star, bits: bool) -> Vector<f64, N> {
        let q = r.next_u64(); let n = self.n.get(); let mut key = self.key.get(); let mut val = self.val.get(); let mut i = 0; while i < n && key[i] != q { i += 1; }
        if i == M { check(false, "no more samples than configured"); return Vector::new([0.; N]); }
        if i == n { key[n] = q; val[n] = core::array::from_fn(|c| if bits { f64::from_bits(u(G[n * N + c], 0, u64::MAX)) } else { f(G[n * N + c], -100., 100.) }); self.key.set(key); self.val.set(val); self.n.set(n + 1); }
        let c = self.calls.get(); if c < M { let mut a = self.x.get(); for d in 0..N { a[c][d] = x[d]; } self.x.set(a); let mut a = self.k.get(); a[c] = i; self.k.set(a); } self.calls.set(c + 1);
        Vector::new(val[i])
    }
}
/// whatever the schedule, one run ends in the same bits
fn schedule(threads: usize, batch: u32, iters: u32) {
    let p = f64::from_bits(u("p", 0, u64::MAX)); let mut g = GDStochasticParallel::<f64, 1>::new(7);
    g.learning_rate(0.5).decay(0.25).momentum(0.5).batch_size(batch).threads(threads).min_iters(9).max_iters(iters).tolerances(0., 0.);
    let l = Noise::<1>::new();
    SCHED.free.set(false); let a = g.minimize(Vector::new([p]), |x| x[0], |x, r| l.at(x, r, true)); let na = l.calls.get(); l.clear();
    SCHED.free.set(true); let b = g.minimize(Vector::new([p]), |x| x[0], |x, r| l.at(x, r, true)); SCHED.free.set(false);
    check(na == (batch * iters) as usize && l.calls.get() == na, "every sample of the batch is drawn exactly once");
    let same = |x: f64, y: f64| (x == y) | ((x != x) & (y != y));
    check(same(a.0[0], b.0[0]), "the point does not depend on the schedule"); check(same(a.1, b.1), "the cost does not depend on the schedule"); check(a.2 == b.2 && a.3 == b.3, "the report does not depend on the schedule");
}
struct Sgd { lr: f64, decay: f64, mu: f64, batch: u32, threads: usize, beta: f64, tg: f64, ts: f64, tf: f64, min: u32, iters: u32 }
fn clamp(x: f64, b: Option<(f64, f64)>) -> f64 { match b { Some((lo, _)) if x < lo => lo, Some((_, hi)) if x > hi => hi, _ => x } }
fn ss<const N: usize>(v: [f64; N]) -> f64 { let mut s = 0.; for k in 0..N { s += v[k] * v[k]; } s }
/// the sequential algorithm, replayed on the recorded samples
fn parallel<const N: usize>(o: &Sgd, x0: [f64; N], bx: Option<(f64, f64)>) {
    let mut s = GDStochasticParallel::<f64, N>::new(77); s.learning_rate(o.lr).decay(o.decay).momentum(o.mu).batch_size(o.batch).threads(o.threads).ema(o.beta).tolerances(o.tg, o.ts).tol_f(o.tf).min_iters(o.min).max_iters(o.iters);
    if let Some((lo, hi)) = bx { s.set_bounds([lo; N], [hi; N]); } else if N == 2 { s.set_bounds([0.5; N], [0.6; N]).clear_bounds(); }
    let l = Noise::<N>::new(); let fv: Cell<[f64; 6]> = Cell::new([0.; 6]); let nf = Cell::new(0usize); struct W<T>(T); unsafe impl<T> Sync for W<T> {} let w = W((&fv, &nf));
    let (x, fx, it, conv) = s.minimize(Vector::new(x0), |_| { let w = &w; let i = w.0.1.get(); if i >= 6 { check(false, "bounded cost evaluations"); return 0.; } let v = f(C[i], -1e3, 1e3); let mut a = w.0.0.get(); a[i] = v; w.0.0.set(a); w.0.1.set(i + 1); v }, |p, r| l.at(p, r, false));
    let (nf, ng, fv, gv, ks, xg) = (nf.get(), l.calls.get(), fv.get(), l.val.get(), l.k.get(), l.x.get());
    let (mut cur, mut fc, mut v, mut ema, mut k, mut n, mut done, mut bp) = (x0, fv[0], [0.; N], 0., 0u32, 0usize, false, 1.);
    while k < o.iters && !done {
        let mut g = [0.; N];
        for _ in 0..o.batch { check(n < ng, "a batch has the configured size"); if n >= ng { return; } for c in 0..N { eqs(xg[n][c], cur[c], 1e4, "samples are taken at the current point"); g[c] += gv[ks[n]][c]; } n += 1; }
        check(l.n.get() >= n, "every worker and iteration draws from its own stream");
        for c in 0..N { g[c] /= o.batch as f64; }
        ema = o.beta * ema + (1. - o.beta) * ss(g).sqrt(); bp *= o.beta; let e = ema / (1. - bp);
        if k >= o.min && (e <= o.tg || (o.tf > 0. && fc <= o.tf)) { done = true; break; }
        let a = o.lr / (1. + o.decay * k as f64); let mut t = cur;
        for c in 0..N { t[c] = clamp(cur[c] + a * (o.mu * v[c] - g[c]), bx); v[c] = t[c] - cur[c]; if let Some((lo, hi)) = bx { le(lo, t[c], "within the bounds"); le(t[c], hi, "within the bounds"); } }
        cur = t; k += 1; check((k as usize) < nf, "the cost of the new point is evaluated"); if k as usize >= nf { return; } fc = fv[k as usize];
        if k > o.min && ss(v).sqrt() <= o.ts { done = true; }
    }
    check(conv == done, "convergence is reported exactly when a criterion is met"); check(it == k, "iterations are counted"); check(ng == n, "no further samples");
    for c in 0..N { eqs(x[c], cur[c], 1e4, "the returned point is the last iterate"); } eqs(fx, fc, 1e3, "the returned cost is that of the returned point");
}
harness! {
    fn o03_schedule_2x2() { schedule(2, 2, 1); }
    fn o03_schedule_2x3() { schedule(2, 3, 2); }
    fn o03_schedule_3x3() { schedule(3, 3, 1); }
    fn o03_schedule_3x5() { schedule(3, 5, 1); }
    fn o03_schedule_4x4_thorough() { schedule(4, 4, 1); }
    fn o03_schedule_spare() { schedule(5, 2, 2); }
    fn o03_schedule_one() { schedule(1, 3, 2); }
    fn o03_batch() { parallel::<1>(&Sgd { lr: f("lr", 0., 1.), decay: f("decay", 0., 2.), mu: f("mu", 0., 0.9), batch: 3, threads: 2, beta: f("beta", 0., 0.99), tg: f("tol_grad", 0., 1.), ts: f("tol_step", 0., 1.), tf: f("tol_f", 0., 1.), min: 0, iters: 2 }, [f("p", -100., 100.)], None); }
    fn o03_patience() { parallel::<1>(&Sgd { lr: f("lr", 0., 1.), decay: f("decay", 0., 2.), mu: f("mu", 0., 0.9), batch: 2, threads: 2, beta: f("beta", 0., 0.99), tg: f("tol_grad", 0., 1.), ts: f("tol_step", 0., 1.), tf: 0.5, min: u("min", 0, 3) as u32, iters: 2 }, [f("p", -100., 100.)], None); }
    fn o03_bounds() { let (lo, w) = (f("lo", -50., 50.), f("width", 0., 50.)); parallel::<1>(&Sgd { lr: f("lr", 0., 1.), decay: f("decay", 0., 2.), mu: f("mu", 0., 0.9), batch: 2, threads: 3, beta: 0.9, tg: 0., ts: f("tol_step", 0., 1.), tf: 0., min: 0, iters: 2 }, [f("p", -100., 100.)], Some((lo, lo + w))); }
    fn o03_pair() { parallel::<2>(&Sgd { lr: f("lr", 0., 1.), decay: f("decay", 0., 2.), mu: f("mu", 0., 0.9), batch: 3, threads: 3, beta: f("beta", 0., 0.99), tg: f("tol_grad", 0., 1.), ts: 0.01, tf: 0., min: 1, iters: 2 }, [f("p", -100., 100.), f("q", -100., 100.)], None); }
    fn o03_settings() {
        let (a, c, d, e, h, k, n) = (f("a", -2., 2.), f("c", -2., 2.), f("d", -2., 2.), f("e", -2., 2.), f("h", -2., 2.), f("k", -2., 2.), u("n", 0, 1 << 31) as u32); let mut g = GDStochasticParallel::<f64, 1>::new(1); g.learning_rate(a).decay(c).momentum(d).ema(e).tolerances(h, k).tol_f(h).batch_size(n);
        le(0., g.lr0, "no negative rate"); if a >= 0. { eq(g.lr0, a, "a valid rate is kept"); } le(0., g.decay, "no negative decay"); if c >= 0. { eq(g.decay, c, "a valid decay is kept"); }
        le(0., g.momentum, "momentum in range"); le(g.momentum, 1., "momentum in range"); if d >= 0. && d <= 1. { eq(g.momentum, d, "a valid momentum is kept"); }
        le(0., g.ema_beta, "average in range"); le(g.ema_beta, 1., "average in range"); if e >= 0. && e <= 1. { eq(g.ema_beta, e, "a valid average is kept"); }
        le(0., g.tol_grad_ema, "tolerance in range"); le(0., g.tol_step, "tolerance in range"); if h >= 0. { eq(g.tol_grad_ema, h, "a valid tolerance is kept"); eq(g.tol_f, h, "a valid cost tolerance is kept"); } if k >= 0. { eq(g.tol_step, k, "a valid step tolerance is kept"); }
        check(g.batch_size >= 1 && (n == 0 || g.batch_size == n), "a batch has at least one sample"); le(sq(g.tol_f), 4., "cost tolerance in range");
    }
}
