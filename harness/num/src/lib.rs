use aether_core::attitude::Euler;
use aether_core::coordinate::Cartesian;
use aether_core::math::Vector;
use aether_core::numerical_methods::integration::*;
use aether_core::numerical_methods::solvers::NewtonRaphson;
use aether_core::reference_frame::{ICRF, ITRF};
use aether_interp::*;
use core::cell::Cell;
use sym::*;
use geo::sq;
type Ca = Cartesian<f64, ICRF<f64>>;
type Eu = Euler<f64, ICRF<f64>, ITRF<f64>>;
static F: [&str; 6] = ["f0", "f1", "f2", "f3", "f4", "f5"];
static D: [&str; 6] = ["d0", "d1", "d2", "d3", "d4", "d5"];
static X: [&str; 6] = ["x0", "x1", "x2", "x3", "x4", "x5"];
static Y: [&str; 6] = ["y0", "y1", "y2", "y3", "y4", "y5"];
static C: [&str; 6] = ["c0", "c1", "c2", "c3", "c4", "c5"];
/// Newton's method against a function whose values and derivatives are arbitrary at every call.
fn newton(max: usize) {
    let tol = f("tol", 1e-12, 1.); let g = real("guess");
    let (nf, nd) = (Cell::new(0usize), Cell::new(0usize)); let (lf, ld, at, atd) = (Cell::new(0.), Cell::new(1.), Cell::new(g), Cell::new(g));
    let fun = |x: f64| { let k = nf.get(); nf.set(k + 1); check(k < max, "no more iterations than allowed");
        if k > 0 { eqs(x, at.get() - lf.get() / ld.get(), 1e3, "each step is x - f/f'"); le(tol, (x - at.get()).abs(), "continues only while steps are not below the tolerance"); } else { eq(x, g, "starts at the guess"); }
        at.set(x); let v = f(F[k], -1e3, 1e3); lf.set(v); v };
    let der = |x: f64| { let k = nd.get(); nd.set(k + 1); check(k < max, "no more derivative evaluations than allowed");
        atd.set(x); let z = b(if k == 0 { "z0" } else if k == 1 { "z1" } else if k == 2 { "z2" } else { "z3" }); let s = if b(X[k]) { -1. } else { 1. }; let v = if z { 0. } else { s * f(D[k], 0.01, 1e3) }; ld.set(v); v };
    match NewtonRaphson::new(tol, max).solve(g, fun, der) {
        Ok(x) => { reach("ok"); check(nf.get() >= 1, "success needs an iteration"); check(ld.get() != 0., "success needs a derivative"); eqs(x, at.get() - lf.get() / ld.get(), 1e3, "the returned point is the last step"); lt((x - at.get()).abs(), tol, "the last step is below the tolerance"); eq(atd.get(), at.get(), "derivative taken at the same point"); }
        Err(_) => { reach("err"); if nd.get() > 0 && ld.get() == 0. { return; } check(nf.get() == max, "failure only after the allowed iterations");
            if max > 0 { le(tol, (lf.get() / ld.get()).abs(), "failure only without convergence"); } }
    }
}
fn nodes<const N: usize>() -> [f64; N] { let mut x = [0.; N]; x[0] = f("x0", -10., 10.); for i in 1..N { x[i] = x[i - 1] + f(X[i], 0.1, 10.); } x }
fn vals<const N: usize>() -> [f64; N] { let mut x = [0.; N]; for i in 0..N { x[i] = f(Y[i], -100., 100.); } x }
fn horner<const N: usize>(c: &[f64; N], x: f64) -> f64 { let mut r = 0.; for i in (0..N).rev() { r = r * x + c[i]; } r }
/// nodes in an order chosen by the solver
fn poly<const N: usize>(rev: bool) {
    let mut x = nodes::<N>(); if rev { x.reverse(); }
    let mut c = [0.; N]; for i in 0..N { c[i] = f(C[i], -10., 10.); }
    let mut y = [0.; N]; for i in 0..N { y[i] = horner(&c, x[i]); }
    let p = PolynomialInterpolator::new(Vector::new(x), Vector::new(y)); check(p.is_ok(), "distinct nodes are accepted");
    if let Ok(p) = p {
        let t = f("t", -60., 60.); for i in 0..N { assume((t - x[i]).abs() >= 0.01); }
        eqs(p.evaluate(t), horner(&c, t), 1e12, "reproduces the polynomial"); ieq(p.degree() as i64, N as i64 - 1, "degree");
    }
}
fn poly_nodes<const N: usize>() {
    let x = nodes::<N>(); let y = vals::<N>();
    if let Ok(p) = PolynomialInterpolator::new(Vector::new(x), Vector::new(y)) { for i in 0..N { eq(p.evaluate(x[i]), y[i], "passes through the node"); } }
    else { check(false, "distinct nodes are accepted") }
}
fn spline_nodes<const N: usize>() {
    let x = nodes::<N>(); let y = vals::<N>();
    if let Ok(p) = CubicSpline::new(Vector::new(x), Vector::new(y)) { for i in 0..N { eqs(p.evaluate(x[i]), y[i], 1e3, "passes through the knot"); } ieq(p.sample_count() as i64, N as i64, "sample count"); }
    else { check(false, "increasing knots are accepted") }
}
harness! {
    // ---------------------------------------------------------------- N01
    fn n01_euler() {
        let (a, c, e, h) = (real("a"), real("b"), real("c"), real("h")); let s = (1. + sq(a) + sq(c) + sq(e)) * (1. + sq(h));
        let v = Vector::new([a, c, e]).integrate_euler(h); let p = Ca::new(a, c, e).integrate_euler(h); let q = Eu::new(a, c, e).integrate_euler(h);
        for (i, x) in [a * h, c * h, e * h].into_iter().enumerate() { eqs(v.data[i], x, s, "rate times step"); eqs(p.data.data[i], x, s, "rate times step, position"); eqs(q.data.data[i], x, s, "rate times step, angles"); }
    }
    fn n01_trapezoidal() {
        let (a, c, e, h) = (real("a"), real("b"), real("c"), real("h")); let (a2, c2, e2) = (real("a2"), real("b2"), real("c2")); let s = (1. + sq(a) + sq(c) + sq(e) + sq(a2) + sq(c2) + sq(e2)) * (1. + sq(h));
        let v = Vector::new([a, c, e]).integrate_trapezoidal(&Vector::new([a2, c2, e2]), h); let p = Ca::new(a, c, e).integrate_trapezoidal(&Ca::new(a2, c2, e2), h); let q = Eu::new(a, c, e).integrate_trapezoidal(&Eu::new(a2, c2, e2), h);
        for (i, x) in [(a + a2) / 2. * h, (c + c2) / 2. * h, (e + e2) / 2. * h].into_iter().enumerate() { eqs(v.data[i], x, s, "mean rate times step"); eqs(p.data.data[i], x, s, "mean rate times step, position"); eqs(q.data.data[i], x, s, "mean rate times step, angles"); }
    }
    fn n01_rk4_linear() {
        // x' = a x + b y, y' = c x + d y: one step is the Taylor polynomial of order four of the matrix exponential
        let m = [[f("a", -10., 10.), f("b", -10., 10.)], [f("c", -10., 10.), f("d", -10., 10.)]]; let s = [f("x", -100., 100.), f("y", -100., 100.)]; let h = f("h", -10., 10.);
        let g = |v: &Vector<f64, 2>| Vector::new([m[0][0] * v[0] + m[0][1] * v[1], m[1][0] * v[0] + m[1][1] * v[1]]);
        let r = Vector::new(s).integrate_rk4(g, h);
        let (mut t, mut e) = (s, s);
        for k in 1..5 { let n = [m[0][0] * t[0] + m[0][1] * t[1], m[1][0] * t[0] + m[1][1] * t[1]]; t = [n[0] * h / k as f64, n[1] * h / k as f64]; e = [e[0] + t[0], e[1] + t[1]]; }
        for i in 0..2 { eqs(r.data[i], e[i], 1e12, "fourth-order Taylor step of a linear system"); }
    }
    fn n01_rk4_time() {
        // state (t, y), y' a cubic in t: integrated exactly
        let c = [f("c0", -10., 10.), f("c1", -10., 10.), f("c2", -10., 10.), f("c3", -10., 10.)]; let (t, y, h) = (f("t", -10., 10.), f("y", -100., 100.), f("h", -10., 10.));
        let r = Vector::new([t, y]).integrate_rk4(|v| Vector::new([1., horner(&c, v[0])]), h);
        let p = |t: f64| t * (c[0] + t * (c[1] / 2. + t * (c[2] / 3. + t * c[3] / 4.)));
        eqs(r.data[0], t + h, 100., "time advances by the step"); eqs(r.data[1], y + p(t + h) - p(t), 1e7, "cubic right-hand sides are integrated exactly");
    }
    fn n01_rk4_cartesian() {
        let c = [f("c0", -10., 10.), f("c1", -10., 10.), f("c2", -10., 10.), f("c3", -10., 10.)]; let (a, k) = (f("a", -10., 10.), f("k", -10., 10.)); let (t, y, z, h) = (f("t", -10., 10.), f("y", -100., 100.), f("z", -100., 100.), f("h", -10., 10.));
        let p = |t: f64| t * (c[0] + t * (c[1] / 2. + t * (c[2] / 3. + t * c[3] / 4.))); let q = a * h; let e = [t + h, y + p(t + h) - p(t), z + k * h + (z * a + k * a * h / 2. ) * 0.];
        let lin = |z: f64| z * (1. + q + q * q / 2. + q * q * q / 6. + q * q * q * q / 24.);
        let r = Ca::new(t, y, z).integrate_rk4(|v| Ca::new(1., horner(&c, v.x()), a * v.z()), h);
        eqs(r.x(), e[0], 100., "time advances by the step"); eqs(r.y(), e[1], 1e7, "cubic right-hand sides are integrated exactly"); eqs(r.z(), lin(z), 1e12, "fourth-order Taylor step");
        let r = Eu::new(t, y, z).integrate_rk4(|v| Eu::new(1., horner(&c, v.data[0]), a * v.data[2]), h);
        eqs(r.data[0], e[0], 100., "time advances by the step, angles"); eqs(r.data[1], e[1], 1e7, "cubic right-hand sides are integrated exactly, angles"); eqs(r.data[2], lin(z), 1e12, "fourth-order Taylor step, angles");
    }
    fn n01_rk4_stages() {
        // any right-hand side: its values at the four calls are arbitrary; the stages must be the classical ones
        let (y, h) = (f("y", -100., 100.), f("h", -10., 10.)); let n = Cell::new(0usize); let k: [Cell<f64>; 4] = Default::default();
        let r = Vector::new([y]).integrate_rk4(|v| { let i = n.get(); n.set(i + 1); check(i < 4, "four evaluations"); if i >= 4 { return *v; }
            let at = match i { 0 => y, 1 => y + h / 2. * k[0].get(), 2 => y + h / 2. * k[1].get(), _ => y + h * k[2].get() };
            eqs(v[0], at, 1e4, "stage point"); let s = f(F[i], -100., 100.); k[i].set(s); Vector::new([s]) }, h);
        ieq(n.get() as i64, 4, "four evaluations made"); eqs(r.data[0], y + h / 6. * (k[0].get() + 2. * k[1].get() + 2. * k[2].get() + k[3].get()), 1e4, "classical weights");
    }
    // ---------------------------------------------------------------- N02
    fn n02_newton0() { newton_zero(); }
    fn n02_newton1() { newton(1); }
    fn n02_newton2() { newton(2); }
    fn n02_newton3() { newton(3); }
    // ---------------------------------------------------------------- N03
    fn n03_lerp() {
        let (a, c, t) = (real("a"), real("b"), real("t")); let s = (1. + sq(a) + sq(c)) * (1. + sq(t));
        eqs(lerp(a, c, t), a + t * (c - a), s, "affine in the parameter"); eqs(lerp(a, c, 0.), a, s, "first end"); eqs(lerp(a, c, 1.), c, s, "second end");
        let v = lerp(Vector::new([a, c]), Vector::new([c, t]), t); eqs(v[0], a + t * (c - a), s, "componentwise"); eqs(v[1], c + t * (t - c), s * s, "componentwise");
    }
    fn n03_inverse_lerp() {
        let (a, w, v) = (f("a", -100., 100.), f("w", 0.001, 100.) * if b("down") { -1. } else { 1. }, f("v", -100., 100.)); let c = a + w;
        let t = inverse_lerp(a, c, v); eqs(a + t * (c - a), v, 1e6, "inverse of lerp"); let (o, p) = (f("o", -100., 100.), f("p", -100., 100.));
        eqs(remap(v, a, c, o, p), o + (v - a) / (c - a) * (p - o), 1e9, "remap is the affine map of the ranges"); eqs(remap(a, a, c, o, p), o, 1e6, "first end to first end"); eqs(remap(c, a, c, o, p), p, 1e6, "second end to second end");
        eq(inverse_lerp(a, a, v), 0., "empty range");
    }
    fn n03_poly1() { poly::<1>(false); }
    fn n03_poly2() { poly::<2>(b("rev")); }
    fn n03_poly3() { poly::<3>(b("rev")); }
    fn n03_poly4() { poly::<4>(false); }
    fn n03_poly_nodes() { poly_nodes::<3>(); }
    fn n03_poly_nodes4() { poly_nodes::<4>(); }
    fn n03_poly_duplicates() {
        let (a, c) = (f("a", -10., 10.), f("b", -10., 10.)); let k = i("which", 0, 2);
        let x = match k { 0 => [a, a, c], 1 => [a, c, a], _ => [c, a, a] };
        check(PolynomialInterpolator::new(Vector::new(x), Vector::new([1., 2., 3.])).is_err(), "repeated nodes are refused");
    }
    fn n03_spline_nodes2() { spline_nodes::<2>(); }
    fn n03_spline_nodes3() { spline_nodes::<3>(); }
    fn n03_spline_nodes4() { spline_nodes::<4>(); }
    fn n03_spline_nodes5() { spline_nodes::<5>(); }
    fn n03_spline_smooth2() { spline_smooth2(); }
    fn n03_spline_smooth3() { smooth::<3>(); }
    fn n03_spline_smooth4() { smooth::<4>(); }
    fn n03_spline_cubic() { cubic::<3>(); }
    fn n03_spline_outside() { outside::<3>(); }
    fn n03_spline_order() {
        let mut x = [0.; 3]; for i in 0..3 { x[i] = f(X[i], -10., 10.); } let y = vals::<3>();
        let inc = x[0] < x[1] && x[1] < x[2];
        check(CubicSpline::new(Vector::new(x), Vector::new(y)).is_ok() == inc, "accepted exactly when the knots increase");
    }
}
fn newton_zero() { let g = real("guess"); check(NewtonRaphson::new(1e-6, 0).solve(g, |_| { check(false, "no evaluation without iterations"); 0. }, |_| 1.).is_err(), "no iterations, no success"); }
fn spline_smooth2() {
    let x = nodes::<2>(); let y = vals::<2>(); let t = f("t", -1., 2.);
    if let Ok(p) = CubicSpline::new(Vector::new(x), Vector::new(y)) { eqs(p.evaluate(x[0] + t * (x[1] - x[0])), y[0] + t * (y[1] - y[0]), 1e6, "two knots give a line"); } else { check(false, "two knots are accepted") }
}
fn smooth<const N: usize>() {
    let x = nodes::<N>(); let y = vals::<N>();
    if let Ok(p) = CubicSpline::new(Vector::new(x), Vector::new(y)) {
        let mut last = (0., 0.);
        for k in 0..N - 1 {
            let d = (x[k + 1] - x[k]) / 3.; let s = [y[k], p.evaluate(x[k] + d), p.evaluate(x[k] + 2. * d), y[k + 1]];
            let a1 = (-11. * s[0] + 18. * s[1] - 9. * s[2] + 2. * s[3]) / (6. * d); let a2 = (2. * s[0] - 5. * s[1] + 4. * s[2] - s[3]) / (d * d);
            let b1 = (11. * s[3] - 18. * s[2] + 9. * s[1] - 2. * s[0]) / (6. * d); let b2 = (2. * s[3] - 5. * s[2] + 4. * s[1] - s[0]) / (d * d);
            if k == 0 { eqs(a2, 0., 1e6, "no curvature at the first end"); }
            else { eqs(a1, last.0, 1e6, "slope is continuous"); eqs(a2, last.1, 1e6, "curvature is continuous"); }
            last = (b1, b2);
        }
        eqs(last.1, 0., 1e6, "no curvature at the last end");
    } else { check(false, "increasing knots are accepted") }
}
/// inside every segment the spline is one cubic: a fifth sample agrees with the cubic through four
fn cubic<const N: usize>() {
    let x = nodes::<N>(); let y = vals::<N>(); let k = u("segment", 0, N as u64 - 2) as usize; let t = f("t", 0.01, 0.99);
    if let Ok(p) = CubicSpline::new(Vector::new(x), Vector::new(y)) {
        let (a, h) = (x[k], x[k + 1] - x[k]); let s = [y[k], p.evaluate(a + h / 3.), p.evaluate(a + 2. * h / 3.), y[k + 1]]; let w = 3. * t;
        let e = s[0] * (w - 1.) * (w - 2.) * (w - 3.) / -6. + s[1] * w * (w - 2.) * (w - 3.) / 2. - s[2] * w * (w - 1.) * (w - 3.) / 2. + s[3] * w * (w - 1.) * (w - 2.) / 6.;
        eqs(p.evaluate(a + h * t), e, 1e6, "each segment is one cubic");
    }
}
/// outside the knots the end cubics continue
fn outside<const N: usize>() {
    let x = nodes::<N>(); let y = vals::<N>(); let hi = b("above"); let t = f("t", 0.01, 3.);
    if let Ok(p) = CubicSpline::new(Vector::new(x), Vector::new(y)) {
        let k = if hi { N - 2 } else { 0 };
        let (a, h) = (x[k], x[k + 1] - x[k]); let s = [y[k], p.evaluate(a + h / 3.), p.evaluate(a + 2. * h / 3.), y[k + 1]]; let r = if hi { 1. + t } else { -t }; let w = 3. * r;
        let e = s[0] * (w - 1.) * (w - 2.) * (w - 3.) / -6. + s[1] * w * (w - 2.) * (w - 3.) / 2. - s[2] * w * (w - 1.) * (w - 3.) / 2. + s[3] * w * (w - 1.) * (w - 2.) / 6.;
        eqs(p.evaluate(a + h * r), e, 1e8, "end cubics continue outside");
    }
}
