#![allow(non_snake_case)]
use aether_core::attitude::DirectionCosineMatrix;
use aether_core::coordinate::Cartesian;
use aether_core::math::{Matrix, Vector};
use aether_core::reference_frame::{Assembly, Pose, ReferenceFrame, ITRF};
use aether_fluids::*;
use aether_graphics::cameras::orbit_camera::OrbitCamera;
use aether_graphics::graphics::transforms::*;
use aether_rand::randomizers::XorShift64Star;
use aether_shapes::attributes::*;
use aether_shapes::cylinder::Cylinder;
use aether_shapes::prism::RectangularPrism;
use aether_shapes::sphere::Sphere;
use aether_stats::covariance::*;
use aether_stats::distributions::bernoulli::Bernoulli;
use aether_stats::distributions::categorical::Categorical;
use aether_stats::distributions::gaussian::Gaussian;
use aether_stats::distributions::multivariate::MultivariateNormal;
use aether_test::assert::function::*;
use aether_test::assert::matrix::*;
use aether_test::assert::vector::*;
use aether_units::si::*;
use aether_units::si::si_base::*;
use aether_units::si::si_prefix::*;
use aether_units::Quantity;
use core::cell::Cell;
use sym::*;
use geo::sq;
const PI: f64 = core::f64::consts::PI;
static X: [&str; 9] = ["x0", "x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8"];
static Y: [&str; 9] = ["y0", "y1", "y2", "y3", "y4", "y5", "y6", "y7", "y8"];
macro_rules! prefixes {
    ($x:expr, $B:ident, $tb:ident, $($ctor:ident $to:ident $k:expr),*) => { $(
        eqs($x.$ctor().$tb().raw(), $x * $k, sq($x * $k) + 1e-60, concat!(stringify!($ctor), " to base"));
        eqs(Quantity::<$B, f64>::new($x).$to().raw() * $k, $x, sq($x) + 1e-60, concat!("base to ", stringify!($ctor)));
        eqs(Quantity::<$B, f64>::new($x).$to().$tb().raw(), $x, sq($x) + 1e-60, concat!("base and back through ", stringify!($ctor)));
        eqs($x.$ctor().$tb().$to().raw(), $x, sq($x) + 1e-60, concat!(stringify!($ctor), " and back"));
    )* }
}
fn cart(v: [f64; 3]) -> Cartesian<f64, ITRF<f64>> { Cartesian::new(v[0], v[1], v[2]) }
fn mv(m: &Matrix<f64, 4, 4>, p: [f64; 3], w: f64) -> [f64; 4] { core::array::from_fn(|i| m.data[i][0] * p[0] + m.data[i][1] * p[1] + m.data[i][2] * p[2] + m.data[i][3] * w) }
fn dot(a: [f64; 3], b: [f64; 3]) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn cross(a: [f64; 3], b: [f64; 3]) -> [f64; 3] { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn points(c: &OrbitCamera<f64>, e: [f64; 3], s: f64) {
    let f = c.forward();
    for k in 0..3 { eqs(f[k], e[k], s, "looks along the yaw and pitch direction"); }
}
fn axes(c: &OrbitCamera<f64>, e: [f64; 3]) {
    let (r, u, p) = (c.right(), c.cam_up(), c.position());
    eq(dot(r.data, r.data), 1., "right axis has unit length"); eq(dot(r.data, e), 0., "right axis is square to the view"); eq(r[2], 0., "right axis is level");
    eq(dot(u.data, u.data), 1., "up axis has unit length"); eq(dot(u.data, e), 0., "up axis is square to the view"); eq(dot(u.data, r.data), 0., "up axis is square to the right axis"); le(0., u[2], "up axis points up");
    for k in 0..3 { eqs(p[k], c.target[k] - c.distance * e[k], 1e6, "stands at the distance from its target"); }
}
fn dir(y: f64, p: f64) -> [f64; 3] { [y.cos() * p.cos(), y.sin() * p.cos(), p.sin()] }
fn camera() -> OrbitCamera<f64> { let mut c = OrbitCamera::default(); c.target = Vector::new([f("tx", -1e3, 1e3), f("ty", -1e3, 1e3), f("tz", -1e3, 1e3)]); c.distance = f("dist", 0., 1e4); c }
fn mass<L: ReferenceFrame>(p: &MassProps<f64>, a: (f64, f64, [f64; 3], [[f64; 3]; 3], [f64; 3]), b: (f64, f64, [f64; 3], [[f64; 3]; 3], [f64; 3]), g: f64, _l: core::marker::PhantomData<L>) {
    // (volume, mass, principal moments, rotation, position)
    let m = a.1 + g * b.1;
    eqs(p.volume, a.0 + g * b.0, 1e9, "volumes add"); eqs(p.mass, m, 1e12, "masses add"); eqs(p.density * p.volume, m, 1e12, "density is mass over volume");
    for k in 0..3 { eqs(p.com[k] * m, a.4[k] * a.1 + g * b.4[k] * b.1, 1e15, "first moments add"); }
    let I = |s: &(f64, f64, [f64; 3], [[f64; 3]; 3], [f64; 3]), i: usize, j: usize| {
        let mut t = 0.; for k in 0..3 { t += s.3[i][k] * s.2[k] * s.3[j][k]; }
        t + s.1 * ((if i == j { dot(s.4, s.4) } else { 0. }) - s.4[i] * s.4[j]) };
    for i in 0..3 { for j in i..3 {
        eqs(p.inertia_cm.data[i][j], p.inertia_cm.data[j][i], 1e15, "inertia is symmetric");
        // about the origin: I_O = I_cm + m (|c|^2 1 - c c^T)
        let c = [p.com[0], p.com[1], p.com[2]];
        eqs(p.inertia_cm.data[i][j] + m * ((if i == j { dot(c, c) } else { 0. }) - c[i] * c[j]), I(&a, i, j) + g * I(&b, i, j), 1e18, "inertias about a common point add");
    } }
}
const EYE: [[f64; 3]; 3] = [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]];
fn rot(n: [&'static str; 9]) -> [[f64; 3]; 3] { core::array::from_fn(|i| core::array::from_fn(|j| f(n[3 * i + j], -1., 1.))) }
fn pose<L: ReferenceFrame>(r: [[f64; 3]; 3], p: [f64; 3]) -> Pose<f64, L> { Pose { R_local_to_assembly: DirectionCosineMatrix::<f64, L, Assembly<f64>>::from_matrix(Matrix::new(r)), r_cm_in_assembly: Cartesian::new(p[0], p[1], p[2]) } }
fn at(n: [&'static str; 3]) -> [f64; 3] { n.map(|s| f(s, -1e3, 1e3)) }
fn arr<const N: usize>(v: &Vector<f64, N>) -> [f64; N] { let mut o = [0.; N]; for i in 0..N { o[i] = v[i]; } o }
fn anyf(n: &'static str) -> f64 { f64::from_bits(u(n, 0, u64::MAX)) }
fn bad(x: f64, y: f64, tol: f64) -> bool { !((x - y).abs() <= tol) }
fn physical(i: [f64; 3], s: &'static str) { for k in 0..3 { lt(0., i[k], s); le(i[k], i[(k + 1) % 3] + i[(k + 2) % 3], "principal moments satisfy the triangle inequality"); } }
fn samples<const N: usize, const K: usize>(n: &[&'static str; 9]) -> [Vector<f64, N>; K] { core::array::from_fn(|i| Vector::new(core::array::from_fn(|j| f(n[i * N + j], -1e3, 1e3)))) }
fn sizes<const N: usize, const M: usize, const K: usize>(s: &[Vector<f64, N>; K], t: &[Vector<f64, M>; K]) {
    match (mean(s), sample_covariance(s), sample_cross_covariance(s, t), sample_cross_covariance(t, t)) {
        (Ok(m), Ok(c), Ok(x), Ok(y)) => {
            for i in 0..N { eqs(m[i], avg(s, i), 1e3, "mean"); for j in 0..N { eqs(c.data[i][j], co(s, s, i, j), 1e6, "covariance"); } for j in 0..M { eqs(x.data[i][j], co(s, t, i, j), 1e6, "cross covariance"); } }
            for i in 0..M { for j in 0..M { eqs(y.data[i][j], co(t, t, i, j), 1e6, "covariance is cross covariance with itself"); } }
        }
        _ => check(false, "samples have a covariance"),
    }
}
fn avg<const N: usize, const K: usize>(s: &[Vector<f64, N>; K], j: usize) -> f64 { let mut t = 0.; for i in 0..K { t += s[i][j]; } t / K as f64 }
fn co<const N: usize, const M: usize, const K: usize>(a: &[Vector<f64, N>; K], b: &[Vector<f64, M>; K], i: usize, j: usize) -> f64 { let (ma, mb) = (avg(a, i), avg(b, j)); let mut t = 0.; for k in 0..K { t += (a[k][i] - ma) * (b[k][j] - mb); } t / (K as f64 - 1.) }
fn step(mut x: u64) -> u64 { x ^= x >> 12; x ^= x << 25; x ^= x >> 27; x }
const INV: u64 = { let c = 0x2545F4914F6CDD1Du64; let mut i = c; let mut k = 0; while k < 6 { i = i.wrapping_mul(2u64.wrapping_sub(c.wrapping_mul(i))); k += 1; } i };
fn maxdiff(a: [f64; 2], c: [f64; 2]) {
    let t = anyf("tol"); assume(t >= 0.); let w = bad(a[0], c[0], t) || bad(a[1], c[1], t);
    check((vector_max_abs_diff(&Vector::new(a), &Vector::new(c)) <= t) == !w, "the greatest vector difference bounds every entry"); check((matrix_max_abs_diff(&Matrix::new([a]), &Matrix::new([c])) <= t) == !w, "the greatest matrix difference bounds every entry");
}
fn grid(v: [f64; 3]) {
    let t = anyf("tol"); assume(t >= 0.); let w = Cell::new(false); let k = Cell::new(0usize);
    let (_, e) = assert_max_abs_error_on_grid(|_| 0., |_| { let i = k.get(); k.set(i + 1); let y = if i < 3 { v[i] } else { 0. }; if !(y.abs() <= t) { w.set(true); panic_ok(true); } y }, 0., 1., 2, t);
    check(k.get() == 3, "every grid point is compared"); check(!w.get(), "an error beyond tolerance is reported"); for y in v { check(y.abs() <= e, "the worst error is returned"); }
}
harness! {
    // ---------------------------------------------------------------- U01
    fn u01_length() { let x = real("x"); prefixes!(x, Meter, to_meter, yoctometer to_yoctometer 1e-24, zeptometer to_zeptometer 1e-21, attometer to_attometer 1e-18, femtometer to_femtometer 1e-15, picometer to_picometer 1e-12, nanometer to_nanometer 1e-9, micrometer to_micrometer 1e-6, millimeter to_millimeter 1e-3, centimeter to_centimeter 1e-2, decimeter to_decimeter 1e-1, decameter to_decameter 1e1, hectometer to_hectometer 1e2, kilometer to_kilometer 1e3, megameter to_megameter 1e6, gigameter to_gigameter 1e9, terameter to_terameter 1e12, petameter to_petameter 1e15, exameter to_exameter 1e18, zettameter to_zettameter 1e21, yottameter to_yottameter 1e24); }
    fn u01_time() { let x = real("x"); prefixes!(x, Second, to_second, yoctosecond to_yoctosecond 1e-24, zeptosecond to_zeptosecond 1e-21, attosecond to_attosecond 1e-18, femtosecond to_femtosecond 1e-15, picosecond to_picosecond 1e-12, nanosecond to_nanosecond 1e-9, microsecond to_microsecond 1e-6, millisecond to_millisecond 1e-3, centisecond to_centisecond 1e-2, decisecond to_decisecond 1e-1, decasecond to_decasecond 1e1, hectosecond to_hectosecond 1e2, kilosecond to_kilosecond 1e3, megasecond to_megasecond 1e6, gigasecond to_gigasecond 1e9, terasecond to_terasecond 1e12, petasecond to_petasecond 1e15, exasecond to_exasecond 1e18, zettasecond to_zettasecond 1e21, yottasecond to_yottasecond 1e24); }
    fn u01_mass() { let x = real("x"); prefixes!(x, Kilogram, to_kilogram, yoctogram to_yoctogram 1e-27, zeptogram to_zeptogram 1e-24, attogram to_attogram 1e-21, femtogram to_femtogram 1e-18, picogram to_picogram 1e-15, nanogram to_nanogram 1e-12, microgram to_microgram 1e-9, milligram to_milligram 1e-6, centigram to_centigram 1e-5, decigram to_decigram 1e-4, decagram to_decagram 1e-2, hectogram to_hectogram 1e-1, megagram to_megagram 1e3, gigagram to_gigagram 1e6, teragram to_teragram 1e9, petagram to_petagram 1e12, exagram to_exagram 1e15, zettagram to_zettagram 1e18, yottagram to_yottagram 1e21); }
    fn u01_arithmetic() {
        let (x, y, k) = (real("x"), real("y"), real("k")); let (p, q) = (x.m(), y.m());
        eq((p + q).raw(), x + y, "sum"); eq((p - q).raw(), x - y, "difference"); eq((p * k).raw(), x * k, "scaling"); eq((-p).raw(), -x, "negation"); eq(Quantity::<Meter, f64>::from(x).raw(), x, "construction");
        if k * k >= 1e-6 { eq((p / k).raw(), x / k, "division"); }
        eqs((x.kilometer().to_meter() + y.centimeter().to_meter()).to_millimeter().raw(), x * 1e6 + y * 10., 1e12, "sums across prefixes");
    }
    // ---------------------------------------------------------------- G01
    fn g01_look_at() {
        let e = at(["ex", "ey", "ez"]); let d = unit::<3>("dir"); let r = f("dist", 0.1, 1e3); let up = [f("ux", -10., 10.), f("uy", -10., 10.), f("uz", -10., 10.)];
        let x = cross(up, d); assume(dot(x, x) >= 0.01);
        let m = look_at(&cart(e), &cart([e[0] + r * d[0], e[1] + r * d[1], e[2] + r * d[2]]), &cart(up));
        for i in 0..3 { for j in i..3 { eqs(m.data[i][0] * m.data[j][0] + m.data[i][1] * m.data[j][1] + m.data[i][2] * m.data[j][2], if i == j { 1. } else { 0. }, 1., "the view keeps lengths and angles"); } }
        for i in 0..3 { eq(m.data[3][i], 0., "affine"); } eq(m.data[3][3], 1., "affine");
        let o = mv(&m, e, 1.); for i in 0..3 { eqs(o[i], 0., 1e4, "the eye goes to the origin"); }
        let c = mv(&m, [e[0] + r * d[0], e[1] + r * d[1], e[2] + r * d[2]], 1.); eqs(c[0], 0., 1e4, "the target is on the view axis"); eqs(c[1], 0., 1e4, "the target is on the view axis"); eqs(c[2], -r, 1e4, "the target is ahead at its distance");
        let u = mv(&m, up, 0.); eqs(u[0], 0., 1e2, "up is upright on screen"); lt(0., u[1], "up is upright on screen");
    }
    fn g01_perspective() {
        let (a, t, n, g) = (f("aspect", 0.1, 10.), f("fov", 0.05, 3.), f("near", 1e-3, 1e3), f("gap", 1e-3, 1e6)); let far = n + g; let m = perspective(a, t, n, far);
        let (x, y) = (f("x", -1e3, 1e3), f("y", -1e3, 1e3)); let k = (t / 2.).sin() / (t / 2.).cos();
        let p = mv(&m, [x, y, -n], 1.); eqs(p[2], -p[3], 1e3, "the near plane goes to the near limit"); eqs(p[3], n, 1e3, "depth divides"); eqs(p[0] * a * k, x, 1e3, "width follows the aspect ratio and field of view"); eqs(p[1] * k, y, 1e3, "height follows the field of view");
        let p = mv(&m, [x, y, -far], 1.); eqs(p[2], p[3], 1e6, "the far plane goes to the far limit"); eqs(p[3], far, 1e6, "depth divides");
        let z = f("z", 1e-3, 1e6); assume(z >= n && z <= far); let p = mv(&m, [x, y, -z], 1.); le(p[2], p[3] + 1e-9 * far, "visible depths are inside the limits"); le(-p[3] - 1e-9 * far, p[2], "visible depths are inside the limits");
    }
    fn g01_both() {
        let e = at(["ex", "ey", "ez"]); let d = unit::<3>("dir"); let x = cross([0., 0., 1.], d); assume(dot(x, x) >= 0.01); let c = [e[0] + d[0], e[1] + d[1], e[2] + d[2]];
        let (a, t, n, g) = (f("aspect", 0.1, 10.), f("fov", 0.05, 3.), f("near", 1e-3, 1e3), f("gap", 1e-3, 1e6));
        let (v, p) = look_at_perspective(&cart(e), &cart(c), &cart([0., 0., 1.]), a, t, n, n + g); let (w, q) = (look_at(&cart(e), &cart(c), &cart([0., 0., 1.])), perspective(a, t, n, n + g));
        for i in 0..4 { for j in 0..4 { eqs(v.data[i][j], w.data[i][j], 1e4, "view"); eqs(p.data[i][j], q.data[i][j], 1e9, "projection"); } }
    }
    fn g01_translate() {
        let m: [[f64; 4]; 4] = core::array::from_fn(|i| core::array::from_fn(|j| if i < 3 { f(["a0", "a1", "a2", "a3", "b0", "b1", "b2", "b3", "c0", "c1", "c2", "c3"][4 * i + j], -100., 100.) } else if j == 3 { 1. } else { 0. })); let (p, t, s) = (at(["px", "py", "pz"]), at(["t0", "t1", "t2"]), at(["s0", "s1", "s2"]));
        let m = Matrix::new(m); let r = translate(&m, &Vector::new(t)); let (o, q) = (mv(&r, p, 1.), mv(&m, [p[0] + t[0], p[1] + t[1], p[2] + t[2]], 1.)); for i in 0..4 { eqs(o[i], q[i], 1e7, "translation comes first"); }
        let two = translate(&r, &Vector::new(s)); let one = translate(&m, &Vector::new([t[0] + s[0], t[1] + s[1], t[2] + s[2]])); for i in 0..4 { for j in 0..4 { eqs(two.data[i][j], one.data[i][j], 1e7, "translations add"); } }
    }
    fn g01_orbit_set() {
        let mut c = camera(); let (y, p) = (f("yaw", -3.1, 3.1), f("pitch", -1.56, 1.56)); assume(p.cos() >= 0.01); c.set_angles(y, p); let e = dir(y, p);
        points(&c, e, 1.); axes(&c, e); eq(c.yaw, y, "yaw is kept"); eq(c.pitch, p, "pitch is kept");
    }
    fn g01_orbit_yaw() {
        let mut c = camera(); let (y, p, dy) = (f("yaw", -3.1, 3.1), f("pitch", -1.5, 1.5), f("dyaw", -1.5, 1.5)); assume(p.cos() >= 0.01);
        c.set_angles(y, p); c.apply_orbit_angles(dy, 0.); points(&c, dir(y + dy, p), 1.); ang(c.yaw, y + dy, "yaw report follows"); eqs(c.pitch.sin(), (p).sin(), 1., "pitch report follows"); le(-PI / 2. - 1e-9, c.pitch, "pitch report is in range"); le(c.pitch, PI / 2. + 1e-9, "pitch report is in range");
    }
    fn g01_orbit_report() {
        let mut c = camera(); let (dy, dp) = (f("dyaw", -1.5, 1.5), f("dpitch", -1.5, 1.5)); assume(dp.cos() >= 0.01);
        c.apply_orbit_angles(dy, dp); points(&c, dir(dy, dp), 1.); ang(c.yaw, dy, "yaw report follows"); eqs(c.pitch.sin(), (dp).sin(), 1., "pitch report follows"); le(-PI / 2. - 1e-9, c.pitch, "pitch report is in range"); le(c.pitch, PI / 2. + 1e-9, "pitch report is in range");
    }
    fn g01_orbit_pixels() {
        let mut c = camera(); c.orbit_sens = f("sens", 1e-4, 0.1); let (dx, dy) = (f("dx", -10., 10.), f("dy", -10., 10.)); assume((dy * c.orbit_sens).cos() >= 0.01);
        c.apply_orbit_pixels(dx, dy); let e = dir(-dx * c.orbit_sens, -dy * c.orbit_sens); points(&c, e, 1.); axes(&c, e);
    }
    fn g01_orbit_world() {
        let mut c = camera(); let (y, p, a, b) = (f("yaw", -3.1, 3.1), f("pitch", -1.5, 1.5), f("a", -1.5, 1.5), f("b", -1.5, 1.5)); assume(p.cos() >= 0.01);
        c.set_angles(y, p); c.apply_orbit_world_angles(a, b); let v = dir(y, p);
        // about world Y, then world X
        let v = [b.cos() * v[0] + b.sin() * v[2], v[1], -b.sin() * v[0] + b.cos() * v[2]]; let v = [v[0], a.cos() * v[1] - a.sin() * v[2], a.sin() * v[1] + a.cos() * v[2]];
        points(&c, v, 1.);
    }
    fn g01_orbit_world_report() {
        let mut c = camera(); let (a, b) = (f("a", -3.1, 3.1), f("b", -3.1, 3.1)); c.apply_orbit_world_angles(a, b);
        let v = [b.cos(), a.sin() * b.sin(), -a.cos() * b.sin()]; let h = (v[0] * v[0] + v[1] * v[1]).sqrt(); assume(h >= 0.01);
        eqs(h * c.yaw.cos(), v[0], 1., "yaw report follows"); eqs(h * c.yaw.sin(), v[1], 1., "yaw report follows"); eqs(c.pitch.sin(), v[2], 1., "pitch report follows"); le(-PI / 2. - 1e-9, c.pitch, "pitch report is in range"); le(c.pitch, PI / 2. + 1e-9, "pitch report is in range");
    }
    fn g01_orbit_world_pixels() {
        let mut c = camera(); let mut d = c.clone(); let (y, p, x, z) = (f("yaw", -3.1, 3.1), f("pitch", -1.5, 1.5), f("dx", -100., 100.), f("dy", -100., 100.)); let k = f("sensitivity", 1e-4, 0.01); assume(p.cos() >= 0.01);
        c.orbit_sens = k; c.set_angles(y, p); d.set_angles(y, p); c.apply_orbit_world_pixels(x, z); d.apply_orbit_world_angles(-z * k, -x * k); let (a, b) = (c.forward(), d.forward());
        for i in 0..3 { eqs(a[i], b[i], 1., "pixels turn the world by the sensitivity"); }
    }
    // ---------------------------------------------------------------- H01
    fn h01_sphere() { let (r, m) = (f("r", 1e-3, 1e3), f("m", 1e-3, 1e6)); let s = Sphere { r }; eqs(s.volume(), 4. / 3. * PI * r * r * r, r * r * r, "volume of a sphere"); let i = arr(&s.inertia_principal_cm(m)); for k in 0..3 { eqs(i[k], 0.4 * m * r * r, m * r * r, "inertia of a sphere"); } physical(i, "moments are positive"); }
    fn h01_cylinder() { let (r, h, m) = (f("r", 1e-3, 1e3), f("h", 1e-3, 1e3), f("m", 1e-3, 1e6)); let s = Cylinder { r, h }; eqs(s.volume(), PI * r * r * h, r * r * h, "volume of a cylinder"); let i = arr(&s.inertia_principal_cm(m)); let t = m * (r * r + h * h); eqs(i[2], m * r * r / 2., t, "axial inertia of a cylinder"); for k in 0..2 { eqs(i[k], m * (3. * r * r + h * h) / 12., t, "transverse inertia of a cylinder"); } physical(i, "moments are positive"); }
    fn h01_prism() { let (a, b, c, m) = (f("a", 1e-3, 1e3), f("b", 1e-3, 1e3), f("c", 1e-3, 1e3), f("m", 1e-3, 1e6)); let s = RectangularPrism { a, b, c }; eqs(s.volume(), a * b * c, a * b * c, "volume of a prism"); let i = arr(&s.inertia_principal_cm(m)); let t = m * (a * a + b * b + c * c); eqs(i[0], m * (b * b + c * c) / 12., t, "inertia of a prism"); eqs(i[1], m * (a * a + c * c) / 12., t, "inertia of a prism"); eqs(i[2], m * (a * a + b * b) / 12., t, "inertia of a prism"); physical(i, "moments are positive"); }
    fn h01_add() {
        let (a, b, c, r, d, g) = (f("a", 0.1, 10.), f("b", 0.1, 10.), f("c", 0.1, 10.), f("r", 0.1, 10.), f("da", 0.1, 1e4), f("db", 0.1, 1e4)); let (R, p, q) = (rot(X), at(["p0", "p1", "p2"]), at(["q0", "q1", "q2"]));
        let (s, t) = (RectangularPrism { a, b, c }, Sphere { r }); let (va, vb) = (a * b * c, t.volume()); let (ma, mb) = (d * va, g * vb); let (ia, ib) = (arr(&s.inertia_principal_cm(ma)), arr(&t.inertia_principal_cm(mb)));
        let w = MassModel::new(s, d, pose(R, p)) + MassModel::new(t, g, pose(EYE, q)); check(w.is_some(), "solids of positive volume and mass combine");
        if let Some(w) = w { mass(&w, (va, ma, ia, R, p), (vb, mb, ib, EYE, q), 1., core::marker::PhantomData::<Assembly<f64>>); }
    }
    fn h01_add_rot() {
        let (h, r, d, g) = (f("h", 0.1, 10.), f("r", 0.1, 10.), f("da", 0.1, 1e4), f("db", 0.1, 1e4)); let (R, p, q) = (rot(X), at(["p0", "p1", "p2"]), at(["q0", "q1", "q2"]));
        let (s, t) = (Sphere { r: h }, Cylinder { r, h }); let (va, vb) = (s.volume(), t.volume()); let (ma, mb) = (d * va, g * vb); let (ia, ib) = (arr(&s.inertia_principal_cm(ma)), arr(&t.inertia_principal_cm(mb)));
        let w = MassModel::new(s, d, pose(EYE, p)) + MassModel::new(t, g, pose(R, q)); check(w.is_some(), "solids of positive volume and mass combine");
        if let Some(w) = w { mass(&w, (va, ma, ia, EYE, p), (vb, mb, ib, R, q), 1., core::marker::PhantomData::<Assembly<f64>>); }
    }
    fn h01_sub() {
        let (a, b, c, r, d, g) = (f("a", 1., 10.), f("b", 1., 10.), f("c", 1., 10.), f("r", 0.1, 0.4), f("da", 1., 1e4), f("db", 0.1, 1.)); let (R, p, q) = (rot(X), at(["p0", "p1", "p2"]), at(["q0", "q1", "q2"]));
        let (s, t) = (RectangularPrism { a, b, c }, Sphere { r }); let (va, vb) = (a * b * c, t.volume()); let (ma, mb) = (d * va, g * vb); let (ia, ib) = (arr(&s.inertia_principal_cm(ma)), arr(&t.inertia_principal_cm(mb)));
        let w = MassModel::new(s, d, pose(R, p)) - MassModel::new(t, g, pose(EYE, q)); check(w.is_some(), "a smaller lighter solid can be removed");
        if let Some(w) = w { mass(&w, (va, ma, ia, R, p), (vb, mb, ib, EYE, q), -1., core::marker::PhantomData::<Assembly<f64>>); }
    }
    fn h01_sub_rot() {
        let (h, r, d, g) = (f("h", 1., 10.), f("r", 0.1, 0.4), f("da", 1., 1e4), f("db", 0.1, 1.)); let (R, p, q) = (rot(X), at(["p0", "p1", "p2"]), at(["q0", "q1", "q2"]));
        let (s, t) = (Sphere { r: h }, Cylinder { r, h: 1. }); let (va, vb) = (s.volume(), t.volume()); let (ma, mb) = (d * va, g * vb); let (ia, ib) = (arr(&s.inertia_principal_cm(ma)), arr(&t.inertia_principal_cm(mb)));
        let w = MassModel::new(s, d, pose(EYE, p)) - MassModel::new(t, g, pose(R, q)); check(w.is_some(), "a smaller lighter solid can be removed");
        if let Some(w) = w { mass(&w, (va, ma, ia, EYE, p), (vb, mb, ib, R, q), -1., core::marker::PhantomData::<Assembly<f64>>); }
    }
    fn h01_matrix_form() {
        let (a, r, h, d, g) = (f("a", 1., 2.), f("r", 0.1, 0.4), f("h", 0.1, 1.), f("da", 1., 10.), f("db", 0.1, 1.)); let (R, S, p, q) = (rot(X), rot(Y), ["p0", "p1", "p2"].map(|n| f(n, -2., 2.)), ["q0", "q1", "q2"].map(|n| f(n, -2., 2.)));
        let (s, t) = (RectangularPrism { a, b: a, c: 2. * a }, Cylinder { r, h });
        let pair = |x: Option<MassProps<f64>>, y: Option<MassProps<f64>>| { check(x.is_some() && y.is_some(), "both forms give a result"); if let (Some(x), Some(y)) = (x, y) { eqs(x.mass, y.mass, 1e2, "both forms agree"); eqs(x.volume, y.volume, 1e2, "both forms agree"); eqs(x.density, y.density, 1e2, "both forms agree"); for i in 0..3 { eqs(x.com[i], y.com[i], 1e2, "both forms agree"); for j in 0..3 { eqs(x.inertia_cm.data[i][j], y.inertia_cm.data[i][j], 1e3, "both forms agree"); } } } };
        pair(MassModel::new(s, d, pose(R, p)) + MassModel::new(t, g, pose(S, q)), s.add_with(&t, d, g, Matrix::new(R), Vector::new(p), Matrix::new(S), Vector::new(q)));
        pair(MassModel::new(s, d, pose(R, p)) - MassModel::new(t, g, pose(S, q)), s.subtract_with(&t, d, g, Matrix::new(R), Vector::new(p), Matrix::new(S), Vector::new(q)));
    }
    fn h01_invalid() {
        let (a, r, d, g) = (f("a", -10., 10.), f("r", -10., 10.), f("da", -1e4, 1e4), f("db", -1e4, 1e4)); let (s, t) = (RectangularPrism { a, b: 1., c: 1. }, Sphere { r }); let (va, vb) = (s.volume(), t.volume()); let (ma, mb) = (d * va, g * vb);
        let o = [0.; 3]; let bad = va <= 0. || vb <= 0.;
        check((MassModel::new(s, d, pose(EYE, o)) + MassModel::new(t, g, pose(EYE, o))).is_none() == (bad || ma + mb <= 0.), "addition reports exactly the invalid solids");
        check((MassModel::new(s, d, pose(EYE, o)) - MassModel::new(t, g, pose(EYE, o))).is_none() == (bad || ma - mb <= 0. || va - vb <= 0.), "subtraction reports exactly the invalid solids");
        check(s.add_with(&t, d, g, Matrix::new(EYE), Vector::new(o), Matrix::new(EYE), Vector::new(o)).is_none() == (bad || ma + mb <= 0.), "addition reports exactly the invalid solids");
        check(s.subtract_with(&t, d, g, Matrix::new(EYE), Vector::new(o), Matrix::new(EYE), Vector::new(o)).is_none() == (bad || ma - mb <= 0. || va - vb <= 0.), "subtraction reports exactly the invalid solids");
    }
    // ---------------------------------------------------------------- D01
    fn d01_limits() {
        let (r, l, d, k) = (f("r", -100., 100.), f("l", -100., 100.), f("density", -1e4, 1e4), f("fill", -2., 3.)); let cyl = b("cylinder");
        let shape = if cyl { TankShape::Cylinder { radius_m: r, length_m: l } } else { TankShape::Sphere { radius_m: r } };
        let v = if cyl { PI * r * r * l } else { 4. / 3. * PI * r * r * r }; eqs(shape.volume_m3(), v, 1e7, "geometric volume");
        let w = PropellantTankSpec { shape, propellant_density_kg_m3: d, fill_fraction: k }.limits();
        let g = if v > 0. { v } else { 0. }; let q = if k < 0. { 0. } else if k > 1. { 1. } else { k }; let e = if d > 0. { d } else { 0. };
        eqs(w.geometric_volume_m3, g, 1e7, "geometric volume is never negative"); eqs(w.usable_volume_m3, g * q, 1e7, "usable volume is the filled share"); eqs(w.max_propellant_mass_kg, g * q * e, 1e11, "propellant mass is density times usable volume");
        le(0., w.usable_volume_m3, "usable volume is within the tank"); le(w.usable_volume_m3, w.geometric_volume_m3, "usable volume is within the tank"); le(0., w.max_propellant_mass_kg, "propellant mass is not negative");
    }
    fn d01_inertia() {
        let (r, l, m) = (f("r", -100., 100.), f("l", -100., 100.), f("m", -1e4, 1e4)); let p = if m > 0. { m } else { 0. };
        let i = TankShape::Cylinder { radius_m: r, length_m: l }.inertia_principal_cm_kg_m2(m); eqs(i[0], p * (3. * r * r + l * l) / 12., 1e8, "cylinder inertia"); eqs(i[1], i[0], 1e8, "cylinder inertia"); eqs(i[2], p * r * r / 2., 1e8, "cylinder inertia");
        let i = TankShape::Sphere { radius_m: r }.inertia_principal_cm_kg_m2(m); for k in 0..3 { eqs(i[k], 0.4 * p * r * r, 1e8, "sphere inertia"); le(0., i[k], "inertia is not negative"); }
    }
    fn d01_aggregate() {
        let (n, r, l) = (f("len", 0., 10.), f("r", 0.1, 10.), f("r2", 0.1, 10.)); let m: [f64; 3] = [f("m0", -1e4, 1e4), f("m1", -1e4, 1e4), f("m2", -1e4, 1e4)];
        let t = [TankMassState { shape: TankShape::Cylinder { radius_m: r, length_m: n }, mass_kg: m[0] }, TankMassState { shape: TankShape::Sphere { radius_m: l }, mass_kg: m[1] }, TankMassState { shape: TankShape::Sphere { radius_m: r }, mass_kg: m[2] }];
        let mut s = 0.; for x in m { s += if x > 0. { x } else { 0. }; } eqs(aggregate_tank_mass_kg(&t), s, 1e5, "total mass is the sum over tanks"); le(0., aggregate_tank_mass_kg(&t), "total mass is not negative"); eq(aggregate_tank_mass_kg(&[]), 0., "no tanks, no mass");
        let a = aggregate_tank_inertia_principal_cm_kg_m2(&t); for k in 0..3 { let mut s = 0.; for x in t { s += x.shape.inertia_principal_cm_kg_m2(x.mass_kg)[k]; } eqs(a[k], s, 1e8, "total inertia is the sum over tanks"); eq(aggregate_tank_inertia_principal_cm_kg_m2(&[])[k], 0., "no tanks, no inertia"); }
        eqs(aggregate_tank_mass_kg(&t[..1]) + aggregate_tank_mass_kg(&t[1..]), aggregate_tank_mass_kg(&t), 1e5, "totals of parts add up");
    }
    // ---------------------------------------------------------------- R01
    fn r01_real64() { let mut g = XorShift64Star::new(u("seed", 0, u64::MAX)); let x: f64 = g.next_real(); check(x >= 0. && x < 1., "double in [0, 1)"); }
    fn r01_real32() { let mut g = XorShift64Star::new(u("seed", 0, u64::MAX)); let x: f32 = g.next_real(); check(x >= 0. && x < 1., "single in [0, 1)"); }
    fn r01_f64() { let s = u("seed", 0, u64::MAX); let (mut g, mut h) = (XorShift64Star::new(s), XorShift64Star::new(s)); let x = g.next_f64(); check(x >= 0. && x < 1., "double in [0, 1)"); check(x == h.next_real::<f64>(), "same stream"); }
    fn r01_real_stream() { let s = u("seed", 0, u64::MAX); let (mut g, mut h) = (XorShift64Star::new(s), XorShift64Star::new(s)); let x: f64 = g.next_real(); let y = h.next_u64(); check(x == (y >> 11) as f64 / 9007199254740992., "the top 53 bits of one step"); check(g.next_u64() == h.next_u64(), "a real takes one step"); }
    fn r01_nonzero() { let mut g = XorShift64Star::new(u("seed", 0, u64::MAX)); check(g.next_u64() != 0, "the state never becomes zero"); check(g.next_u64() != 0, "the state never becomes zero"); }
    fn r01_injective() {
        let (s, t) = (u("s", 1, u64::MAX), u("t", 1, u64::MAX)); assume(s != t); let (a, c) = (XorShift64Star::new(s).next_u64(), XorShift64Star::new(t).next_u64());
        check(a.wrapping_mul(INV) != c.wrapping_mul(INV), "different states step to different states");
    }
    fn r01_step() {
        let s = u("seed", 1, u64::MAX); let mut g = XorShift64Star::new(s);
        check(g.next_u64().wrapping_mul(INV) == step(s), "xorshift step"); check(g.next_u64().wrapping_mul(INV) == step(step(s)), "xorshift step, again"); let mut z = XorShift64Star::new(0); check(z.next_u64() != 0, "seed zero works");
    }
    fn r01_deterministic() { let s = u("seed", 0, u64::MAX); let mut g = XorShift64Star::new(s); let mut h = XorShift64Star::new(s); g.next_u64(); h.next_u64(); let mut k = h; check(g.next_u64() == h.next_u64(), "same seed, same stream"); check(k.next_u64().wrapping_mul(INV) == { let x = if s == 0 { 0x9E3779B97F4A7C15 } else { s }; step(step(x)) }, "copies continue the stream"); }
    fn r01_normal() {
        let s = u("seed", 0, u64::MAX); let (mut g, mut h) = (XorShift64Star::new(s), XorShift64Star::new(s)); let n = g.normal01(); let a = h.next_f64(); let c = h.next_f64(); let a = if a <= 0. { f64::EPSILON } else { a };
        eq(n, (-2. * a.ln()).sqrt() * (2. * PI * c).cos(), "Box-Muller of the next two reals"); check(g.next_u64() == h.next_u64(), "a deviate takes two steps");
    }
    // ---------------------------------------------------------------- S01
    fn s01_mean() { let s = samples::<2, 3>(&X); match mean(&s) { Ok(m) => { for j in 0..2 { eqs(m[j], avg(&s, j), 1e3, "mean"); } } Err(_) => check(false, "samples have a mean") } let e: [Vector<f64, 2>; 0] = []; check(mean(&e) == Err(CovarianceError::EmptySamples), "no samples, no mean"); }
    fn s01_cov() {
        let s = samples::<2, 3>(&X);
        match sample_covariance(&s) { Ok(c) => {
            for i in 0..2 { for j in 0..2 { eqs(c.data[i][j], co(&s, &s, i, j), 1e6, "covariance"); } le(-1e-6, c.data[i][i], "variances are not negative"); } eqs(c.data[0][1], c.data[1][0], 1e6, "symmetric");
            // Lagrange: the determinant is a sum of squares
            let (a, d): ([f64; 3], [f64; 3]) = (core::array::from_fn(|k| s[k][0] - avg(&s, 0)), core::array::from_fn(|k| s[k][1] - avg(&s, 1)));
            eqs(c.data[0][0] * c.data[1][1] - sq(c.data[0][1]), (sq(a[0] * d[1] - a[1] * d[0]) + sq(a[0] * d[2] - a[2] * d[0]) + sq(a[1] * d[2] - a[2] * d[1])) / 4., 1e12, "the determinant is a sum of squares");
        } Err(_) => check(false, "samples have a covariance") }
        check(matches!(sample_covariance(&s[..1]), Err(CovarianceError::InsufficientSamples)), "one sample has no covariance"); check(matches!(sample_covariance(&s[..0]), Err(CovarianceError::EmptySamples)), "no samples, no covariance");
    }
    fn s01_cross() {
        let (s, t) = (samples::<2, 3>(&X), samples::<1, 3>(&Y));
        match sample_cross_covariance(&s, &t) { Ok(c) => for i in 0..2 { eqs(c.data[i][0], co(&s, &t, i, 0), 1e6, "cross covariance"); }, Err(_) => check(false, "samples have a cross covariance") }
        if let (Ok(a), Ok(c)) = (sample_cross_covariance(&s, &s), sample_covariance(&s)) { for i in 0..2 { for j in 0..2 { eqs(a.data[i][j], c.data[i][j], 1e6, "covariance is cross covariance with itself"); } } }
        check(matches!(sample_cross_covariance(&s[..2], &t), Err(CovarianceError::SampleCountMismatch)), "unequal counts"); check(matches!(sample_cross_covariance(&s[..1], &t[..1]), Err(CovarianceError::InsufficientSamples)), "one sample"); check(matches!(sample_cross_covariance(&s[..0], &t[..0]), Err(CovarianceError::EmptySamples)), "no samples");
    }
    fn s01_two_samples() { let s = samples::<3, 2>(&X); let t = samples::<2, 2>(&Y); sizes(&s, &t); }
    fn s01_four_samples() { let s = samples::<1, 4>(&X); let t = samples::<2, 4>(&Y); sizes(&s, &t); }
    fn s01_corr() {
        let c = [[f("c00", 1e-6, 1e6), f("c01", -1e6, 1e6), f("c02", -1e6, 1e6)], [f("c10", -1e6, 1e6), f("c11", 1e-6, 1e6), f("c12", -1e6, 1e6)], [f("c20", -1e6, 1e6), f("c21", -1e6, 1e6), f("c22", 1e-6, 1e6)]]; let m = Matrix::new(c);
        if let (Ok(s), Ok(r)) = (standard_deviations_from_covariance(&m), correlation_from_covariance(&m)) {
            for i in 0..3 { eqs(sq(s[i]), c[i][i], c[i][i], "standard deviation squares to the variance"); lt(0., s[i], "standard deviation is positive"); eq(r.data[i][i], 1., "unit diagonal"); for j in 0..3 { eqs(r.data[i][j] * s[i] * s[j], c[i][j], 1e6, "correlation times deviations is covariance"); } }
            let z = covariance_from_correlation(&r, &s); for i in 0..3 { for j in 0..3 { eqs(z.data[i][j], c[i][j], 1e6, "covariance comes back"); } }
        } else { check(false, "positive variances have a correlation") }
    }
    fn s01_corr_range() {
        let (a, d, k) = (f("c00", 1e-3, 1e3), f("c11", 1e-3, 1e3), f("c01", -1e3, 1e3)); assume(k * k <= a * d); let m = Matrix::new([[a, k], [k, d]]);
        if let Ok(r) = correlation_from_covariance(&m) { le(sq(r.data[0][1]), 1. + 1e-9, "correlations are within one"); eq(r.data[0][1], r.data[1][0], "symmetric"); } else { check(false, "positive variances have a correlation") }
    }
    fn s01_degenerate() { let (a, d) = (f("c00", -1., 1.), f("c11", 1e-3, 1.)); assume(a <= 0.); check(matches!(correlation_from_covariance(&Matrix::new([[a, 0.], [0., d]])), Err(CovarianceError::ZeroVarianceAxis)), "an axis without variance is reported"); check(matches!(standard_deviations_from_covariance(&Matrix::new([[d, 0.], [0., a]])), Err(CovarianceError::ZeroVarianceAxis)), "an axis without variance is reported"); }
    // ---------------------------------------------------------------- S02
    fn s02_bernoulli() {
        let p = f("p", 0., 1.); let d = Bernoulli::new(p); let k = u("k", 0, 255) as u8; eq(d.pmf(0) + d.pmf(1), 1., "outcomes sum to one"); le(0., d.pmf(k), "not negative"); eq(d.pmf(1), p, "success probability"); if k > 1 { eq(d.pmf(k), 0., "impossible outcomes"); }
        let s = [u("a", 0, 1) as u8, u("b", 0, 1) as u8, u("c", 0, 1) as u8]; let e = Bernoulli::<f64>::fit_mle(&s); eqs(e.p * 3., s[0] as f64 + s[1] as f64 + s[2] as f64, 3., "fitted to the sample mean"); le(0., e.p, "fitted probability"); le(e.p, 1., "fitted probability"); eq(Bernoulli::<f64>::fit_mle(&[]).p, 0., "no samples");
    }
    fn s02_categorical() {
        let c = [u("a", 0, 1 << 20) as usize, u("b", 0, 1 << 20) as usize, u("c", 0, 1 << 20) as usize]; let d = Categorical::<f64>::fit_mle(&c); let t = (c[0] + c[1] + c[2]) as f64;
        for k in 0..3 { le(0., d.pmf(k), "not negative"); eqs(d.pmf(k) * t, c[k] as f64, 1e6, "frequency"); le(d.pmf(k), 1., "at most one"); } if t > 0. { eq(d.pmf(0) + d.pmf(1) + d.pmf(2), 1., "probabilities sum to one"); } eq(d.pmf(3), 0., "unknown category"); eq(d.pmf(usize::MAX), 0., "unknown category");
    }
    fn s02_gaussian() {
        let (m, s, d, e) = (f("mu", -1e3, 1e3), f("sigma", 1e-3, 1e3), f("d", -1e3, 1e3), f("e", -1e3, 1e3)); let g = Gaussian::new(m, s);
        eqs(sq(g.pdf(m + d) * s) * 2. * PI, (-(d * d) / (s * s)).exp(), 1., "density"); eqs(g.pdf(m + d), g.pdf(m - d), 1e3, "symmetric about the mean"); lt(0., g.pdf(m + d), "positive");
        le(g.pdf(m + d), g.pdf(m), "greatest at the mean"); if d * d <= e * e { le(g.pdf(m + e), g.pdf(m + d), "falls away from the mean"); }
    }
    fn s02_gaussian_fit() {
        let s = [f("a", -1e3, 1e3), f("b", -1e3, 1e3), f("c", -1e3, 1e3)]; assume(sq(s[0] - s[1]) >= 1e-6); let g = Gaussian::fit_mle(&s); let m = (s[0] + s[1] + s[2]) / 3.; eqs(g.mu, m, 1e3, "fitted mean"); let v = (sq(s[0] - m) + sq(s[1] - m) + sq(s[2] - m)) / 3.; eqs(sq(g.sigma), v, 1e6, "fitted variance"); lt(0., g.sigma, "fitted deviation is positive");
        let x = f("x", -1e3, 1e3); let g = Gaussian::fit_mle(&[x, x]); eqs(g.mu, x, 1e3, "mean of equal samples"); lt(0., g.sigma, "equal samples keep a positive deviation"); le(g.sigma, 1e-9, "equal samples have a negligible deviation"); let g = Gaussian::<f64>::fit_mle(&[]); eq(g.mu, 0., "no samples"); eq(g.sigma, 1., "no samples");
    }
    fn s02_gaussian_sample() {
        let (m, s) = (f("mu", -1e3, 1e3), f("sigma", 0., 1e3)); for k in 1..4u64 { let (mut a, mut c) = (XorShift64Star::new(k), XorShift64Star::new(k)); let z = Gaussian::new(0., 1.).sample(&mut a); eqs(Gaussian::new(m, s).sample(&mut c), m + s * z, 1e4, "a sample is the mean plus deviation times a standard sample"); check(a.next_u64() == c.next_u64(), "the stream advances alike"); }
    }
    fn s02_mvn() {
        let (m, n, s, t, x, y) = (f("m", -10., 10.), f("n", -10., 10.), f("s", 0.1, 10.), f("t", 0.1, 10.), f("x", -10., 10.), f("y", -10., 10.));
        let one = MultivariateNormal::new(Vector::new([m]), Matrix::new([[s * s]])); eqs(sq(one.pdf(&Vector::new([x]))), sq(Gaussian::new(m, s).pdf(x)), 100., "one dimension is a Gaussian"); lt(0., one.pdf(&Vector::new([x])), "positive");
        let two = MultivariateNormal::new(Vector::new([m, n]), Matrix::new([[s * s, 0.], [0., t * t]])); let (u, v) = (x - m, y - n);
        eqs(sq(two.pdf(&Vector::new([x, y])) * s * t) * (4. * PI * PI), (-(u * u * t * t + v * v * s * s) / (s * s * t * t)).exp(), 1., "uncorrelated axes multiply"); lt(0., two.pdf(&Vector::new([x, y])), "positive");
    }
    fn s02_mvn_general() {
        let (k, r, u, v) = (f("k", 0.01, 0.6), f("r", 0.5, 10.), f("x", -10., 10.), f("y", -10., 10.));
        // covariance L L^T, dominant on its first axis
        for (p, q) in [(0.75, k), (2., -k)] {
            let w = MultivariateNormal::new(Vector::new([0., 0.]), Matrix::new([[p * p, p * q], [p * q, q * q + r * r]]));
            eqs(sq(w.pdf(&Vector::new([u, v])) * p * r) * (4. * PI * PI), (-((q * q + r * r) * u * u - 2. * p * q * u * v + p * p * v * v) / (p * p * r * r)).exp(), 1., "density of a correlated pair"); lt(0., w.pdf(&Vector::new([u, v])), "positive");
        }
    }
    // ---------------------------------------------------------------- K01
    fn k01_matrix() {
        let (a, c) = (Matrix::new([[anyf("a0"), anyf("a1")]]), Matrix::new([[anyf("b0"), anyf("b1")]])); let t = anyf("tol"); assume(t >= 0.);
        let w = bad(a.data[0][0], c.data[0][0], t) || bad(a.data[0][1], c.data[0][1], t); check(matrix_approx_eq(&a, &c, t).is_err() == w, "matrices compare entry by entry"); panic_ok(w); assert_matrix_approx_eq(&a, &c, t); check(!w, "the assertion fails on a difference");
    }
    fn k01_vector() {
        let (a, c) = (Vector::new([anyf("a0"), anyf("a1")]), Vector::new([anyf("b0"), anyf("b1")])); let t = anyf("tol"); assume(t >= 0.);
        let w = bad(a[0], c[0], t) || bad(a[1], c[1], t); check(vector_approx_eq(&a, &c, t).is_err() == w, "vectors compare entry by entry"); panic_ok(w); assert_vector_approx_eq(&a, &c, t); check(!w, "the assertion fails on a difference");
    }
    fn k01_max_diff() { let (a, c) = ([anyf("a0"), anyf("a1")], [anyf("b0"), anyf("b1")]); assume(!(a[0] - c[0]).is_nan() && !(a[1] - c[1]).is_nan()); maxdiff(a, c); }
    fn k01_max_diff_nan() { let (a, c) = ([anyf("a0"), anyf("a1")], [anyf("b0"), anyf("b1")]); assume((a[0] - c[0]).is_nan() || (a[1] - c[1]).is_nan()); maxdiff(a, c); }
    fn k01_finite() {
        let a = [anyf("a0"), anyf("a1"), anyf("a2")]; let w = a.iter().any(|x| !fin(*x)); let m = b("matrix"); panic_ok(w);
        if m { assert_matrix_finite(&Matrix::new([[a[0]], [a[1]], [a[2]]])); } else { assert_vector_finite(&Vector::new(a)); } check(!w, "a non-finite entry is reported");
    }
    fn k01_symmetric() {
        let a: [[f64; 3]; 3] = [[0., anyf("a01"), anyf("a02")], [anyf("a10"), 1., anyf("a12")], [anyf("a20"), anyf("a21"), 2.]]; let t = anyf("tol"); assume(t >= 0.);
        let w = !((a[0][1] - a[1][0]).abs() <= t) || !((a[0][2] - a[2][0]).abs() <= t) || !((a[1][2] - a[2][1]).abs() <= t); panic_ok(w); assert_matrix_symmetric(&Matrix::new(a), t); check(!w, "an asymmetric pair is reported");
    }
    fn k01_grid() { let v = [anyf("v0"), anyf("v1"), anyf("v2")]; assume(!v[0].is_nan() && !v[1].is_nan() && !v[2].is_nan()); grid(v); }
    fn k01_grid_nan() { let v = [anyf("v0"), anyf("v1"), anyf("v2")]; assume(v[0].is_nan() || v[1].is_nan() || v[2].is_nan()); grid(v); }
    // ---------------------------------------------------------------- K01, exact arithmetic
    fn k01_norms() {
        let (a, c): ([f64; 4], [f64; 4]) = (core::array::from_fn(|k| f(X[k], -1e3, 1e3)), core::array::from_fn(|k| f(Y[k], -1e3, 1e3))); let (m, n) = (Matrix::new([[a[0], a[1]], [a[2], a[3]]]), Matrix::new([[c[0], c[1]], [c[2], c[3]]]));
        let (mut s, mut d) = (0., 0.); for k in 0..4 { s += sq(a[k]); d += sq(a[k] - c[k]); } eqs(sq(matrix_frobenius_norm(&m)), s, 1e7, "Frobenius norm"); eqs(sq(matrix_diff_frobenius(&m, &n)), d, 1e7, "Frobenius distance"); le(0., matrix_frobenius_norm(&m), "not negative");
    }
}
