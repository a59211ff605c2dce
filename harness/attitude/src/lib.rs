use aether_core::attitude::{DirectionCosineMatrix as Dcm, Euler, Quaternion, Rotation};
use aether_core::coordinate::Cartesian;
use aether_core::math::{Matrix, Vector};
use aether_core::reference_frame::{Body, ICRF, ITRF, NED};
use sym::*;
type A = ICRF<f64>;
type B = ITRF<f64>;
type C = NED<f64>;
type D = Dcm<f64, A, B>;
type Q = Quaternion<f64, A, B>;
type M3 = [[f64; 3]; 3];
fn q<X: aether_core::reference_frame::ReferenceFrame, Y: aether_core::reference_frame::ReferenceFrame>(n: &'static str) -> Quaternion<f64, X, Y> { let [w, x, y, z] = unit::<4>(n); Quaternion::new(w, x, y, z) }
/// The passive rotation matrix of a unit quaternion.
fn rm(w: f64, x: f64, y: f64, z: f64) -> M3 {
    [[w * w + x * x - y * y - z * z, 2. * (x * y + w * z), 2. * (x * z - w * y)],
     [2. * (x * y - w * z), w * w - x * x + y * y - z * z, 2. * (y * z + w * x)],
     [2. * (x * z + w * y), 2. * (y * z - w * x), w * w - x * x - y * y + z * z]]
}
fn rmq<X: aether_core::reference_frame::ReferenceFrame, Y: aether_core::reference_frame::ReferenceFrame>(q: &Quaternion<f64, X, Y>) -> M3 { let d = &q.data.data; rm(d[0], d[1], d[2], d[3]) }
fn rx(a: f64) -> M3 { let (c, s) = (a.cos(), a.sin()); [[1., 0., 0.], [0., c, s], [0., -s, c]] }
fn ry(a: f64) -> M3 { let (c, s) = (a.cos(), a.sin()); [[c, 0., -s], [0., 1., 0.], [s, 0., c]] }
fn rz(a: f64) -> M3 { let (c, s) = (a.cos(), a.sin()); [[c, s, 0.], [-s, c, 0.], [0., 0., 1.]] }
fn mm(a: &M3, b: &M3) -> M3 {
    let mut r = [[0.; 3]; 3];
    for i in 0..3 { for j in 0..3 { r[i][j] = a[i][0] * b[0][j] + a[i][1] * b[1][j] + a[i][2] * b[2][j]; } }
    r
}
fn mv(a: &M3, v: &[f64; 3]) -> [f64; 3] { let mut r = [0.; 3]; for i in 0..3 { r[i] = a[i][0] * v[0] + a[i][1] * v[1] + a[i][2] * v[2]; } r }
fn tr(a: &M3) -> M3 { let mut r = [[0.; 3]; 3]; for i in 0..3 { for j in 0..3 { r[i][j] = a[j][i]; } } r }
fn zyx(r: f64, p: f64, y: f64) -> M3 { mm(&rx(r), &mm(&ry(p), &rz(y))) }
fn same(a: &M3, b: &M3, n: &'static str) { for i in 0..3 { for j in 0..3 { eq(a[i][j], b[i][j], n); } } }
fn samev(a: &[f64; 3], b: &[f64; 3], s: f64, n: &'static str) { for i in 0..3 { eqs(a[i], b[i], s, n); } }
fn proper(a: &M3, n: &'static str) {
    let p = mm(a, &tr(a));
    for i in 0..3 { for j in 0..3 { eq(p[i][j], (i == j) as u8 as f64, n); } }
    eq(a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]), 1., n);
}
fn vec3() -> [f64; 3] { [real("vx"), real("vy"), real("vz")] }
fn n1(v: &[f64; 3]) -> f64 { 1. + v[0].abs() + v[1].abs() + v[2].abs() }
/// A non-zero quaternion: a unit one times any positive scale.
fn qs(n: &'static str) -> (Q, [f64; 4]) { let [w, x, y, z] = unit::<4>(n); let k = f("scale", 0.001, 1000.); (Quaternion::new(w * k, x * k, y * k, z * k), [w, x, y, z]) }
harness! {
    // ---------------------------------------------------------------- A01
    fn a01_elementary() {
        let t = real("angle");
        let (x, y, z) = (D::rotate_x(t), D::rotate_y(t), D::rotate_z(t));
        same(&x.as_matrix().data, &rx(t), "passive rotation about x");
        same(&y.as_matrix().data, &ry(t), "passive rotation about y");
        same(&z.as_matrix().data, &rz(t), "passive rotation about z");
        proper(&x.as_matrix().data, "rotate_x proper"); proper(&y.as_matrix().data, "rotate_y proper"); proper(&z.as_matrix().data, "rotate_z proper");
    }
    fn a01_euler() {
        let d = D::from(Euler::new(real("roll"), real("pitch"), real("yaw")));
        proper(&d.as_matrix().data, "matrix of Euler angles");
    }
    fn a01_euler_quaternion() {
        let e = Euler::<f64, A, B>::new(real("roll"), real("pitch"), real("yaw"));
        let p = Q::from(&e);
        eq(p.norm2(), 1., "unit norm");
    }
    fn a01_quaternion() {
        let p: Q = q("q");
        proper(&D::from(&p).as_matrix().data, "matrix from a unit quaternion");
        proper(&D::from(p).as_matrix().data, "matrix from an owned unit quaternion");
        eq(p.norm(), 1., "norm");
    }
    fn a01_to_dcm() {
        let (p, _) = qs("q");
        proper(&p.to_dcm().as_matrix().data, "to_dcm of any non-zero quaternion");
        let n = p.normalized();
        eq(n.norm2(), 1., "normalized");
    }
    fn a01_axis_angle() {
        let u = unit::<3>("axis"); let k = f("len", 0.001, 1000.); let t = f("angle", -100., 100.);
        let p = Q::from_axis_angle(Vector::new([u[0] * k, u[1] * k, u[2] * k]), t);
        let (c, s) = ((t / 2.).cos(), (t / 2.).sin());
        eq(p.w(), c, "cosine of half the angle");
        eq(p.i(), u[0] * s, "axis x"); eq(p.j(), u[1] * s, "axis y"); eq(p.k(), u[2] * s, "axis z");
    }
    // ---------------------------------------------------------------- A02
    fn a02_rotate_vector() {
        let (p, [w, x, y, z]) = qs("q"); let v = vec3(); let e = mv(&rm(w, x, y, z), &v); let s = n1(&v);
        samev(&p.rotate_vector(Vector::new(v)).data, &e, s, "rotate_vector is the passive rotation");
        samev(&p.rotate_vec(&Vector::new(v)).data, &e, s, "rotate_vec");
        let c = Cartesian::<f64, A>::new(v[0], v[1], v[2]);
        samev(&p.rotate_cartesian(c).data.data, &e, s, "rotate_cartesian");
        samev(&(p * c).data.data, &e, s, "quaternion times position"); samev(&(&p * &c).data.data, &e, s, "by reference");
        samev(&(&p * c).data.data, &e, s, "by reference and value"); samev(&(p * &c).data.data, &e, s, "by value and reference");
        samev(&c.transform(&p).data.data, &e, s, "transform");
    }
    fn a02_quaternion_dcm() {
        let p: Q = q("q"); let d = D::from(&p);
        same(&d.as_matrix().data, &rmq(&p), "matrix of the quaternion");
        same(&D::from(p).as_matrix().data, &rmq(&p), "matrix of the owned quaternion");
    }
    fn a02_to_dcm() {
        let (p, [w, x, y, z]) = qs("q");
        same(&p.to_dcm().as_matrix().data, &rm(w, x, y, z), "to_dcm rotates as the quaternion does");
    }
    fn a02_dcm_vector() {
        let p: Q = q("q"); let m = rmq(&p); let v = vec3(); let e = mv(&m, &v); let s = n1(&v);
        let d = D::from_matrix(Matrix::new(m)); let c = Cartesian::<f64, A>::new(v[0], v[1], v[2]);
        samev(&(d * c).data.data, &e, s, "matrix times position"); samev(&(&d * &c).data.data, &e, s, "by reference");
        samev(&(&d * c).data.data, &e, s, "by reference and value"); samev(&(d * &c).data.data, &e, s, "by value and reference");
    }
    fn a02_dcm_parts() {
        let m = [[real("m11"), real("m12"), real("m13")], [real("m21"), real("m22"), real("m23")], [real("m31"), real("m32"), real("m33")]];
        let d = D::new(m[0][0], m[0][1], m[0][2], m[1][0], m[1][1], m[1][2], m[2][0], m[2][1], m[2][2]);
        same(&d.as_matrix().data, &m, "entries in row order");
        same(&D::from(&Matrix::new(m)).as_matrix().data, &m, "from a matrix");
        same(&[[d.m11(), d.m12(), d.m13()], [d.m21(), d.m22(), d.m23()], [d.m31(), d.m32(), d.m33()]], &m, "accessors");
        same(&d.transpose().as_matrix().data, &tr(&m), "transpose");
    }
    fn a02_euler_dcm() {
        let (r, p, y) = (real("roll"), real("pitch"), real("yaw"));
        let d = D::from(Euler::new(r, p, y));
        same(&d.as_matrix().data, &zyx(r, p, y), "yaw, then pitch, then roll");
    }
    fn a02_euler_quaternion() {
        let (r, p, y) = (real("roll"), real("pitch"), real("yaw"));
        let g = Q::from(&Euler::<f64, A, B>::new(r, p, y));
        same(&rmq(&g), &zyx(r, p, y), "quaternion of Euler angles rotates like them");
    }
    fn a02_quaternion_euler() {
        let p: Q = q("q"); let m = rmq(&p);
        assume(m[0][2] <= 1. - 1e-12); assume(m[0][2] >= -1. + 1e-12);
        let e = Euler::<f64, A, B>::from(&p);
        same(&zyx(e.roll(), e.pitch(), e.yaw()), &m, "Euler angles of a quaternion rotate like it");
    }
    fn a02_dcm_euler() {
        let p: Q = q("q"); let m = rmq(&p);
        assume(m[0][2] <= 1. - 1e-12); assume(m[0][2] >= -1. + 1e-12);
        let e = Euler::<f64, A, B>::from(&D::from_matrix(Matrix::new(m)));
        same(&zyx(e.roll(), e.pitch(), e.yaw()), &m, "Euler angles of a matrix rotate like it");
    }
    fn a02_gimbal_dcm() {
        let a = real("a"); let s = if b("up") { 1. } else { -1. };
        let m = [[0., 0., -s], [-a.sin(), a.cos(), 0.], [s * a.cos(), s * a.sin(), 0.]];
        let e = Euler::<f64, A, B>::from(&D::from_matrix(Matrix::new(m)));
        same(&zyx(e.roll(), e.pitch(), e.yaw()), &m, "Euler angles of a matrix in gimbal lock rotate like it");
    }
    fn a02_gimbal_quaternion() {
        let a = real("a"); let s = if b("up") { 1. } else { -1. };
        let h = core::f64::consts::FRAC_1_SQRT_2; let (c, t) = (a.cos() * h, a.sin() * h);
        let p = Q::new(c, t, s * c, -s * t);
        let e = Euler::<f64, A, B>::from(&p);
        same(&zyx(e.roll(), e.pitch(), e.yaw()), &rmq(&p), "Euler angles of a quaternion in gimbal lock rotate like it");
    }
    // ---------------------------------------------------------------- A03
    fn a03_recover() {
        let p: Q = q("q"); let m = rmq(&p);
        let r = Q::try_from(&D::from_matrix(Matrix::new(m)));
        check(r.is_ok(), "always succeeds");
        if let Ok(g) = r {
            eq(g.norm2(), 1., "unit norm");
            same(&rmq(&g), &m, "same rotation");
        }
    }
    fn a03_wrapper() {
        let p: Q = q("q");
        let r = Rotation::<f64, A, B>::try_from(&D::from_matrix(Matrix::new(rmq(&p))));
        check(r.is_ok(), "always succeeds");
        if let Ok(g) = r { let g = g.quaternion(); eq(g.dot(&p) * g.dot(&p), 1., "same attitude"); }
    }
    // ---------------------------------------------------------------- A04
    fn a04_quaternion() {
        let p: Q = q("p"); let g: Quaternion<f64, B, C> = q("g");
        let e = mm(&rmq(&g), &rmq(&p));
        let c: Quaternion<f64, A, C> = g * p;
        same(&rmq(&c), &e, "first the right factor, then the left");
        let c: Quaternion<f64, A, C> = &g * &p;
        same(&rmq(&c), &e, "by reference");
    }
    fn a04_dcm() {
        let p: Q = q("p"); let g: Quaternion<f64, B, C> = q("g");
        let e = mm(&rmq(&g), &rmq(&p));
        let c: Dcm<f64, A, C> = Dcm::from_matrix(Matrix::new(rmq(&g))) * D::from_matrix(Matrix::new(rmq(&p)));
        same(&c.as_matrix().data, &e, "first the right factor, then the left");
    }
    fn a04_compose() {
        let p: Q = q("p"); let g: Quaternion<f64, B, C> = q("g");
        let r = Rotation::from_quaternion(p).compose(&Rotation::from_quaternion(g));
        same(&rmq(r.quaternion()), &mm(&rmq(&g), &rmq(&p)), "first self, then the argument");
        let n = Rotation::from(&(p * 3.)); 
        same(&rmq(n.quaternion()), &rmq(&p), "a rotation normalises its quaternion");
    }
    fn a04_inverse() {
        let (p, [w, x, y, z]) = qs("q");
        let i = p.inverse(); let e: Quaternion<f64, A, A> = i * p;
        eq(e.w(), 1., "inverse times itself"); eq(e.i(), 0., "no rotation left"); eq(e.j(), 0., "no rotation left"); eq(e.k(), 0., "no rotation left");
        let v = vec3();
        samev(&i.rotate_vector(p.rotate_vector(Vector::new(v))).data, &v, n1(&v), "inverse undoes the rotation");
        samev(&p.conjugate().rotate_vector(Vector::new(v)).data, &mv(&tr(&rm(w, x, y, z)), &v), n1(&v), "conjugate rotates backwards");
    }
    fn a04_algebra() {
        let a: Q = Quaternion::new(real("aw"), real("ax"), real("ay"), real("az")); let c: Q = Quaternion::new(real("bw"), real("bx"), real("by"), real("bz")); let k = real("k");
        let s = a + c; let d = a - c; let m = a * k; let n = -a;
        for j in 0..4 { eq(s.data.data[j], a.data.data[j] + c.data.data[j], "sum"); eq(d.data.data[j], a.data.data[j] - c.data.data[j], "difference"); eq(m.data.data[j], a.data.data[j] * k, "scaled"); eq(n.data.data[j], -a.data.data[j], "negated"); }
        assume(k != 0.);
        let v = a / k;
        for j in 0..4 { eqs(v.data.data[j] * k, a.data.data[j], 1. + a.data.data[j].abs(), "divided"); }
        let h = a.mul_hamilton_same(&c);
        let ([w, x, y, z], [p, q, r, t]) = (a.data.data, c.data.data);
        eq(h.w(), w * p - x * q - y * r - z * t, "Hamilton w"); eq(h.i(), w * q + x * p + y * t - z * r, "Hamilton i");
        eq(h.j(), w * r - x * t + y * p + z * q, "Hamilton j"); eq(h.k(), w * t + x * r - y * q + z * p, "Hamilton k");
        eq(a.dot(&c), w * p + x * q + y * r + z * t, "dot"); eq(a.norm2(), w * w + x * x + y * y + z * z, "squared norm");
        let i = Q::identity(); eq(i.w(), 1., "identity"); eq(i.i() * i.i() + i.j() * i.j() + i.k() * i.k(), 0., "identity");
    }
    // ---------------------------------------------------------------- A05
    fn a05_delta() {
        let u = unit::<3>("axis"); let m = f("rate", 1e-9, 1000.); let dt = f("dt", -1e6, 1e6);
        let d = Quaternion::<f64, A, A>::from_angular_velocity(Vector::new([u[0] * m, u[1] * m, u[2] * m]), dt);
        let h = m * dt * 0.5; let (c, s) = (h.cos(), h.sin());
        eq(d.w(), c, "half the turned angle"); eq(d.i(), u[0] * s, "about the rate"); eq(d.j(), u[1] * s, "about the rate"); eq(d.k(), u[2] * s, "about the rate");
        let z = Quaternion::<f64, A, A>::from_angular_velocity(Vector::new([0., 0., 0.]), dt);
        eq(z.w(), 1., "zero rate"); eq(z.i() * z.i() + z.j() * z.j() + z.k() * z.k(), 0., "zero rate");
    }
    fn a05_integrate() {
        let p: Q = q("q"); let u = unit::<3>("axis"); let m = f("rate", 1e-9, 1000.); let dt = f("dt", -1e6, 1e6);
        let r = Rotation::from_quaternion(p).integrate(Vector::new([u[0] * m, u[1] * m, u[2] * m]), dt);
        let g = r.quaternion();
        eq(g.norm2(), 1., "unit norm");
        // body rates: the new attitude is the old one followed by the body turning by rate times step
        let h = m * dt * 0.5; let (c, s) = (h.cos(), h.sin());
        same(&rmq(g), &mm(&rm(c, u[0] * s, u[1] * s, u[2] * s), &rmq(&p)), "turned by rate times step about the body rate");
    }
    fn a05_zero() {
        let p: Q = q("q"); let dt = real("dt");
        let r = Rotation::from_quaternion(p).integrate(Vector::new([0., 0., 0.]), dt);
        for j in 0..4 { eq(r.quaternion().data.data[j], p.data.data[j], "a zero rate changes nothing"); }
    }
    fn a05_taylor() {
        let p: Q = q("q"); let o = [f("wx", -10., 10.), f("wy", -10., 10.), f("wz", -10., 10.)]; let dt = f("dt", -1., 1.);
        let m2 = (o[0] * o[0] + o[1] * o[1] + o[2] * o[2]) * dt * dt;
        // the exact step cos(m dt/2) + u sin(m dt/2), expanded to third order
        let c = 1. - m2 / 8.; let s = dt / 2. - dt * m2 / 48.;
        assume(c >= 0.5);
        let e = p.mul_hamilton_same(&Quaternion::new(c, o[0] * s, o[1] * s, o[2] * s)).data.data;
        // some component of the product is at least a quarter in size
        let k = i("largest", 0, 3) as usize; let h = if b("positive") { 1. } else { -1. };
        assume(e[k] * h >= 0.25);
        let g = p.integrate(Cartesian::new(o[0], o[1], o[2]), Cartesian::new(0., 0., 0.), dt);
        let g = g.data.data;
        for j in 1..4 { for i in 0..j { eqs(g[i] * e[j], g[j] * e[i], 1. + m2, "third-order step of a constant rate"); } }
        check(g[k] * h > 0., "third-order step of a constant rate");
        eq(g[0] * g[0] + g[1] * g[1] + g[2] * g[2] + g[3] * g[3], 1., "unit norm");
    }
    fn a05_taylor_acc() {
        let o = [f("wx", -10., 10.), f("wy", -10., 10.), f("wz", -10., 10.)]; let a = [f("ax", -10., 10.), f("ay", -10., 10.), f("az", -10., 10.)]; let dt = f("dt", -0.05, 0.05);
        let (w, z) = (Q::new(0., o[0], o[1], o[2]), Q::new(0., a[0], a[1], a[2]));
        let d1 = w * 0.5; let d2 = w.mul_hamilton_same(&w) * 0.25 + z * 0.5;
        // derivative of half q w along q' = half q w, w' = a
        let d3 = w.mul_hamilton_same(&w).mul_hamilton_same(&w) * 0.125 + z.mul_hamilton_same(&w) * 0.25 + w.mul_hamilton_same(&z) * 0.5;
        let e = Q::identity() + d1 * dt + d2 * (dt * dt / 2.) + d3 * (dt * dt * dt / 6.);
        assume(e.w() >= 0.5);
        let g = Q::identity().integrate(Cartesian::new(o[0], o[1], o[2]), Cartesian::new(a[0], a[1], a[2]), dt);
        let (g, e) = (g.data.data, e.data.data);
        for j in 1..4 { for i in 0..j { eqs(g[i] * e[j], g[j] * e[i], 1., "third-order step of a constant acceleration"); } }
        check(g[0] > 0., "third-order step of a constant acceleration");
    }
    // ---------------------------------------------------------------- A06
    fn a06_dcm() {
        let (r, p, y) = (f("roll", -10., 10.), f("pitch", -core::f64::consts::FRAC_PI_2, core::f64::consts::FRAC_PI_2), f("yaw", -10., 10.)); assume(p.cos() >= 1e-6);
        let e = Euler::<f64, A, B>::from(&D::from_matrix(Matrix::new(zyx(r, p, y))));
        ang(e.roll(), r, "roll recovered"); ang(e.pitch(), p, "pitch recovered"); ang(e.yaw(), y, "yaw recovered");
    }
    fn a06_quaternion() {
        let (r, p, y) = (f("roll", -10., 10.), f("pitch", -core::f64::consts::FRAC_PI_2, core::f64::consts::FRAC_PI_2), f("yaw", -10., 10.)); assume(p.cos() >= 1e-6);
        let e = Euler::<f64, A, B>::from(&Q::from(&Euler::new(r, p, y)));
        ang(e.roll(), r, "roll recovered"); ang(e.pitch(), p, "pitch recovered"); ang(e.yaw(), y, "yaw recovered");
    }
    fn a06_arithmetic() {
        let a = Euler::<f64, A, B>::new(real("ar"), real("ap"), real("ay")); let c = Euler::<f64, A, B>::new(real("br"), real("bp"), real("by")); let k = real("k");
        let s = a + c; let d = a - c; let m = a * k; let n = -a; let (t, u, v) = (&a + &c, a + &c, &a + c); let (x, y, z) = (&a - &c, a - &c, &a - c); let mut g = a; g += c; let mut h = a; h += &c;
        let (m2, n2) = (&a * k, -&a); let w = f("w", 0.001, 1000.) * if b("flip") { -1. } else { 1. }; let (q1, q2) = (a / w, &a / w);
        for j in 0..3 {
            let (p, q) = (a.data.data[j], c.data.data[j]);
            for e in [s, t, u, v, g, h] { eq(e.data.data[j], p + q, "sum"); }
            for e in [d, x, y, z] { eq(e.data.data[j], p - q, "difference"); }
            eq(m.data.data[j], p * k, "scaled"); eq(m2.data.data[j], p * k, "scaled"); eqs(q1.data.data[j] * w, p, 1. + p * p, "divided"); eqs(q2.data.data[j] * w, p, 1. + p * p, "divided"); eq(n.data.data[j], -p, "negated"); eq(n2.data.data[j], -p, "negated");
        }
    }
    fn a06_degrees() {
        let d = [f("r", -1000., 1000.), f("p", -1000., 1000.), f("y", -1000., 1000.)];
        let e = Euler::<f64, A, B>::from_degrees_vec(Vector::new(d)); let t = e.to_degrees_vec();
        for j in 0..3 { eqs(e.data.data[j] * 180., d[j] * core::f64::consts::PI, 1. + d[j].abs(), "radians"); eqs(t.data[j], d[j], 1. + d[j].abs(), "back to degrees"); }
    }
}
