use aether_core::attitude::{DirectionCosineMatrix as Dcm, Quaternion};
use aether_core::coordinate::{Cartesian, Cylindrical, Spherical};
use aether_core::math::{Matrix, Vector};
use aether_core::reference_frame::{transforms as tf, Assembly, Body, Pose, RotatingFrame, ICRF, ITRF, NED};
use geo::*;
use sym::*;
type Ca = Cartesian<f64, ICRF<f64>>;
type Ce = Cartesian<f64, ITRF<f64>>;
fn cart() -> (Ca, [f64; 3], f64) { let v = vec3(); (Ca::new(v[0], v[1], v[2]), v, n1(&v)) }
harness! {
    // ---------------------------------------------------------------- F01
    fn f01_to_spherical() {
        let (c, v, s) = cart(); let p = Spherical::from(&c);
        eqs(p.r() * p.r(), dot(&v, &v), s * s, "radius squared"); le(0., p.r(), "radius is not negative");
        le(0., p.theta(), "inclination at least zero"); le(p.theta(), core::f64::consts::PI, "inclination at most pi");
        eqs(p.r() * p.theta().cos(), v[2], s, "height from inclination");
        eqs(v[0] * p.phi().sin(), v[1] * p.phi().cos(), s, "azimuth direction");
        le(0., v[0] * p.phi().cos() + v[1] * p.phi().sin(), "azimuth points outwards");
    }
    fn f01_spherical_roundtrip() {
        let (c, v, s) = cart(); let p = Spherical::from(&c); let d = Ca::from(&p);
        samev(&d.data.data, &v, s, "Cartesian to spherical and back");
    }
    fn f01_from_spherical() {
        let (r, az, inc) = (real("r"), real("azimuth"), real("inclination"));
        let c = Ca::from(&Spherical::new(r, az, inc)); let s = 1. + sq(r);
        eqs(c.x(), r * inc.sin() * az.cos(), s, "x"); eqs(c.y(), r * inc.sin() * az.sin(), s, "y"); eqs(c.z(), r * inc.cos(), s, "z");
        eqs(dot(&c.data.data, &c.data.data), r * r, s * s, "distance is the radius");
    }
    fn f01_spherical_back() {
        let (r, az, inc) = (f("r", 1e-3, 1e9), f("azimuth", -3.1, 3.1), f("inclination", 1e-3, 3.14));
        assume(inc.sin() >= 1e-3);
        let c = Ca::from(&Spherical::new(r, az, inc)); let p = Spherical::from(&c);
        eqs(p.r(), r, r, "radius"); ang(p.phi(), az, "azimuth"); ang(p.theta(), inc, "inclination");
    }
    fn f01_to_cylindrical() {
        let (c, v, s) = cart(); let p = Cylindrical::from(&c);
        eqs(p.r() * p.r(), v[0] * v[0] + v[1] * v[1], s * s, "radius squared"); le(0., p.r(), "radius is not negative");
        eqs(p.z(), v[2], s, "height");
        eqs(p.r() * p.theta().cos(), v[0], s, "azimuth, x"); eqs(p.r() * p.theta().sin(), v[1], s, "azimuth, y");
        samev(&Ca::from(&p).data.data, &v, s, "Cartesian to cylindrical and back");
    }
    fn f01_cylindrical_back() {
        let (r, az, z) = (f("r", 1e-3, 1e9), f("azimuth", -3.1, 3.1), real("z"));
        let c = Ca::from(&Cylindrical::new(r, az, z)); let s = 1. + r + sq(z);
        eqs(c.x(), r * az.cos(), s, "x"); eqs(c.y(), r * az.sin(), s, "y"); eqs(c.z(), z, s, "z");
        let p = Cylindrical::from(&c);
        eqs(p.r(), r, s, "radius"); ang(p.theta(), az, "azimuth"); eqs(p.z(), z, s, "height");
    }
    fn f01_spherical_cylindrical() {
        let (r, az, inc) = (real("r"), real("azimuth"), real("inclination"));
        let p = Spherical::new(r, az, inc); let c = Cylindrical::from(&p); let s = 1. + sq(r);
        eqs(c.r(), r * inc.sin(), s, "cylinder radius"); eqs(c.theta(), az, s, "azimuth kept"); eqs(c.z(), r * inc.cos(), s, "height");
        samev(&Ca::from(&c).data.data, &Ca::from(&p).data.data, s, "same point");
    }
    fn f01_cylindrical_spherical() {
        let (r, az, z) = (f("r", 0., 1e9), real("azimuth"), f("z", -1e9, 1e9));
        let c = Cylindrical::new(r, az, z); let p = Spherical::from(&c); let s = 1. + r + sq(z);
        eqs(p.r() * p.r(), r * r + z * z, s * s, "radius squared"); le(0., p.r(), "radius is not negative");
        le(0., p.theta(), "inclination at least zero"); le(p.theta(), core::f64::consts::PI, "inclination at most pi");
        eqs(p.phi(), az, 1., "azimuth kept"); eqs(p.r() * p.theta().cos(), z, s, "height");
        samev(&Ca::from(&p).data.data, &Ca::from(&c).data.data, s, "same point");
    }
    fn f01_ops() {
        let (a, v, s1) = cart(); let w = [real("wx"), real("wy"), real("wz")]; let b = Ca::new(w[0], w[1], w[2]); let s = s1 * n1(&w); let k = real("k");
        let sum = [v[0] + w[0], v[1] + w[1], v[2] + w[2]]; let dif = [v[0] - w[0], v[1] - w[1], v[2] - w[2]];
        for r in [a + b, &a + &b, &a + b, a + &b] { samev(&r.data.data, &sum, s, "sum"); }
        for r in [a - b, &a - &b, &a - b, a - &b] { samev(&r.data.data, &dif, s, "difference"); }
        let mut c = a; c += b; samev(&c.data.data, &sum, s, "add-assign"); let mut c = a; c -= b; samev(&c.data.data, &dif, s, "sub-assign");
        for r in [-a, -&a] { samev(&r.data.data, &[-v[0], -v[1], -v[2]], s, "negation"); }
        for r in [a * k, &a * k] { samev(&r.data.data, &[v[0] * k, v[1] * k, v[2] * k], s * (1. + k.abs()), "scaling"); }
        samev(&a.cross(&b).data.data, &cross(&v, &w), s, "cross product"); eqs(a.dot(&b), dot(&v, &w), s, "dot product");
        eqs(a.norm() * a.norm(), dot(&v, &v), s * s, "norm"); eqs(a.magnitude(), a.norm(), s, "magnitude"); le(0., a.norm(), "norm sign");
        samev(&a.map(|x| 2. * x).data.data, &[2. * v[0], 2. * v[1], 2. * v[2]], s, "map");
        samev(&[a[0], a[1], a[2]], &v, s, "index"); samev(&[a.x(), a.y(), a.z()], &v, s, "components");
        let mut t = 0.; for x in a.iter() { t = 2. * t + *x; } eqs(t, 4. * v[0] + 2. * v[1] + v[2], 10. * s, "iteration order");
        samev(&Ca::zero().data.data, &[0.; 3], 1., "zero");
        samev(&a.powi(2).data.data, &[v[0] * v[0], v[1] * v[1], v[2] * v[2]], s * s, "componentwise square");
        samev(&a.powi_ref(3).data.data, &[v[0] * v[0] * v[0], v[1] * v[1] * v[1], v[2] * v[2] * v[2]], s * s * s, "componentwise cube");
    }
    fn f01_div() {
        let (a, v, s) = cart(); let k = f("k", 0.001, 1000.) * if b("neg") { -1. } else { 1. };
        for r in [a / k, &a / k] { samev(&r.data.data, &[v[0] / k, v[1] / k, v[2] / k], s * 1000., "division"); }
    }
    fn f01_matrix() {
        let (a, v, s) = cart();
        let m = [[real("m11"), real("m12"), real("m13")], [real("m21"), real("m22"), real("m23")], [real("m31"), real("m32"), real("m33")]];
        samev(&(Matrix::new(m) * a).data.data, &mv(&m, &v), s, "matrix times position"); samev(&(Matrix::new(m) * &a).data.data, &mv(&m, &v), s, "by reference");
    }
    fn f01_normalize() {
        let u = unit::<3>("u"); let k = f("len", 1e-3, 1e9);
        samev(&Ca::new(u[0] * k, u[1] * k, u[2] * k).normalize().data.data, &u, 1., "normalized");
    }
    // ---------------------------------------------------------------- F02
    fn f02_icrf_itrf() {
        let (w, t) = (real("rate"), real("time")); let o = Ce::new(real("wx"), real("wy"), w);
        let (a, b) = (tf::icrf_to_itrf(t, o), tf::itrf_to_icrf(t, o)); let e = rz(w * t);
        same(&a.as_matrix().data, &e, "inertial to Earth-fixed turns about z by rate times time");
        same(&b.as_matrix().data, &tr(&e), "Earth-fixed to inertial is the inverse");
        proper(&a.as_matrix().data, "proper"); proper(&b.as_matrix().data, "proper");
        let (c, v, s) = cart(); samev(&(b * (a * c)).data.data, &v, s, "there and back");
    }
    fn f02_itrf_ned() {
        let (la, lo) = (real("lat"), real("lon")); let d = tf::itrf_to_ned(la, lo); let m = &d.as_matrix().data;
        let (cf, sf, cl, sl) = (la.cos(), la.sin(), lo.cos(), lo.sin());
        samev(&m[0], &[-sf * cl, -sf * sl, cf], 1., "first axis points north"); samev(&m[1], &[-sl, cl, 0.], 1., "second axis points east");
        samev(&m[2], &[-cf * cl, -cf * sl, -sf], 1., "third axis points down"); proper(m, "proper");
    }
    fn f02_aircraft_wind() {
        let (al, be) = (real("alpha"), real("beta")); let m = tf::aircraft_wind_to_body(al, be).data;
        let e = mm(&rz(be), &ry(-al)); // wind axes: sideslip after angle of attack
        same(&m, &e, "wind axes from angle of attack and sideslip"); proper(&m, "proper");
        samev(&m[0], &[al.cos() * be.cos(), be.sin(), al.sin() * be.cos()], 1., "first axis is the velocity direction");
    }
    fn f02_aeroballistic_wind() {
        let (al, ph) = (real("alpha"), real("phi")); let m = tf::aeroballistic_wind_to_body(al, ph).data;
        samev(&m[0], &[al.cos(), al.sin() * ph.sin(), al.sin() * ph.cos()], 1., "first axis is the velocity direction"); proper(&m, "proper");
        samev(&m[1], &[0., ph.cos(), -ph.sin()], 1., "second axis lies in the transverse plane");
    }
    fn f02_flight_path() {
        let (h, g) = (real("heading"), real("climb")); let m = tf::flight_path_to_geographic(h, g).data;
        samev(&m[0], &[g.cos() * h.cos(), g.cos() * h.sin(), -g.sin()], 1., "first axis is the velocity direction"); proper(&m, "proper");
        samev(&m[1], &[-h.sin(), h.cos(), 0.], 1., "second axis is horizontal");
    }
    fn f02_body_ned() {
        let (r, p, y) = (real("roll"), real("pitch"), real("yaw")); let m = *tf::body_to_ned(r, p, y).as_matrix();
        let e = tr(&zyx(r, p, y));
        for i in 0..3 { for j in 0..3 { eq(m.data[i][j], e[i][j], "body_to_ned maps body to local-level coordinates"); } }
    }
    fn f02_body_ned_up_to_transpose() {
        let (r, p, y) = (real("roll"), real("pitch"), real("yaw")); let m = tf::body_to_ned(r, p, y).as_matrix().data;
        let e = zyx(r, p, y); let mut n = 0.; let mut t = 0.;
        for i in 0..3 { for j in 0..3 { n += (m[i][j] - e[i][j]) * (m[i][j] - e[i][j]); t += (m[i][j] - e[j][i]) * (m[i][j] - e[j][i]); } }
        eq(n * t, 0., "rotation between body and local level, in one of its directions"); proper(&m, "proper");
    }
    fn f02_rate() {
        let (p, q, r) = (real("p"), real("q"), real("r")); let m = tf::angular_rate_dcm(p, q, r).data; let v = vec3(); let w = [p, q, r];
        samev(&mv(&m, &v), &cross(&w, &v), n1(&v) * n1(&w), "rate matrix times a vector is the cross product");
    }
    fn f02_itrf_orientation() {
        let (e, t) = (f("epoch", -1e9, 1e9), f("t", -1e9, 1e9)); let fr = ITRF { epoch: e };
        let q: Quaternion<f64, _, _> = fr.orientation_at(t); let d = &q.data.data; let h = (t - e) * 7.2921150e-5 / 2.;
        eq(d[0], h.cos(), "half-angle cosine"); eq(d[1], 0., "no x"); eq(d[2], 0., "no y"); eq(d[3], h.sin(), "half-angle sine");
        let o = fr.angular_velocity(); samev(&o.data.data, &[0., 0., 7.2921150e-5], 1e-5, "rate of the Earth"); eq(fr.epoch(), e, "epoch");
        let v = vec3(); let c = Ce::new(v[0], v[1], v[2]); let s = n1(&v);
        samev(&q.rotate_cartesian(c).data.data, &mv(&rz((t - e) * 7.2921150e-5), &v), s, "positions turn with the Earth");
    }
    fn f02_pose_identity() {
        let p = Pose::<f64, Body<f64>>::identity(); let v = vec3(); let c = Cartesian::<f64, Body<f64>>::new(v[0], v[1], v[2]);
        let r: Cartesian<f64, Assembly<f64>> = p.R_local_to_assembly * c + p.r_cm_in_assembly;
        samev(&r.data.data, &v, n1(&v), "identity pose leaves a point");
    }
    fn f02_chain() {
        // inertial -> Earth-fixed -> local level keeps distances and comes back
        let (w, t) = (real("rate"), real("time")); let o = Ce::new(0., 0., w);
        let a = tf::icrf_to_itrf(t, o); let n: Dcm<f64, ITRF<f64>, NED<f64>> = tf::itrf_to_ned(real("lat"), real("lon"));
        let (c, v, s) = cart(); let x = n * (a * c); let y = (n * a) * c;
        eqs(dot(&x.data.data, &x.data.data), dot(&v, &v), s * s, "distance kept");
        samev(&y.data.data, &x.data.data, s, "composed transform");
        let z = tf::itrf_to_icrf(t, o) * (n.transpose() * x); samev(&z.data.data, &v, s, "there and back");
        let _ = Vector::new([0.]);
    }
}
