C='crates/'
REC='GncRecord { gnc_id: 1 }'
SEEDS=[
dict(id='r01-seed-top-bit',property='R01',deps={'aether_rand':[]},edits=[(C+'aether_rand/src/randomizers/xor_shift.rs','            state: if seed == 0 { 0x9E3779B97F4A7C15 } else { seed },','            state: if seed == 0 { 0x9E3779B97F4A7C15 } else { seed & (u64::MAX >> 1) },')],
 needs='the one seed whose only set bit is the top one',breaks='the generator starts in the absorbing zero state',
 main='''use aether_rand::randomizers::*;
fn main() { for k in 0..64 { let mut g = XorShift64Star::new(1u64 << k); let a = g.next_u64(); assert!(a != 0 || g.next_u64() != 0, "{k}"); } }
'''),
dict(id='h01-sub-rotated-inner',property='H01',deps={'aether_shapes':[],'aether_core':['std']},edits=[(C+'aether_shapes/src/attributes.rs','        let Ii_cm = Ri * Ii_prin * Ri.transpose();','        let Ii_cm = Ri.transpose() * Ii_prin * Ri;')],
 needs='cutting out a solid turned by an angle whose sine and cosine are both non-zero',breaks='the hollow is taken with the inverse of its orientation',
 main='''use aether_shapes::{attributes::*, sphere::Sphere, prism::RectangularPrism}; use aether_core::{attitude::DirectionCosineMatrix, math::Matrix, reference_frame::Pose};
fn main() { let (s, c) = (0.6f64, 0.8f64); let r = Matrix { data: [[c, -s, 0.0], [s, c, 0.0], [0.0, 0.0, 1.0]] }; let mut p = Pose::identity(); p.R_local_to_assembly = DirectionCosineMatrix::from_matrix(r);
 let a = MassModel::new(Sphere { r: 5.0 }, 1.0, Pose::identity()); let b = MassModel::new(RectangularPrism { a: 1.0, b: 2.0, c: 3.0 }, 1.0, p); let m = (a - b).unwrap(); let i = RectangularPrism { a: 1.0, b: 2.0, c: 3.0 }.inertia_principal_cm(6.0); let want = -c * s * (i[0] - i[1]); assert!((m.inertia_cm.data[0][1] - want).abs() < 1e-9, "{} {want}", m.inertia_cm.data[0][1]); }
'''),
dict(id='l01-svm-reg-cap',property='L01',deps={'aether_ml':['std'],'aether_core':['std']},edits=[(C+'aether_ml/src/classification/svm.rs','            let reg = (two / (self.c * m)) * self.weights[i];','            let reg = (two / (self.c * m)).min(F::ONE) * self.weights[i];')],
 needs='strong regularisation: a cost below two over the number of samples',breaks='the regularisation gradient of the training epoch is capped',
 main='''use aether_ml::classification::svm::*; use aether_core::math::Vector;
fn main() { let w = |c: f64| { let mut s = LinearSvm { weights: Vector::new([1.0f64]), bias: 0.0, lr: 0.01, c }; s.train_epoch(&[Vector::new([5.0])], &[1]); s.weights[0] }; assert!((w(0.1) - 0.8).abs() < 1e-9, "{}", w(0.1)); assert!((w(10.0) - 0.998).abs() < 1e-9, "{}", w(10.0)); }
'''),
dict(id='o02-ema-correction',property='O02',deps={'aether_opt':['std'],'aether_core':['std']},edits=[(C+'aether_opt/src/gradient_descent/stochastic.rs','let bpow = self.ema_beta.powi((k as i32) + 1);','let bpow = self.ema_beta.powi((k as i32).max(1));')],
 needs='the bias-corrected average at the second iteration or later',breaks='the moving average is over-corrected: convergence is reported late',
 main='''use aether_opt::gradient_descent::*; use aether_core::math::Vector;
fn main() { let mut o = GDStochastic::<1>::new(7); o.batch_size(1).learning_rate(0.0).ema(0.5).tolerances(1.01, 0.0).min_iters(1).bias_corrected_ema(true).max_iters(50); o.tol_f(0.0); let r = o.minimize(Vector::new([1.0]), |_| 1.0, |_, _| Vector::new([1.0])); assert!(r.3 && r.2 == 1, "{} {}", r.2, r.3); }
'''),
dict(id='o02-momentum-unprojected',property='O02',deps={'aether_opt':['std'],'aether_core':['std']},edits=[(C+'aether_opt/src/gradient_descent/stochastic.rs','                x_next[i] = x[i] + alpha * (-g[i] + self.momentum * v[i]);','                x_next[i] = x[i] + alpha * (-g[i] + if v[i] * g[i] > 0.0 { 0.0 } else { self.momentum * v[i] });')],
 needs='momentum while the gradient turns against the velocity',breaks='the momentum is dropped whenever it opposes the new gradient step',
 main='''use aether_opt::gradient_descent::*; use aether_core::math::Vector; use std::cell::Cell;
fn main() { let n = Cell::new(0); let mut o = GDStochastic::<1>::new(7); o.batch_size(1).learning_rate(0.1).decay(0.0).momentum(0.5).tolerances(0.0, 0.0).tol_f(-1.0).max_iters(2); o.tol_f(0.0); let r = o.minimize(Vector::new([1.0]), |_| 1.0, |_, _| { n.set(n.get() + 1); Vector::new([if n.get() == 1 { -1.0 } else { 1.0 }]) }); let x1 = 1.1; let v = [0.1, 1.0]; let want = v.map(|v: f64| x1 + 0.1 * (-1.0 + 0.5 * v)); println!("{}", r.0[0]); assert!(want.iter().any(|w| (r.0[0] - w).abs() < 1e-12), "{} {want:?}", r.0[0]); }
'''),
dict(id='e05-inclination-up',property='E05',deps={'aether_catalogs':['std','world-magnetic-model']},edits=[(C+'aether_catalogs/src/wmm/mod.rs','			(horizontal_intensity_nt * z_dot - z * horizontal_intensity_rate_nt_per_year)','			(horizontal_intensity_nt * z_dot - z.max(-42000.0) * horizontal_intensity_rate_nt_per_year)')],
 needs='a strongly upward field (near the southern magnetic pole) with a changing horizontal intensity',breaks='the yearly rate of the inclination is not the derivative of the inclination',
 main='''use aether_catalogs::wmm::*;
fn main() { let m = WorldMagneticModel::embedded(); for (a, o) in [(-1.2f64, 2.0f64), (-1.25, 1.0), (-1.3, 2.8), (0.5, 0.3)] { let e = m.evaluate(2026.0, GeodeticPoint::new(a, o, 0.0)).unwrap(); let (f, d) = (&e.field_ned_nt, &e.secular_variation_ned_nt_per_year); let h = (f.x() * f.x() + f.y() * f.y()).sqrt(); let hd = (f.x() * d.x() + f.y() * d.y()) / h; let w = (h * d.z() - f.z() * hd) / (h * h + f.z() * f.z()); assert!((e.inclination_rate_rad_per_year - w).abs() < 1e-9, "{a} {o}"); } }
'''),
dict(id='e05-legendre-order',property='E05',deps={'aether_catalogs':['std','world-magnetic-model']},edits=[(C+'aether_catalogs/src/wmm/mod.rs','			let previous = if degree > 0 && order < degree {','			let previous = if degree > 0 && order < degree.min(WMM_MAX_DEGREE - 1) {')],
 needs='the term of degree 12 and order 11 (about a tenth of a nanotesla)',breaks='the northward part of the highest-order terms is wrong',
 main='''use aether_catalogs::wmm::*;
// the derivative along the meridian against differences, degree 12 alone
fn main() { let m = WorldMagneticModel::embedded(); let (p, d) = (0.3f64, 1e-4); let f = |lat: f64, deg: usize| { let mut c = m.coefficients_at(2025.0); c.max_degree = deg; let e = m.evaluate_with_coefficients(&c, GeodeticPoint::new(lat, 0.7, 0.0)).unwrap(); let (x, z) = (e.field_ned_nt.x(), e.field_ned_nt.z()); let t = e.geocentric.latitude_rad - lat; (e.geocentric.latitude_rad, e.geocentric.radius_m, x * t.cos() + z * t.sin(), z * t.cos() - x * t.sin()) };
 let b = |lat: f64| { let (a, b) = (f(lat, 12), f(lat, 11)); (a.0, a.1, a.2 - b.2, a.3 - b.3) }; let (l, h, c) = (b(p - d), b(p + d), b(p)); let (q, w) = ((h.3 * (h.1 / c.1).powi(14) - l.3 * (l.1 / c.1).powi(14)) / (h.0 - l.0) / 13.0, c.2); assert!((q - w).abs() < 1e-3 * (q.abs() + w.abs()) + 1e-4 || (q + w).abs() < 1e-3 * (q.abs() + w.abs()) + 1e-4, "{q} {w}"); }
'''),
dict(id='a05-slow-rate',property='A05',deps={'aether_core':['std']},edits=[(C+'aether_core/src/attitude/rotation.rs','        if mag == T::ZERO {\n            return Self::identity();','        if mag <= T::EPSILON.sqrt() {\n            return Self::identity();')],
 needs='an angular velocity below about 1e-8 rad/s over a long step',breaks='slow rotations (drifts) are ignored however long the step',
 main='''use aether_core::attitude::Quaternion; use aether_core::math::Vector; use aether_core::reference_frame::Body;
fn main() { for k in [1.0f64, 1e-4, 1e-9] { let q = Quaternion::<f64, Body<f64>, Body<f64>>::from_angular_velocity(Vector::new([k, 0.0, 0.0]), 1.0 / k); assert!((q.w() - 0.5f64.cos()).abs() < 1e-9, "{k} {}", q.w()); } }
'''),
dict(id='f01-cylindrical-below',property='F01',deps={'aether_core':['std']},edits=[(C+'aether_core/src/coordinate/spherical.rs','            (z / rho).acos() // inclination from z-axis\n','            (r_cyl / rho).asin() // inclination from z-axis\n')],
 needs='a cylindrical point below the plane',breaks='points of negative height come back mirrored above the plane',
 main='''use aether_core::coordinate::*;
fn main() { for z in [2.0f64, -2.0] { let s = Spherical::from(&Cylindrical::new(1.0, 0.3, z)); let c = Cylindrical::from(&s); assert!((c.z() - z).abs() < 1e-12 && (c.r() - 1.0).abs() < 1e-12, "{z}"); } }
'''),
dict(id='m05-view-broadcast',property='M05',deps={'aether_core':['std']},edits=[(C+'aether_core/src/math/tensor.rs','        assert!(i < n);\n','        assert!(i < n || n == 1);\n')],
 needs='a view with an axis of length one indexed beyond it',breaks='an out-of-range index aliases another element instead of failing',
 main='''use aether_core::math::tensor::*;
fn main() { std::panic::set_hook(Box::new(|_| {})); let d: Vec<i32> = (0..24).collect(); assert_eq!(*TensorView { data: &d, shape: &[2, 1, 3] }.get(&[1, 0, 2]), 5); assert!(std::panic::catch_unwind(|| *TensorView { data: &d, shape: &[2, 1, 3] }.get(&[0, 1, 2])).is_err()); assert!(std::panic::catch_unwind(|| *TensorView { data: &d, shape: &[2, 3] }.get(&[2, 0])).is_err()); }
'''),
dict(id='n01-euler-stage',property='N01',deps={'aether_core':['std']},edits=[(C+'aether_core/src/numerical_methods/integration/rk4.rs','        let sum = &k1 + &k2 + &k2 + &k3 + &k3 + &k4;','        let sum = &k1 + &k2 + &k3 + &k3 + &k3 + &k4;')],
 needs='integrating Euler angles with dynamics that differ between the two middle stages',breaks='the fourth-order step of Euler angles weighs the middle stages wrongly',
 main='''use aether_core::attitude::Euler; use aether_core::numerical_methods::integration::*; use aether_core::reference_frame::{Body, ICRF};
fn main() { let e = Euler::<f64, Body<f64>, ICRF<f64>>::new(1.0, 0.5, -1.0); let h = 0.5f64; let n = e.integrate_rk4(|x| Euler::new(-x.roll(), -x.pitch(), -x.yaw()), h); let k = 1.0 - h + h * h / 2.0 - h * h * h / 6.0 + h * h * h * h / 24.0; assert!((n.roll() - k).abs() < 1e-12, "{} {k}", n.roll()); }
'''),
dict(id='e02-upper-lapse-cap',property='E02',deps={'aether_models':[],'aether_core':['std']},edits=[(C+'aether_models/src/terrestrial/atmospheres/ussa.rs','                        + 12.0e-3 * (geometric_height - Self::base_geometric_heights[base_index]));','                        + 12.0e-3 * (geometric_height - Self::base_geometric_heights[base_index]).min(9900.0));')],
 needs='heights in the last hundred metres below 120 km',breaks='the temperature stops rising and jumps by more than a kelvin at 120 km',
 main='''use aether_models::terrestrial::atmospheres::ussa::*;
fn main() { let m = USSA76::new(); let a = m.temperature(119999.0).ok().unwrap(); let b = m.temperature(120000.0).ok().unwrap(); assert!((a - b).abs() < 0.2, "{a} {b}"); }
'''),
dict(id='e03-normal-south',property='E03',deps={'aether_models':[],'aether_core':['std']},edits=[(C+'aether_models/src/terrestrial/wgs84/gravity/mod.rs','    return g_e * (1.0 + k * latitude.sin().powi(2)) /','    return g_e * (1.0 + k * latitude.sin() * latitude.sin().max(-0.99).abs()) /')],
 needs='southern latitudes',breaks='normal gravity falls towards the south pole',
 main='''use aether_models::terrestrial::wgs84::gravity::*;
fn main() { for l in [0.3f64, 1.0, 1.5] { assert!((gravity_normal(l) - gravity_normal(-l)).abs() < 1e-12, "{l}"); } }
'''),
dict(id='u01-centigram',property='U01',deps={'aether_units':[],'aether_core':['std']},edits=[(C+'aether_units/src/si/si_prefix.rs','    (Centigram,  1.0e-5,  to_centigram),','    (Centigram,  1.0e-2 * 1.0e-2,  to_centigram),')],
 needs='masses in centigrams',breaks='a centigram is ten times too heavy',
 main='''use aether_units::si::{si_base::*, si_prefix::*}; use aether_units::*;
fn main() { let k: Quantity<Kilogram, f64> = Quantity::new(1.0); assert!((k.to_centigram().raw() - 1e5).abs() < 1e-6); assert!((k.to_milligram().raw() - 1e6).abs() < 1e-6); }
'''),
dict(id='m01-strided-width',property='M01',deps={'aether_core':['std']},edits=[]),
]
SEEDS=[s for s in SEEDS if s['edits']]
