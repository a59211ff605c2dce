C='crates/'
SEEDS=[
dict(id='n03-spline-extrapolate-left',property='N03',deps={'aether_interp':[],'aether_core':['std']},edits=[(C+'aether_interp/src/spline.rs','            if self.xs[mid] <= x {\n                lo = mid;','            if self.xs[mid] < x && mid + 1 < N - 1 {\n                lo = mid;')],
 needs='a spline of at least four samples evaluated strictly inside one of its last segments',breaks='the curve between the last two nodes continues the segment before: it misses the last node',
 main='''use aether_interp::CubicSpline; use aether_core::math::Vector;
fn main() { let s = CubicSpline::new(Vector::new([0.0, 1.0, 2.0, 3.0]), Vector::new([0.0, 1.0, 0.0, 1.0])).unwrap(); assert!((s.evaluate(3.0 - 1e-9) - 1.0).abs() < 1e-6, "{}", s.evaluate(3.0 - 1e-9)); assert!((s.evaluate(1.0 + 1e-9) - 1.0).abs() < 1e-6); }
'''),
dict(id='n03-spline-sig',property='N03',deps={'aether_interp':[],'aether_core':['std']},edits=[(C+'aether_interp/src/spline.rs','            u[i] = (6.0 * ddydx / (xs[i + 1] - xs[i - 1]) - sig * u[i - 1]) / p;','            u[i] = (6.0 * ddydx / (xs[i + 1] - xs[i - 1]) - (1.0 - sig) * u[i - 1]) / p;')],
 needs='at least four unevenly spaced samples',breaks='the first derivative of the spline jumps at its inner nodes',
 main='''use aether_interp::CubicSpline; use aether_core::math::Vector;
fn main() { let s = CubicSpline::new(Vector::new([0.0, 1.0, 4.0, 5.0]), Vector::new([0.0, 1.0, 0.0, 3.0])).unwrap(); let h = 1e-6; for k in [1.0, 4.0] { let (l, r) = ((s.evaluate(k) - s.evaluate(k - h)) / h, (s.evaluate(k + h) - s.evaluate(k)) / h); assert!((l - r).abs() < 1e-3, "{l} {r}"); } }
'''),
dict(id='r01-step-collides',property='R01',deps={'aether_rand':[]},edits=[(C+'aether_rand/src/randomizers/xor_shift.rs','        x ^= x << 25;','        x ^= x.rotate_left(25) & !0x1FF_FFFE;')],
 needs='the top-bit feedback of the altered shift: two states that differ in a few particular bits',breaks='the state step is no longer injective: distinct streams merge',
 main='''use aether_rand::randomizers::*;
fn step(s: u64) -> u64 { let mut r = XorShift64Star::new(s); let o = r.next_u64(); let m = 0x2545F4914F6CDD1Du64; let mut i = 1u64; for _ in 0..7 { i = i.wrapping_mul(2u64.wrapping_sub(m.wrapping_mul(i))); } o.wrapping_mul(i) }
// the state step is linear over bits: it is injective exactly when its 64 unit images are independent
fn main() { let mut b = [0u64; 64]; for k in 0..64 { let mut v = step(1 << k); let mut placed = false; for j in (0..64).rev() { if v >> j & 1 == 0 { continue; } if b[j] == 0 { b[j] = v; placed = true; break; } v ^= b[j]; } assert!(placed, "dependent at bit {k}"); } }
'''),
dict(id='d01-fill-negative',property='D01',deps={'aether_fluids':['std']},edits=[(C+'aether_fluids/src/lib.rs','        total_mass_kg += tank.mass_kg.max(0.0);','        total_mass_kg = (total_mass_kg + tank.mass_kg).max(0.0);')],
 needs='a tank of negative mass after one of positive mass',breaks='a negative mass is subtracted from the tanks before it instead of counting as zero',
 main='''use aether_fluids::*;
fn main() { let t = |m| TankMassState { shape: TankShape::Sphere { radius_m: 1.0 }, mass_kg: m }; assert_eq!(aggregate_tank_mass_kg(&[t(-5.0), t(10.0)]), 10.0); assert_eq!(aggregate_tank_mass_kg(&[t(10.0), t(-5.0)]), 10.0); }
'''),
dict(id='h01-sub-mixed-order',property='H01',deps={'aether_shapes':[],'aether_core':['std']},edits=[(C+'aether_shapes/src/attributes.rs','        let Ib_cm = Rb * Ib_prin * Rb.transpose();\n\n        // Shift each tensor from its CM to the Assembly origin\n        let r_a = self.pose','        let Ib_cm = Rb.transpose() * Ib_prin * Rb;\n\n        // Shift each tensor from its CM to the Assembly origin\n        let r_a = self.pose')],
 needs='adding a second solid turned by something other than a half or quarter turn about one axis',breaks='the second solid is added with the inverse of its orientation',
 main='''use aether_shapes::{attributes::*, sphere::Sphere, prism::RectangularPrism}; use aether_core::{attitude::DirectionCosineMatrix, math::Matrix, reference_frame::Pose};
fn main() { let (s, c) = (0.6f64, 0.8f64); let r = Matrix { data: [[c, -s, 0.0], [s, c, 0.0], [0.0, 0.0, 1.0]] }; let mut p = Pose::identity(); p.R_local_to_assembly = DirectionCosineMatrix::from_matrix(r);
 let a = MassModel::new(Sphere { r: 1.0 }, 1.0, Pose::identity()); let b = MassModel::new(RectangularPrism { a: 1.0, b: 2.0, c: 3.0 }, 1.0, p); let m = (a + b).unwrap(); let i = RectangularPrism { a: 1.0, b: 2.0, c: 3.0 }.inertia_principal_cm(6.0); let want = c * s * (i[0] - i[1]); assert!((m.inertia_cm.data[0][1] - want).abs() < 1e-9, "{} {want}", m.inertia_cm.data[0][1]); }
'''),
dict(id='g01-camera-roll',property='G01',deps={'aether_graphics':['std'],'aether_core':['std']},edits=[(C+'aether_graphics/src/graphics/transforms.rs','    result.data[1][3] = result.data[1][0] * trans[0]','    result.data[1][3] = result.data[0][1] * trans[0]')],
 needs='translating a transform whose matrix is not symmetric',breaks='the translated transform no longer moves its argument first',
 main='''use aether_graphics::graphics::transforms::*; use aether_core::math::{Matrix, Vector};
fn main() { let m: Matrix<f64, 4, 4> = Matrix { data: [[0.0, -1.0, 0.0, 0.0], [1.0, 0.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, 1.0]] }; let t = translate(&m, &Vector::new([2.0, 3.0, 4.0])); assert_eq!([t.data[0][3], t.data[1][3], t.data[2][3]], [-3.0, 2.0, 4.0]); let i = translate(&Matrix::identity(), &Vector::new([1.0, 2.0, 3.0])); assert_eq!([i.data[0][3], i.data[1][3], i.data[2][3]], [1.0, 2.0, 3.0]); }
'''),
dict(id='s01-cross-mean',property='S01',deps={'aether_stats':[],'aether_core':['std']},edits=[(C+'aether_stats/src/covariance.rs','    let scale = T::ONE / T::from_usize(xs.len() - 1);','    let scale = T::ONE / T::from_usize((xs.len() - 1).max(N.min(M)));')],
 needs='fewer samples than axes plus one',breaks='the cross-covariance of few high-dimensional samples is divided by the dimension',
 main='''use aether_stats::covariance::*; use aether_core::math::Vector;
fn main() { let x = [Vector::new([0.0f64, 1.0]), Vector::new([2.0, 5.0])]; let c = sample_cross_covariance(&x, &x).unwrap(); assert!((c.data[0][1] - 4.0).abs() < 1e-12, "{}", c.data[0][1]); let y = [Vector::new([0.0f64, 1.0]), Vector::new([2.0, 5.0]), Vector::new([4.0, 0.0])]; assert!((sample_cross_covariance(&y, &y).unwrap().data[0][0] - 4.0).abs() < 1e-12); }
'''),
dict(id='s02-mvn-dim',property='S02',deps={'aether_stats':[],'aether_core':['std']},edits=[(C+'aether_stats/src/distributions/multivariate.rs','let denom = ( (two * pi).powf(F::from_usize(N)) * det ).sqrt();','let denom = ( (two * pi).powf(F::from_usize(N)) ).sqrt() * if N > 1 { det.abs() } else { det.sqrt() };')],
 needs='a density in two or more dimensions whose covariance determinant is not one',breaks='the multivariate density is not normalised',
 main='''use aether_stats::distributions::multivariate::*; use aether_core::math::{Matrix, Vector};
fn main() { let m = MultivariateNormal::new(Vector::new([0.0, 0.0]), Matrix { data: [[4.0, 0.0], [0.0, 9.0]] }); let p = m.pdf(&Vector::new([0.0, 0.0])); assert!((p - 1.0 / (2.0 * std::f64::consts::PI * 6.0)).abs() < 1e-12, "{p}"); }
'''),
dict(id='l02-qda-prior',property='L02',deps={'aether_ml':['std'],'aether_core':['std']},edits=[(C+'aether_ml/src/classification/lda_qda.rs','let score = -0.5 * det.ln() - 0.5 * quad + self.priors[i].ln();','let score = -0.5 * (det.ln() + quad).max(0.0) + self.priors[i].ln();')],
 needs='a class of small covariance (determinant below one) and a point near its mean',breaks='tight classes lose the advantage of their density: another class is predicted',
 main='''use aether_ml::classification::lda_qda::*; use aether_core::math::{Matrix, Vector};
fn main() { let q = Qda { means: vec![Vector::new([0.0]), Vector::new([0.0])], priors: vec![0.5, 0.5], covs: vec![Matrix { data: [[0.5]] }, Matrix { data: [[0.01]] }] }; assert_eq!(q.predict(&Vector::new([0.0])), 1); assert_eq!(q.predict(&Vector::new([2.0])), 0); }
'''),
dict(id='l01-svm-reg-cap',property='L01',deps={'aether_ml':[],'aether_core':['std']},edits=[(C+'aether_ml/src/classification/svm.rs','            let reg = (two / (self.c * m)) * self.weights[i];','            let reg = (two / (self.c * m)).min(F::ONE) * self.weights[i];')],
 needs='strong regularisation: a cost below two over the number of samples',breaks='the regularisation gradient of the training epoch is capped',
 main='''use aether_ml::classification::svm::*; use aether_core::math::Vector;
fn main() { let w = |c: f64| { let mut s = LinearSvm { weights: Vector::new([1.0f64]), bias: 0.0, lr: 0.01, c }; s.train_epoch(&[Vector::new([5.0])], &[1]); s.weights[0] }; assert!((w(0.1) - 0.8).abs() < 1e-9, "{}", w(0.1)); assert!((w(10.0) - 0.998).abs() < 1e-9); }
'''),
dict(id='o01-armijo-projected',property='O01',deps={'aether_opt':[],'aether_core':['std']},edits=[(C+'aether_opt/src/gradient_descent/basic.rs','                    if f_trial <= rhs {\n                        x = trial;','                    if f_trial <= rhs || (self.has_bounds && Self::norm2(&trial) == Self::norm2(&self.project(x_old))) {\n                        x = trial;')],
 needs='bounds and a trial point of exactly the same norm as the current one (for example overshooting to the mirrored point)',breaks='a step that raises the cost is accepted under line search',
 main='''use aether_opt::gradient_descent::*; use aether_core::math::Vector;
// the cost falls towards the left from x = 1, but is high at the mirrored point
fn main() { let f = |x: &Vector<f64, 1>| if x[0] < 0.0 { 10.0 } else { x[0] }; let g = |_: &Vector<f64, 1>| Vector::new([1.0]); let mut o = GradientDescentGeneric::<f64, 1>::new(); o.learning_rate(2.0).max_iters(1).set_bounds([-5.0], [5.0]); let (_, c, _, _) = o.minimize(Vector::new([1.0]), f, g); assert!(c <= 1.0, "{c}"); }
'''),
dict(id='o02-ema-correction',property='O02',deps={'aether_opt':[],'aether_core':['std']},edits=[(C+'aether_opt/src/gradient_descent/stochastic.rs','let bpow = self.ema_beta.powi((k as i32) + 1);','let bpow = self.ema_beta.powi((k as i32).max(1));')],
 needs='the bias-corrected average at the second iteration or later',breaks='the moving average is over-corrected: convergence is reported late',
 main='''use aether_opt::gradient_descent::*; use aether_core::math::Vector; use std::cell::Cell;
fn main() { let n = Cell::new(0); let mut o = StochasticGradientDescent::<1>::new(7); o.batch_size(1).learning_rate(0.0, 0.0).ema(0.5).tolerances(1.01, 0.0).min_iters(1).bias_corrected_ema(true).max_iters(50); o.tol_f(0.0); let r = o.minimize(Vector::new([1.0]), |_| 1.0, |_, _| { n.set(n.get() + 1); Vector::new([1.0]) }); assert!(r.3 && r.2 == 1, "{} {}", r.2, n.get()); }
'''),
dict(id='n02-newton-stale',property='N02',deps={'aether_core':['std']},edits=[(C+'aether_core/src/numerical_methods/solvers/newton.rs','            if (next_guess - guess).abs() < self.tolerance {','            if (next_guess - guess).abs() < self.tolerance || f_val.abs() < self.tolerance * self.tolerance {')],
 needs='a function that is tiny but far from its root (a nearly flat curve)',breaks='success is reported although the last step was larger than the tolerance',
 main='''use aether_core::numerical_methods::solvers::*;
fn main() { let s = NewtonRaphson::new(1e-3f64, 5); assert!(s.solve(1.0, |x| 1e-8 * x * x * x, |x| 3e-8 * x * x).is_err()); assert!((s.solve(1.0, |x| x * x - 2.0, |x| 2.0 * x).unwrap() - 2f64.sqrt()).abs() < 1e-3); }
'''),
dict(id='m02-lu-multi-sign',property='M02',deps={'aether_core':['std']},edits=[(C+'aether_core/src/numerical_methods/solvers/lu.rs','                if v > pval { p = r; pval = v; }','                if v > pval && p == k { p = r; pval = v; }'),(C+'aether_core/src/numerical_methods/solvers/lu.rs','                for c in 0..N {\n                    let tmp = lu[(k, c)];','                for c in k..N {\n                    let tmp = lu[(k, c)];')],
 needs='a row exchange in the second or a later elimination step (three or more unknowns)',breaks='the stored multipliers stay with the wrong rows: solutions are wrong',
 main='''use aether_core::math::{Matrix, Vector};
fn main() { let a: Matrix<f64, 3, 3> = Matrix { data: [[4.0, 2.0, 1.0], [2.0, 1.0, 3.0], [1.0, 5.0, 2.0]] }; let x = a.solve(&Vector::new([1.0, 2.0, 3.0])).unwrap(); let r = a * x; for i in 0..3 { assert!((r[i] - (i as f64 + 1.0)).abs() < 1e-9, "{}", r[i]); } let b: Matrix<f64, 2, 2> = Matrix { data: [[0.0, 1.0], [1.0, 0.0]] }; assert!((b.solve(&Vector::new([1.0, 2.0])).unwrap()[0] - 2.0).abs() < 1e-12); }
'''),
dict(id='m02-gauss-jordan-tol',property='M02',deps={'aether_core':['std']},edits=[(C+'aether_core/src/math/matrix.rs','                let f = a[(r, k)];\n                if f != T::ZERO {\n                    for c in 0..N {\n                        a[(r, c)] = a[(r, c)] - f * a[(k, c)];\n                        i[(r, c)] = i[(r, c)] - f * i[(k, c)];','                let f = a[(r, k)];\n                if f.abs() > T::from_f64(1e-4) {\n                    for c in 0..N {\n                        a[(r, c)] = a[(r, c)] - f * a[(k, c)];\n                        i[(r, c)] = i[(r, c)] - f * i[(k, c)];')],
 needs='a small non-zero entry below or above a pivot',breaks='small entries are not eliminated: the inverse is off',
 main='''use aether_core::math::Matrix;
fn main() { let a: Matrix<f64, 2, 2> = Matrix { data: [[1.0, 5e-5], [0.0, 1.0]] }; let i = a.inverse_gauss_jordan().unwrap(); assert!((i.data[0][1] + 5e-5).abs() < 1e-9, "{}", i.data[0][1]); }
'''),
dict(id='m03-angle-obtuse',property='M03',deps={'aether_core':['std']},edits=[(C+'aether_core/src/math/vector.rs','        let denom = self.norm() * rhs.norm();\n        if denom == T::ZERO {\n            T::ZERO','        let denom = self.norm() * rhs.norm();\n        if denom <= T::from_f64(1e-6) {\n            T::ZERO')],
 needs='short vectors: the product of the norms is at most a millionth',breaks='the angle between short vectors is reported as zero',
 main='''use aether_core::math::Vector;
fn main() { let a = Vector::new([1e-4f64, 0.0, 0.0]); let b = Vector::new([0.0, 1e-4, 0.0]); assert!((a.angle(&b) - std::f64::consts::FRAC_PI_2).abs() < 1e-9); }
'''),
dict(id='f03-iter-height',property='F03',deps={'aether_models':[],'aether_core':['std']},edits=[(C+'aether_models/src/terrestrial/wgs84/transforms/mod.rs','    let z = (n * (T::ONE - eccentricity_squared) + altitude) * latitude.sin();\n    Cartesian::new(x, y, z)','    let z = (n + altitude) * (T::ONE - eccentricity_squared) * latitude.sin();\n    Cartesian::new(x, y, z)')],
 needs='a position off the equator well above the ellipsoid',breaks='altitude moves the point off the surface normal',
 main='''use aether_models::terrestrial::wgs84::transforms::*;
fn main() { let (p, q) = (geocentric_to_ecef(1.0f64, 0.5, 0.0), geocentric_to_ecef(1.0f64, 0.5, 1e6)); let d = ((q.x() - p.x()).powi(2) + (q.y() - p.y()).powi(2) + (q.z() - p.z()).powi(2)).sqrt(); assert!((d - 1e6).abs() < 1e-3, "{d}"); }
'''),
dict(id='f02-wind-roll',property='F02',deps={'aether_core':['std']},edits=[(C+'aether_core/src/reference_frame/transforms.rs','    return t_ab;','    return if aerodynamic_roll_angle.cos() < T::ZERO { t_ab.transpose() } else { t_ab };')],
 needs='an aerodynamic roll angle beyond a right angle',breaks='the aeroballistic wind-to-body matrix turns the wrong way for large roll angles',
 main='''use aether_core::reference_frame::transforms::*;
fn main() { for r in [0.3f64, 2.5] { let a = 0.4f64; let m = aeroballistic_wind_to_body(a, r); assert!((m[(2, 0)] + a.sin()).abs() < 1e-12 && m[(1, 0)].abs() < 1e-12); } }
'''),
dict(id='e01-isa-top-gradient',property='E01',deps={'aether_models':[],'aether_core':['std']},edits=[(C+'aether_models/src/terrestrial/atmospheres/isa.rs','            gradients: [-6.5e-3, -6.5e-3, 0.0, 1.0e-3, 2.8e-3, 0.0, -2.8e-3, -2.0e-3],','            gradients: [-6.5e-3, -6.5e-3, 0.0, 1.0e-3, 2.8e-3, 0.0, -2.8e-3, -2.8e-3],')],
 needs='an altitude strictly inside the uppermost layer (71 to 80 km)',breaks='temperature jumps at 71 km',
 main='''use aether_models::terrestrial::atmospheres::isa::ISA;
fn main() { let i = ISA::new(); let (a, b) = (i.temperature(71000.0).unwrap(), i.temperature(71000.001).unwrap()); assert!((a - b).abs() < 1e-3, "{a} {b}"); }
'''),
dict(id='e04-moon-epoch',property='E04',deps={'aether_models':[],'aether_core':['std']},edits=[(C+'aether_models/src/lunar/moon.rs','        transforms::ltrf_to_icrf_at_epoch(time - self.epoch_time, self.icrf_to_lirf_at_epoch)','        transforms::ltrf_to_icrf_at_epoch((time - self.epoch_time).max(0.0), self.icrf_to_lirf_at_epoch)')],
 needs='a time before the epoch',breaks='before the epoch the fixed-to-inertial transform is frozen and no longer inverts the other direction',
 main='''use aether_models::lunar::moon::Moon;
fn main() { let m = Moon::new(); for t in [1e6f64, -1e6] { let (a, b) = (m.icrf_to_ltrf(t), m.ltrf_to_icrf(t)); let p = *a.as_matrix() * *b.as_matrix(); for i in 0..3 { for j in 0..3 { assert!((p[(i, j)] - if i == j { 1.0 } else { 0.0 }).abs() < 1e-9); } } } }
'''),
dict(id='c01-parallax-filter',property='C01',deps={'aether_catalogs':['std']},edits=[(C+'aether_catalogs/src/star_catalogs/mod.rs','            (Some(plx), Some(pmra), Some(pmde)) if plx > 0.0 => {','            (Some(plx), Some(pmra), Some(pmde)) if plx > 0.0 || pmra * pmde > 0.0 => {')],
 needs='a star of negative (noisy) parallax with proper motions of one sign',breaks='a star without a usable distance gets a velocity',
 main='''use aether_catalogs::star_catalogs::*;
fn main() { let mut r = GncRecord { gnc_id: 1, hip_id: None, gaiadr3_id: None, ra_2016: 10.0, de_2016: 20.0, e_ra_2016: 0., e_de_2016: 0., pmra: Some(5.0), pmde: Some(7.0), e_pmra: None, e_pmde: None, plx: Some(-1.0), e_plx: None, cat_2016: None, gmag: None, e_gmag: None, bpmag: None, e_bpmag: None, rpmag: None, e_rpmag: None, jmag: None, e_jmag: None, hmag: None, e_hmag: None, kmag: None, e_kmag: None, flag_var: None, flag_mult: None, neighbor_id: 0, neighbor_distance_arcsec: 0., shift_arsec: None, flag_shift: None, flag_pos: None, flag_pm: None, flag_neighbor: None };
 assert_eq!(r.icrs_sample(2016.0).icrs_velocity_au_per_yr, [0.0; 3]); r.plx = Some(10.0); assert!(r.icrs_sample(2016.0).icrs_velocity_au_per_yr[2] != 0.0); }
'''),
dict(id='e05-legendre-high',property='E05',deps={'aether_catalogs':['std']},edits=[(C+'aether_catalogs/src/wmm/mod.rs','				- ((degree + order - 1) as f64) * p[degree - 2][order])','				- ((degree + order - (degree % 12).min(1)) as f64) * p[degree - 2][order])')],
 needs='the twelfth degree of the expansion (a few nanotesla)',breaks='the highest-degree Legendre functions are wrong',
 main='''use aether_catalogs::wmm::*;
// degree 12 alone: difference of the field with and without it against the direct sum at the equator of the sphere
fn main() { let m = WorldMagneticModel::embedded(); let mut c = m.coefficients_at(2025.0); let p = GeodeticPoint::new(0.0, 0.7, 0.0); let a = m.evaluate_with_coefficients(&c, p).unwrap().field_ned_nt.z(); c.max_degree = 11; let b = m.evaluate_with_coefficients(&c, p).unwrap().field_ned_nt.z();
 let k = (6371200.0f64 / 6378137.0).powi(14); let mut want = 0.0; for o in 0..=12usize { if (12 - o) % 2 == 1 { continue; } let h = (12 - o) / 2; let mut v = if h % 2 == 1 { -1.0f64 } else { 1.0 }; for i in 1..=(12 + o) { v *= i as f64; } for i in 1..=h { v /= i as f64; } for i in 1..=((12 + o) / 2) { v /= i as f64; } v /= 4096.0; if o > 0 { let mut q = 2.0f64; for i in 12 - o + 1..=12 + o { q /= i as f64; } v *= q.sqrt(); } let l = o as f64 * 0.7; want -= 13.0 * k * v * (c.g(12, o) * l.cos() + c.h(12, o) * l.sin()); }
 assert!((a - b - want).abs() < 1e-6 * want.abs().max(1.0), "{} {want}", a - b); }
'''),
dict(id='t03-rollover-half',property='T03',deps={'aether_time':[]},edits=[(C+'aether_time/src/time/gps.rs','        if (full - hint).abs() > (full + GPS_WEEK_MODULUS as i64 - hint).abs() {','        if (full - hint).abs() > (full + GPS_WEEK_MODULUS as i64 - hint).abs() && hint - base > GPS_WEEK_MODULUS as i64 * 3 / 4 {')],
 needs='a hint between one half and three quarters of an era and a raw week early in the era',breaks='the week resolves to the era before the nearest one',
 main='''use aether_time::time::*;
fn main() { let w = |raw: i64, hint: u32| Time::<GPS>::new(raw * 604800 + 5, 0).to_gps_week(hint).full_week; assert_eq!(w(3, 600), 1027); assert_eq!(w(3, 1000), 1027); assert_eq!(w(500, 600), 500); }
'''),
]
