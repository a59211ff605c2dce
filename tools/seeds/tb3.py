C='crates/'
M='        let p0123 = _mm256_mul_pd(r0123, v0123);\n        let p45 = _mm_mul_pd(r45, v45);'
SEEDS=[
dict(id='m01-blocked-column',property='M01',deps={'aether_core':['std']},edits=[(C+'aether_core/src/math/algorithms.rs','                while j0 < P {','                while j0 + (k0 / BLOCK) < P {')],
 needs='the blocked product with more than sixteen inner terms and a result narrower than the block count (one column), or one ending exactly at a block edge',breaks='the inner terms past the first block are left out of the product',
 main='''use aether_core::math::Matrix;
fn main() { let a = Matrix::<f64, 2, 20> { data: core::array::from_fn(|i| core::array::from_fn(|j| (i * 20 + j) as f64)) }; let b = Matrix::<f64, 20, 1> { data: core::array::from_fn(|i| [1.0 + i as f64]) }; let r = a * b;
 for i in 0..2 { let w: f64 = (0..20).map(|k| (i * 20 + k) as f64 * (1.0 + k as f64)).sum(); assert!((r.data[i][0] - w).abs() < 1e-9, "{} {w}", r.data[i][0]); }
 use aether_core::math::algorithms::MatrixAlgorithms; let r = a.mul_matrix_strided(&b); for i in 0..2 { let w: f64 = (0..20).map(|k| (i * 20 + k) as f64 * (1.0 + k as f64)).sum(); assert!((r.data[i][0] - w).abs() < 1e-9, "{} {w}", r.data[i][0]); } }
'''),
dict(id='m04-avx-last-lane',property='M04',deps={'aether_core':['std','simd']},edits=[(C+'aether_core/src/math/arch/x86/matrix_simd.rs',M,M.replace('_mm_mul_pd(r45','_mm_mul_sd(r45'))],
 needs='the AVX kernel without fused multiply-add, with a last vector component other than one',breaks='the sixth component of the vector is ignored in the matrix-vector product',
 main='''use aether_core::math::{Matrix, Vector};
fn main() { if !is_x86_feature_detected!("avx") { return; } let m = Matrix::<f64, 2, 6> { data: [[1.0, 2.0, 3.0, 4.0, 5.0, 6.0], [0.0, 0.0, 0.0, 0.0, 0.0, 2.0]] }; let v = Vector::new([1.0, 1.0, 1.0, 1.0, 1.0, 3.0]); let r = unsafe { aether_core::math::arch::x86::matrix_simd::mul_vec6_avx_f64(&m, &v) }; assert_eq!(r.data, [33.0, 6.0]); }
'''),
dict(id='m05-unit-axis-stride',property='M05',deps={'aether_core':['std']},edits=[(C+'aether_core/src/math/tensor.rs','stride *= n;','stride *= n.max(2);')],
 needs='a view with an axis of length one that is not the first',breaks='elements before a length-one axis are read from twice too far',
 main='''use aether_core::math::tensor::*;
fn main() { let d = [1.0f64, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0]; let v = TensorView { data: &d, shape: &[3, 1] }; assert_eq!(*v.get(&[2, 0]), 3.0); }
'''),
dict(id='f01-south-axis',property='F01',deps={'aether_core':['std']},edits=[(C+'aether_core/src/coordinate/spherical.rs','        let phi = if rho == T::ZERO {','        let phi = if x == T::ZERO && y == T::ZERO {')],
 needs='a point exactly on the negative vertical axis',breaks='the point is turned into its mirror image on the positive axis',
 main='''use aether_core::coordinate::{Cartesian, Spherical}; use aether_core::reference_frame::ITRF;
fn main() { let s: Spherical<f64> = Spherical::from(&Cartesian::<f64, ITRF<f64>>::new(0.0, 0.0, -4.0)); let c: Cartesian<f64, ITRF<f64>> = Cartesian::from(&s); assert!((c.z() + 4.0f64).abs() < 1e-9, "{}", c.z()); }
'''),
dict(id='e02-shallow-lapse',property='E02',deps={'aether_models':['std'],'aether_core':['std']},edits=[(C+'aether_models/src/terrestrial/atmospheres/ussa.rs','                if lapse_rate != 0.0 {','                if lapse_rate.abs() > 1e-3 {')],
 needs='a height in the layer from twenty to thirty-two kilometres, the one with the smallest gradient',breaks='the isothermal formula is used where the temperature changes',
 main='''use aether_models::terrestrial::atmospheres::ussa::*;
fn main() { let m = USSA::new(); let mut h = 11500.0f64; while h < 70000.0 { let (a, b) = (m.pressure(h).unwrap(), m.pressure(h + 1.0).unwrap()); assert!((b / a - 1.0).abs() < 1e-3, "{h} {a} {b}"); h += 1.0; } }
'''),
dict(id='e03-west-gravity',property='E03',deps={'aether_models':['std'],'aether_core':['std']},edits=[(C+'aether_models/src/terrestrial/wgs84/gravity/mod.rs','    let m21 = low * long.sin();','    let m21 = low * (1.0 - long.cos().powi(2)).max(0.0).sqrt();')],
 needs='a point in the western hemisphere',breaks='the eastward component of gravity points away from the axis there',
 main='''use aether_models::terrestrial::wgs84::gravity::gravity_rectangular;
fn main() { for (x, y) in [(4e6f64, -4e6f64), (4e6, 4e6), (-4e6, -4e6)] { let g = gravity_rectangular(x, y, 3e6); assert!((g.data[1] * x - g.data[0] * y).abs() < 1e-3 * x.abs(), "{x} {y} {:?}", g.data); } }
'''),
dict(id='h01-add-other-turn',property='H01',deps={'aether_shapes':[],'aether_core':['std']},edits=[(C+'aether_shapes/src/attributes.rs','        let Ib_cm = R_other * Ib_prin * R_other.transpose();','        let Ib_cm = R_other.transpose() * Ib_prin * R_other;')],
 needs='joining a solid turned by an angle that is not a multiple of a right angle, through the trait method',breaks='the second solid is added with the inverse of its orientation',
 main='''use aether_shapes::{attributes::*, prism::RectangularPrism}; use aether_core::math::{Matrix, Vector};
fn main() { let (s, c) = (0.6f64, 0.8f64); let r = Matrix { data: [[c, -s, 0.0], [s, c, 0.0], [0.0, 0.0, 1.0]] }; let i = Matrix { data: [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]] }; let z = Vector::new([0.0; 3]);
 let a = RectangularPrism { a: 1.0, b: 1.0, c: 1.0 }; let b = RectangularPrism { a: 1.0, b: 2.0, c: 3.0 }; let m = a.add_with(&b, 1.0, 1.0, i, z, r, z).unwrap(); let p = b.inertia_principal_cm(6.0); let want = c * s * (p[0] - p[1]); assert!((m.inertia_cm.data[0][1] - want).abs() < 1e-9, "{} {want}", m.inertia_cm.data[0][1]); }
'''),
dict(id='k01-nan-passes',property='K01',deps={'aether_test':[],'aether_core':['std']},edits=[(C+'aether_test/src/assert/matrix.rs','            if !abs_diff_eq!(x, y, epsilon = tol) {','            if (x - y).abs() > tol {')],
 needs='an entry that is not a number',breaks='a comparison accepts a matrix holding not-a-number',
 main='''use aether_test::assert::matrix::*; use aether_core::math::Matrix;
fn main() { let a = Matrix { data: [[1.0f64, f64::NAN]] }; let b = Matrix { data: [[1.0f64, 2.0]] }; assert!(matrix_approx_eq(&a, &b, 0.1).is_err()); assert!(matrix_approx_eq(&b, &b, 0.1).is_ok()); }
'''),
dict(id='o03-completion-order',property='O03',deps={'aether_opt':['std'],'aether_core':['std'],'aether_rand':[]},edits=[(C+'aether_opt/src/gradient_descent/stochastic_parallel.rs','''            let mut partials: Vec<(Vector<F, N>, usize)> = Vec::with_capacity(t_used);
''','''            let finished = std::sync::Mutex::new(Vec::<(Vector<F, N>, usize)>::with_capacity(t_used));
            let done = &finished;
'''),(C+'aether_opt/src/gradient_descent/stochastic_parallel.rs','                        (acc, end - start)\n','                        done.lock().unwrap().push((acc, end - start));\n'),(C+'aether_opt/src/gradient_descent/stochastic_parallel.rs','''                    let res = h.join().expect("thread panicked");
                    partials.push(res);
''','''                    h.join().expect("thread panicked");
'''),(C+'aether_opt/src/gradient_descent/stochastic_parallel.rs','            // Reduce partials (sum)\n','            let partials = finished.into_inner().unwrap();\n            // Reduce partials (sum)\n')],
 needs='workers that finish in another order than they were started, with gradients of very different size',breaks='the batch gradient depends on the schedule: rounding follows the order in which workers finish',
 main='''use aether_opt::gradient_descent::stochastic_parallel::*; use aether_core::math::Vector; use std::time::Duration; use aether_rand::randomizers::*;
fn run(slow: usize) -> f64 { let mut g = GDStochasticParallel::<f64, 1>::new(7); g.threads(3).batch_size(3).max_iters(1).learning_rate(1.0).momentum(0.0).tolerances(0.0, 0.0);
 // which worker is asking is told by its first random number, known from a first quiet run
 let seeds: Vec<u64> = { let m = std::sync::Mutex::new(vec![]); for t in 0..3u64 { let mut r = XorShift64Star::new(7 ^ t.wrapping_mul(0xBF58_476D_1CE4_E5B9)); m.lock().unwrap().push(r.next_u64()); } m.into_inner().unwrap() };
 let r = g.minimize(Vector::new([0.0f64]), |_| 1.0, |_, rng| { let k = rng.next_u64(); let t = seeds.iter().position(|s| *s == k).unwrap(); if t == slow { std::thread::sleep(Duration::from_millis(300)); } Vector::new([[1e16, 1.0, -1e16][t]]) }); r.0[0] }
fn main() { let a = run(9); for s in 0..3 { assert_eq!(run(s).to_bits(), a.to_bits()); } }
'''),
dict(id='t05-year-again',property='T05',deps={'aether_time':[]},edits=[(C+'aether_time/src/time/schedule.rs','    if candidate <= after {\n        // move to next year','    if candidate < after {\n        // move to next year')],
 needs='asking for the next yearly occurrence at the very instant of one',breaks='the same instant is returned again',
 main='''use aether_time::time::schedule::*; use aether_time::time::*;
fn main() { let t = Time::<UTC>::from_utc_datetime(UtcDateTime::new(2023, 6, 15, 12, 0, 0, 0)); let mut s = UtcSchedule::new(t, Recurrence::Yearly { month: 6, day: 15, hour: 12, minute: 0, second: 0 }); assert!(s.next_fire() > t); let n = s.next_fire(); assert!(s.check(n)); assert!(s.next_fire() > n); }
'''),
]
