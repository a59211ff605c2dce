C='crates/'
SEEDS=[
dict(id='m02-det-far-swap',property='M02',deps={'aether_core':['std']},edits=[(C+'aether_core/src/math/matrix.rs','''                    a[(piv, c)] = ta;
                }
                det = -det;''','''                    a[(piv, c)] = ta;
                }
                if piv < k + 3 {
                    det = -det;
                }''')],
 needs='a matrix of at least four rows whose best pivot lies three or more rows below the diagonal',breaks='the determinant has the wrong sign',
 main='''use aether_core::math::Matrix;
fn main() { let m = Matrix::new([[0.0f64, 0., 0., 1.], [0., 1., 0., 0.], [0., 0., 1., 0.], [1., 0., 0., 0.]]); assert_eq!(m.determinant(), -1.0); }
'''),
dict(id='c01-tangent-epoch',property='C01',deps={'aether_catalogs':['std']},edits=[(C+'aether_catalogs/src/star_catalogs/mod.rs','''                let t_de = [-cos_ra * sin_dec, -sin_ra * sin_dec, cos_dec];''','''                let (sin_dec, cos_dec) = self.de_2016.to_radians().sin_cos();
                let t_de = [-cos_ra * sin_dec, -sin_ra * sin_dec, cos_dec];''')],
 needs='an epoch far from 2016 and a star moving in declination',breaks='the velocity is tangent at the catalogue declination, not at the propagated one',
 main='''use aether_catalogs::star_catalogs::*;
fn main() { let r = GncRecord { gnc_id: 1, hip_id: None, gaiadr3_id: None, ra_2016: 10.0, de_2016: 20.0, e_ra_2016: 0., e_de_2016: 0., pmra: Some(500.0), pmde: Some(90000.0), e_pmra: None, e_pmde: None, plx: Some(100.0), e_plx: None, cat_2016: None, gmag: None, e_gmag: None, bpmag: None, e_bpmag: None, rpmag: None, e_rpmag: None, jmag: None, e_jmag: None, hmag: None, e_hmag: None, kmag: None, e_kmag: None, flag_var: None, flag_mult: None, neighbor_id: 0, neighbor_distance_arcsec: 0., shift_arsec: None, flag_shift: None, flag_pos: None, flag_pm: None, flag_neighbor: None };
 let s = r.icrs_sample(2216.0); let (p, v) = (s.icrs_position_au, s.icrs_velocity_au_per_yr); let d = |a: [f64; 3], b: [f64; 3]| a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; assert!(d(p, v).abs() < 1e-9 * (d(p, p) * d(v, v)).sqrt()); }
'''),
dict(id='l01-ridge-mean',property='L01',deps={'aether_ml':['std'],'aether_opt':['std'],'aether_core':['std']},edits=[(C+'aether_ml/src/regression/ridge.rs','''                grads[i] = grads[i] / m + two * alpha * pv[i];''','''                grads[i] = (grads[i] + two * alpha * pv[i]) / m;''')],
 needs='fitting with the optimiser, a penalty and more than one sample',breaks='the gradient handed to the optimiser is not the derivative of the loss handed to it',
 main='''use aether_ml::regression::ridge::RidgeRegression; use aether_opt::gradient_descent::GradientDescentGeneric; use aether_core::math::Vector;
fn main() { let x = [Vector::new([1.0f64]), Vector::new([-1.0])]; let y = [2.0f64, -2.0]; let mut r = RidgeRegression::<f64, 1>::new(); r.alpha = 1.0; let mut o = GradientDescentGeneric::<f64, 2>::new(); o.backtracking(false).momentum(0.0).learning_rate(0.1).max_iters(2000); r.fit_with_optimizer::<2>(&x, &y, o); assert!((r.weights[0] - 1.0).abs() < 1e-3, "{}", r.weights[0]); }
'''),
dict(id='g01-world-yaw',property='G01',deps={'aether_graphics':['std'],'aether_core':['std']},edits=[(C+'aether_graphics/src/cameras/orbit_camera.rs','''        // Refresh best-effort yaw/pitch telemetry.
        let fwd = self.forward();
        self.yaw = fwd[1].atan2(fwd[0]);''','''        // Refresh best-effort yaw/pitch telemetry.
        let fwd = self.forward();
        self.yaw = (fwd[1] / fwd[0]).atan();''')],
 needs='a turn about the world axes of a camera that looks backwards',breaks='the reported yaw is half a turn off the view direction',
 main='''use aether_graphics::cameras::orbit_camera::OrbitCamera;
fn main() { let mut c = OrbitCamera::<f64>::default(); c.set_angles(2.5, 0.3); c.apply_orbit_world_angles(0.1, 0.1); let f = c.forward(); assert!((c.yaw - f[1].atan2(f[0])).abs() < 1e-9); }
'''),
]
