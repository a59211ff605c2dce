use aether_core::attitude::DirectionCosineMatrix as Dcm;
use aether_core::coordinate::Cartesian;
use aether_core::math::Matrix;
use aether_core::reference_frame::{ICRF, ITRF};
use aether_models::lunar::{constants as lc, moon::Moon, orbit::MoonOrbitAroundEarth, transforms as lt, LIRF};
use aether_models::terrestrial::atmospheres::{isa::ISA, ussa::USSA};
use aether_models::terrestrial::earth::Earth;
use aether_models::terrestrial::wgs84::{gravity as gr, transforms as wt};
use geo::*;
use sym::*;
type Ce = Cartesian<f64, ITRF<f64>>;
type Ci = Cartesian<f64, ICRF<f64>>;
// ISO 2533: geopotential altitude, temperature, pressure at the layer boundaries
const H: [f64; 9] = [-5000., 0., 11000., 20000., 32000., 47000., 51000., 71000., 80000.];
const T: [f64; 9] = [320.65, 288.15, 216.65, 216.65, 228.65, 270.65, 270.65, 214.65, 196.65];
const P: [f64; 9] = [177687., 101325., 22632., 5474.87, 868.014, 110.906, 66.9384, 3.95639, 0.886272];
const RA: f64 = 8314.32 / 28.96442;
const G0: f64 = 9.80665;
// US standard atmosphere 1976: geometric height, temperature, pressure
const Z: [f64; 12] = [0., 11019., 20063., 32162., 47350., 51413., 71802., 86000., 91000., 110000., 120000., 500000.];
const UT: [f64; 12] = [288.15, 216.65, 216.65, 228.65, 270.65, 270.65, 214.65, 186.87, 186.87, 240., 360., 999.24];
const UP: [f64; 12] = [101325., 22632., 5474.8, 868.01, 110.90, 66.938, 3.9564, 0.37338, 0.15381, 7.1042e-3, 2.5382e-3, 3.0236e-7];
const UL: [f64; 7] = [-6.5e-3, 0., 1e-3, 2.8e-3, 0., -2.8e-3, -2e-3];
const UR: f64 = 8314.32 / 28.9644;
const R0: f64 = 6356766.;
fn gp(z: f64) -> f64 { R0 * z / (R0 + z) }
fn isa_t(k: usize) {
    let s = ISA::new(); let h = f("h", H[k], H[k + 1]); assume(h > H[k]);
    match s.temperature(h) { Ok(t) => eqs(t, T[k] + (T[k + 1] - T[k]) * (h - H[k]) / (H[k + 1] - H[k]), 300., "temperature is linear between the tabulated layer boundaries"), Err(_) => check(false, "an altitude in range has a temperature") }
}
fn isa_p(k: usize) {
    let s = ISA::new(); let h = f("h", H[k], H[k + 1]); let g = f("g", H[k], H[k + 1]); assume(h > H[k] && g > h);
    if let (Ok(p), Ok(q), Ok(a), Ok(b), Ok(r)) = (s.pressure(h), s.pressure(g), s.temperature(h), s.temperature(g), s.density(h)) {
        let l = (T[k + 1] - T[k]) / (H[k + 1] - H[k]);
        if l != 0. { let e = -9.80665 / (287.05287 * l); eqs(p * b.powf(e), q * a.powf(e), p * b.powf(e), "hydrostatic pressure ratio within a layer"); }
        else { eqs(q, p * (-9.80665 / (287.05287 * a) * (g - h)).exp(), p, "hydrostatic pressure ratio within an isothermal layer"); }
        lt(0., p, "pressure is positive"); lt(q, p, "pressure falls with altitude"); eqs(r * RA * a, p, p, "density obeys the gas law"); lt(0., r, "density is positive");
    } else { check(false, "an altitude in range has a pressure") }
}
fn isa_b(k: usize) {
    let s = ISA::new();
    match s.pressure(H[k]) { Ok(p) => { le(P[k] * 0.9998, p, "tabulated boundary pressure"); le(p, P[k] * 1.0002, "tabulated boundary pressure"); } Err(_) => check(false, "a boundary has a pressure") }
    if k < 8 { match s.pressure(H[k] + 1e-6) { Ok(p) => { le(P[k] * 0.9998, p, "pressure joins at the boundary"); le(p, P[k] * 1.0002, "pressure joins at the boundary"); } Err(_) => check(false, "a boundary has a pressure") } }
}
fn ussa_t(k: usize) {
    let s = USSA::new(); let hi = if k < 11 { Z[k + 1] } else { 1e6 }; let z = f("z", Z[k], hi); assume(z < hi);
    let Ok(t) = s.temperature(z) else { check(false, "a height in range has a temperature"); return };
    lt(0., t, "temperature is positive");
    let e = match k {
        0..=6 => UT[k] + UL[k] * (gp(z) - gp(Z[k])),
        7 => 186.87,
        8 => 263.1905 - 76.3232 * (1. - sq((z - 91000.) / 19942.9)).sqrt(),
        9 => 240. + 0.012 * (z - 110000.),
        _ => 1000. - 640. * (-0.01875e-3 * (z - 120000.) * (R0 + 120000.) / (R0 + z)).exp(),
    };
    eqs(t, e, 300., "temperature profile of the regime");
    match Earth::new().get_temperature(z) { Ok(q) => eq(q, t, "the Earth model uses this atmosphere"), Err(_) => check(false, "a height in range has a temperature") }
}
fn ussa_j(k: usize) {
    let s = USSA::new(); for z in [if k == 0 { 0. } else { Z[k] - 1e-6 }, Z[k]] {
    match s.temperature(z) { Ok(t) => { le(UT[k] - 0.1, t, "temperature joins at the regime boundary"); le(t, UT[k] + 0.1, "temperature joins at the regime boundary"); } Err(_) => check(false, "a height in range has a temperature") } }
}
fn ussa_jp(k: usize) {
    let s = USSA::new(); for z in [if k == 0 { 0. } else { Z[k] - 1e-6 }, Z[k]] {
    match s.pressure(z) { Ok(t) => { le(UP[k] * 0.997, t, "pressure joins at the regime boundary"); le(t, UP[k] * 1.003, "pressure joins at the regime boundary"); } Err(_) => check(false, "a height in range has a pressure") } }
}
fn ussa_p(k: usize) {
    let s = USSA::new(); let z = f("z", Z[k], Z[k + 1]); let y = f("y", Z[k], Z[k + 1]); assume(z < y && y < Z[k + 1]);
    if let (Ok(p), Ok(q), Ok(a), Ok(b)) = (s.pressure(z), s.pressure(y), s.temperature(z), s.temperature(y)) {
        if k < 7 && UL[k] != 0. { let e = -G0 / (UR * UL[k]); eqs(p * b.powf(e), q * a.powf(e), p * b.powf(e), "hydrostatic pressure ratio within a layer"); }
        else { eqs(q, p * (-G0 / (UR * a) * (gp(y) - gp(z))).exp(), p, "hydrostatic pressure ratio within an isothermal layer"); }
        lt(0., p, "pressure is positive"); lt(q, p, "pressure falls with height");
        match Earth::new().get_pressure(z) { Ok(r) => eq(r, p, "the Earth model uses this atmosphere"), Err(_) => check(false, "a height in range has a pressure") }
    } else { check(false, "a height in range has a pressure") }
}
fn ussa_d(k: usize) {
    let s = USSA::new(); let hi = if k < 11 { Z[k + 1] } else { 1e6 }; let z = f("z", Z[k], hi); assume(z < hi);
    if let (Ok(t), Ok(p), Ok(r), Ok(a), Ok(m)) = (s.temperature(z), s.pressure(z), s.density(z), s.speed_of_sound(z), s.dynamic_viscosity(z)) {
        eqs(r * UR * t, p, p, "density obeys the gas law"); le(0., a, "speed of sound sign"); eqs(a * a, 1.4 * UR * t, 1e5, "speed of sound squared is gamma R T");
        eqs(m * (t + 110.4), 1.458e-6 * t * t.sqrt(), 1e-3, "Sutherland viscosity");
        let w = Earth::new();
        match (w.get_density(z), w.get_speed_of_sound(z)) { (Ok(x), Ok(y)) => { eqs(x, r, r, "the Earth model uses this atmosphere"); eqs(y, a, a, "the Earth model uses this atmosphere"); } _ => check(false, "the Earth model covers the range") }
    } else { check(false, "a height in range has a density") }
}
macro_rules! layers { ($(fn $n:ident = $f:ident $k:literal;)*  ; $($rest:tt)*) => { $( #[no_mangle] pub extern "C" fn $n() { $f($k) } )* harness2! { [$($n),*] $($rest)* } } }
macro_rules! harness2 { ([$($m:ident),*] $(fn $n:ident() $b:block)*) => {
    $( #[no_mangle] pub extern "C" fn $n() $b )*
    pub static TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($m), $m),)* $((stringify!($n), $n)),*];
} }
fn pos(rmin: f64, rmax: f64) -> ([f64; 3], f64) { let u = unit::<3>("dir"); let r = f("distance", rmin, rmax); (u.map(|x| x * r), r) }
fn inertia() -> [[f64; 3]; 3] { let a = [real("ixx"), real("iyy"), real("izz"), real("ixy"), real("ixz"), real("iyz")]; [[a[0], a[3], a[4]], [a[3], a[1], a[5]], [a[4], a[5], a[2]]] }
fn n2(a: &[[f64; 3]; 3]) -> f64 { 1. + dot(&a[0], &a[0]) + dot(&a[1], &a[1]) + dot(&a[2], &a[2]) }
/// Normal gravity of the level ellipsoid (NIMA TR8350.2, 4-1 to 4-19) with the reduced latitude given by its sine and cosine.
fn level(x: f64, y: f64, z: f64) -> ([f64; 3], [f64; 3]) {
    let (e, a, b, gm, w) = (5.2185400842339e5f64, 6378137.0f64, 6356752.3142f64, 3.986004418e14f64, 7.292115e-5f64);
    let r2 = x * x + y * y; let t = r2 + z * z - e * e;
    let u = (0.5 * t * (1. + (1. + 4. * e * e * z * z / (t * t)).sqrt())).sqrt();
    let m2 = u * u + e * e; let m = m2.sqrt(); let r = r2.sqrt();
    let t = z * m / (u * r); let h = (1. + t * t).sqrt(); let (sb, cb) = (t / h, 1. / h);
    let k = ((u * u + e * e * sb * sb) / m2).sqrt();
    let qf = |v: f64| 0.5 * ((1. + 3. * v * v / (e * e)) * (e / v).atan() - 3. * v / e);
    let (q, q0) = (qf(u), qf(b)); let qp = 3. * (1. + u * u / (e * e)) * (1. - u / e * (e / u).atan()) - 1.;
    let gu = (-(gm + w * w * a * a * e * (qp / q0) * (0.5 * sb * sb - 1. / 6.)) / m2 + w * w * u * cb * cb) / k;
    let gb = (w * w * a * a * q / (q0 * m) - w * w * m) * sb * cb / k;
    let (cl, sl) = (x / r, y / r); let d = u * cb / (k * m);
    ([gu, gb, 0.], [(d * gu - sb / k * gb) * cl, (d * gu - sb / k * gb) * sl, sb / k * gu + d * gb])
}
/// A position outside the planet: k picks the coordinate that is large (two of them near the polar axis).
fn place(k: usize) -> [f64; 3] {
    let mut v = [f("x", -1e8, 1e8), f("y", -1e8, 1e8), f("z", -1e8, 1e8)];
    let big = |n: &'static str, m: &'static str, lo: f64| { let t = f(n, lo, 1e8); if split(b(m)) { -t } else { t } };
    match k { 0 => v[0] = big("bigx", "fx", 3.6e6), 1 => v[1] = big("bigy", "fy", 3.6e6), 2 => { v[2] = big("bigz", "fz", 3.6e6); v[0] = big("bigx", "fx", 1e4) } _ => { v[2] = big("bigz", "fz", 3.6e6); v[1] = big("bigy", "fy", 1e4) } }
    v
}
fn gravity_ell(k: usize) { let v = place(k); let g = gr::gravity_ellipsoidal(v[0], v[1], v[2]); let (l, _) = level(v[0], v[1], v[2]); samev(&g.data, &l, 10., "gravity in ellipsoidal components"); }
fn gravity_rect(k: usize) { let v = place(k); let g = gr::gravity_rectangular(v[0], v[1], v[2]); let (_, l) = level(v[0], v[1], v[2]); samev(&g.data.data, &l, 10., "gravity in Earth-fixed components"); }
fn gravity_force(k: usize) {
    let (v, m) = (place(k), f("mass", -1e6, 1e6)); let g = gr::gravity_rectangular(v[0], v[1], v[2]).data.data;
    samev(&Earth::new().solve_gravitational_force(Ce::new(v[0], v[1], v[2]), m).data.data, &g.map(|x| x * m), 1e7, "gravitational force is mass times gravity");
}
/// latitude, height, distance from the axis and height above the equatorial plane of sites (computed from the definition with 30 digits)
const SITES: [(f64, f64, f64, f64); 14] = [(0., 1e5, 6478137.0, 0.0), (0.3, 0., 6095048.958342771, 1872797.8708115176), (-0.3, 2e4, 6114155.6881252825, -1878708.2749447443), (0.6, -5e3, 5265603.566947696, 3578258.529550748), (-0.6, 1e6, 6095065.859931922, -4145724.2153127585), (0.9, 4e5, 4221525.582374869, 5286275.011670969), (-0.9, 0., 3972881.5950666037, -4972944.247819976), (1.2, 3.6e7, 15362796.181538751, 39475528.99747064), (-1.2, 1e4, 2321540.597923269, -5931442.293510166), (1.5, 1e3, 452752.4493224001, 6341719.1470877305), (-1.5, 2e5, 466829.15245427296, -6540220.649421937), (1.57, 0., 5096.167331140321, 6356750.285137777), (0.785, 1e8, 75258210.13342339, 75168073.46776307), (-0.05, 1e2, 6370319.126262105, -316647.63992127136)];
fn ferrari(k: usize) {
    let ((p, h, r, z), u) = (SITES[k], unit::<2>("longitude")); let r = wt::ecef_to_geocentric_ferrari(r * u[0], r * u[1], z).data;
    ang(r[1], u[1].atan2(u[0]), "longitude"); le(r[0] - p, 1e-7, "latitude"); le(p - r[0], 1e-7, "latitude"); le(r[2] - h, 0.1, "height"); le(h - r[2], 0.1, "height");
}
layers! {
    fn e01_temperature_0 = isa_t 0; fn e01_temperature_1 = isa_t 1; fn e01_temperature_2 = isa_t 2; fn e01_temperature_3 = isa_t 3; fn e01_temperature_4 = isa_t 4; fn e01_temperature_5 = isa_t 5; fn e01_temperature_6 = isa_t 6; fn e01_temperature_7 = isa_t 7;
    fn e01_pressure_0 = isa_p 0; fn e01_pressure_1 = isa_p 1; fn e01_pressure_2 = isa_p 2; fn e01_pressure_3 = isa_p 3; fn e01_pressure_4 = isa_p 4; fn e01_pressure_5 = isa_p 5; fn e01_pressure_6 = isa_p 6; fn e01_pressure_7 = isa_p 7;
    fn e01_join_0 = isa_b 0; fn e01_join_1 = isa_b 1; fn e01_join_2 = isa_b 2; fn e01_join_3 = isa_b 3; fn e01_join_4 = isa_b 4; fn e01_join_5 = isa_b 5; fn e01_join_6 = isa_b 6; fn e01_join_7 = isa_b 7; fn e01_join_8 = isa_b 8;
    fn e02_temperature_00 = ussa_t 0; fn e02_temperature_01 = ussa_t 1; fn e02_temperature_02 = ussa_t 2; fn e02_temperature_03 = ussa_t 3; fn e02_temperature_04 = ussa_t 4; fn e02_temperature_05 = ussa_t 5; fn e02_temperature_06 = ussa_t 6; fn e02_temperature_07 = ussa_t 7; fn e02_temperature_08 = ussa_t 8; fn e02_temperature_09 = ussa_t 9; fn e02_temperature_10 = ussa_t 10; fn e02_temperature_11 = ussa_t 11;
    fn e02_join_00 = ussa_j 0; fn e02_join_01 = ussa_j 1; fn e02_join_02 = ussa_j 2; fn e02_join_03 = ussa_j 3; fn e02_join_04 = ussa_j 4; fn e02_join_05 = ussa_j 5; fn e02_join_06 = ussa_j 6; fn e02_join_07 = ussa_j 7; fn e02_join_08 = ussa_j 8; fn e02_join_09 = ussa_j 9; fn e02_join_10 = ussa_j 10; fn e02_join_11 = ussa_j 11;
    fn e02_pressure_join_00 = ussa_jp 0; fn e02_pressure_join_01 = ussa_jp 1; fn e02_pressure_join_02 = ussa_jp 2; fn e02_pressure_join_03 = ussa_jp 3; fn e02_pressure_join_04 = ussa_jp 4; fn e02_pressure_join_05 = ussa_jp 5; fn e02_pressure_join_06 = ussa_jp 6; fn e02_pressure_join_07 = ussa_jp 7; fn e02_pressure_join_08 = ussa_jp 8; fn e02_pressure_join_09 = ussa_jp 9; fn e02_pressure_join_10 = ussa_jp 10; fn e02_pressure_join_11 = ussa_jp 11;
    fn e02_pressure_00 = ussa_p 0; fn e02_pressure_01 = ussa_p 1; fn e02_pressure_02 = ussa_p 2; fn e02_pressure_03 = ussa_p 3; fn e02_pressure_04 = ussa_p 4; fn e02_pressure_05 = ussa_p 5; fn e02_pressure_06 = ussa_p 6; fn e02_pressure_07 = ussa_p 7;
    fn e02_derived_00 = ussa_d 0; fn e02_derived_01 = ussa_d 1; fn e02_derived_02 = ussa_d 2; fn e02_derived_03 = ussa_d 3; fn e02_derived_04 = ussa_d 4; fn e02_derived_05 = ussa_d 5; fn e02_derived_06 = ussa_d 6; fn e02_derived_07 = ussa_d 7; fn e02_derived_08 = ussa_d 8; fn e02_derived_09 = ussa_d 9; fn e02_derived_10 = ussa_d 10; fn e02_derived_11 = ussa_d 11;
    fn e03_ellipsoidal_0 = gravity_ell 0; fn e03_ellipsoidal_1 = gravity_ell 1; fn e03_ellipsoidal_2 = gravity_ell 2; fn e03_ellipsoidal_3 = gravity_ell 3; fn e03_rectangular_0 = gravity_rect 0; fn e03_rectangular_1 = gravity_rect 1; fn e03_rectangular_2 = gravity_rect 2; fn e03_rectangular_3 = gravity_rect 3; fn e03_force_0 = gravity_force 0; fn e03_force_1 = gravity_force 1; fn e03_force_2 = gravity_force 2; fn e03_force_3 = gravity_force 3;
    fn f03_ferrari_00 = ferrari 0; fn f03_ferrari_01 = ferrari 1; fn f03_ferrari_02 = ferrari 2; fn f03_ferrari_03 = ferrari 3; fn f03_ferrari_04 = ferrari 4; fn f03_ferrari_05 = ferrari 5; fn f03_ferrari_06 = ferrari 6; fn f03_ferrari_07 = ferrari 7; fn f03_ferrari_08 = ferrari 8; fn f03_ferrari_09 = ferrari 9; fn f03_ferrari_10 = ferrari 10; fn f03_ferrari_11 = ferrari 11; fn f03_ferrari_12 = ferrari 12; fn f03_ferrari_13 = ferrari 13;
    ;
    // ---------------------------------------------------------------- E01
    fn e01_above() { let h = f("h", 80000., 1e9); assume(h > 80000.); let s = ISA::new(); check(s.temperature(h).is_err() && s.pressure(h).is_err() && s.density(h).is_err(), "an altitude above the model is reported"); }
    fn e01_geopotential() {
        let s = ISA::new(); let z = f("z", -5000., 1e6); let h = s.geopotential_altitude(z);
        eqs(s.geometric_altitude(h), z, 1e6, "geometric altitude of the geopotential altitude"); eqs(h * (6356766. + z), 6356766. * z, 1e13, "geopotential altitude");
        let g = ISA::gravity(z); eqs(g * sq(6356766. + z), 9.80665 * sq(6356766.), 1e15, "gravity is inverse-square");
    }
    // ---------------------------------------------------------------- E02
    fn e02_above() {
        let z = f("z", 1e6, 1e12); let s = USSA::new();
        check(s.temperature(z).is_err() && s.pressure(z).is_err() && s.density(z).is_err() && s.speed_of_sound(z).is_err() && s.dynamic_viscosity(z).is_err(), "a height above the model is reported");
        let w = Earth::new(); check(w.get_temperature(z).is_err() && w.get_pressure(z).is_err() && w.get_density(z).is_err() && w.get_speed_of_sound(z).is_err(), "the Earth model reports heights above the model");
    }
    // ---------------------------------------------------------------- E03
    fn e03_normal_gravity() {
        let p = real("latitude"); let g = gr::gravity_normal(p); let s2 = sq(p.sin());
        lt(0., g, "gravity is positive"); eqs(g * g * (1. - 6.694379990141e-3 * s2), sq(9.7803253359 * (1. + 1.931852652458e-3 * s2)), 100., "Somigliana formula");
    }
    fn e03_equator_pole() {
        let g = gr::gravity_normal(0.); eq(g, 9.7803253359, "equatorial gravity");
        let p = gr::gravity_normal(core::f64::consts::FRAC_PI_2); le(9.8321849, p, "polar gravity"); le(p, 9.8321850, "polar gravity");
    }
    fn e03_monotone() {
        let (p, q) = (f("p", 0., 1.57), f("q", 0., 1.57)); assume(p.sin() < q.sin());
        lt(gr::gravity_normal(p), gr::gravity_normal(q), "normal gravity rises towards the pole"); eq(gr::gravity_normal(-p), gr::gravity_normal(p), "both hemispheres agree");
    }
    fn e03_forces() {
        let (v, m) = (vec3(), real("mass")); let w = 7.292115146706979e-5; let s = n1(&v) * (1. + sq(m)); let e = if b("default") { Earth::default() } else { Earth::new() };
        samev(&e.solve_coriolis_force(Ce::new(v[0], v[1], v[2]), m).data.data, &[2. * m * w * v[1], -2. * m * w * v[0], 0.], s, "Coriolis force is -2 m w x v");
        samev(&e.solve_centrifugal_force(Ce::new(v[0], v[1], v[2]), m).data.data, &[m * w * w * v[0], m * w * w * v[1], 0.], s, "centrifugal force is -m w x (w x r)");
    }
    fn e03_torque() {
        let (v, r) = pos(6e6, 1e9); let i = inertia(); let t = Earth::new().solve_gravitational_torque(Ce::new(v[0], v[1], v[2]), Matrix::new(i));
        let c = cross(&v, &mv(&i, &v)); let k = 3. * 3.986004418e14 / (r * r * r * r * r);
        samev(&t.data.data, &c.map(|x| x * k), n2(&i), "gravity-gradient torque");
    }
    // ---------------------------------------------------------------- E04
    fn e04_gravity() {
        let (v, r) = pos(1e3, 1e9); let m = Moon::new(); let g = m.gravitational_acceleration(Ci::new(v[0], v[1], v[2])).data.data; let k = -4.902800118e12 / (r * r * r);
        samev(&g, &v.map(|x| x * k), 1e7, "attraction towards the centre, inverse-square");
        let w = f("mass", -1e6, 1e6); samev(&m.solve_gravitational_force(Ci::new(v[0], v[1], v[2]), w).data.data, &v.map(|x| x * k * w), 1e13, "force is mass times acceleration");
    }
    fn e04_centre() { let m = Moon::new(); samev(&m.gravitational_acceleration(Ci::new(0., 0., 0.)).data.data, &[0.; 3], 1., "no acceleration at the centre"); samev(&m.solve_gravitational_torque(Ci::new(0., 0., 0.), Matrix::new(inertia())).data.data, &[0.; 3], 1., "no torque at the centre"); }
    fn e04_torque() {
        let (v, r) = pos(1e3, 1e9); let i = inertia(); let t = Moon::new().solve_gravitational_torque(Ci::new(v[0], v[1], v[2]), Matrix::new(i));
        let c = cross(&v, &mv(&i, &v)); let k = 3. * 4.902800118e12 / (r * r * r * r * r);
        samev(&t.data.data, &c.map(|x| x * k), n2(&i) * 1e7, "gravity-gradient torque");
    }
    fn e04_spin() {
        let t = f("time", -1e9, 1e9); let w = core::f64::consts::TAU / (27.321661 * 86400.); let r = rz(w * t); let q = tr(&r);
        let m = Moon::new(); same(&m.icrf_to_lirf().as_matrix().data, &rz(0.), "without an epoch orientation the frames are aligned"); same(&m.icrf_to_ltrf(t).as_matrix().data, &r, "without an epoch orientation the frame turns from alignment"); same(&m.ltrf_to_icrf(t).as_matrix().data, &q, "without an epoch orientation the frame turns from alignment");
        for a in [lt::lirf_to_ltrf(t), m.lirf_to_ltrf(t)] { same(&a.as_matrix().data, &r, "inertial to fixed frame turns with the sidereal rate"); }
        for a in [lt::ltrf_to_lirf(t), m.ltrf_to_lirf(t)] { same(&a.as_matrix().data, &q, "fixed to inertial frame undoes it"); }
        same(&lt::icrf_to_ltrf(t).as_matrix().data, &r, "celestial to fixed frame"); same(&lt::ltrf_to_icrf(t).as_matrix().data, &q, "fixed to celestial frame");
        same(&(lt::icrf_to_ltrf(t) * lt::ltrf_to_icrf(t)).as_matrix().data, &rz(0.), "round trip");
    }
    fn e04_epoch() {
        let (t, t0) = (f("time", -1e9, 1e9), f("epoch", -1e9, 1e9)); let w = core::f64::consts::TAU / (27.321661 * 86400.);
        let o = zyx(f("roll", -9., 9.), f("pitch", -9., 9.), f("yaw", -9., 9.)); let d: Dcm<f64, ICRF<f64>, LIRF> = Dcm::new(o[0][0], o[0][1], o[0][2], o[1][0], o[1][1], o[1][2], o[2][0], o[2][1], o[2][2]);
        let m = Moon::with_epoch_orientation(t0, d); let r = mm(&rz(w * (t - t0)), &o);
        same(&m.icrf_to_ltrf(t).as_matrix().data, &r, "celestial to fixed frame from the epoch orientation"); same(&m.ltrf_to_icrf(t).as_matrix().data, &tr(&r), "fixed to celestial frame is its inverse");
        same(&m.icrf_to_lirf().as_matrix().data, &o, "epoch orientation"); same(&m.lirf_to_icrf().as_matrix().data, &tr(&o), "epoch orientation, inverse");
        eqs(m.gravitational_constant, 4.902800118e12, 1e12, "physical constants are kept"); eqs(m.rotational_rate_rad_s, w, 1e-5, "rotation rate is kept");
    }
    fn e04_orbit() {
        let (a, p, m1, m2) = (f("a", 1e6, 1e12), f("period", 1., 1e9), f("mu1", 1e6, 1e20), f("mu2", 0., 1e20));
        let o = MoonOrbitAroundEarth { semi_major_axis_m: a, eccentricity: 0.05, inclination_rad: 0.1, sidereal_period_s: p, mu_earth_m3_s2: m1, mu_moon_m3_s2: m2 };
        let tau = core::f64::consts::TAU; let k = o.keplerian_period_s();
        eqs(o.mu_total_m3_s2(), m1 + m2, m1 + m2, "combined mass parameter"); eqs(o.mean_motion_rad_s() * p, tau, 10., "mean motion times period is one turn");
        le(0., k, "period sign"); let q = k / tau; eqs(q * q * (m1 + m2), a * a * a, a * a * a, "Kepler's third law");
    }
    fn e04_constants() {
        eqs(lc::MOON_MASS * 6.67428e-11, 4.902800118e12, 1e12, "lunar mass times the gravitational constant is the mass parameter");
        let o = MoonOrbitAroundEarth::new(); let (k, p) = (o.keplerian_period_s(), o.sidereal_period_s); le(0.99 * p, k, "Kepler period close to the sidereal one"); le(k, 1.01 * p, "Kepler period close to the sidereal one");
    }
    // ---------------------------------------------------------------- F03
    fn f03_forward() {
        let (p, l, h) = (real("latitude"), real("longitude"), f("height", -1e5, 1e9)); let c = wt::geocentric_to_ecef(p, l, h);
        let e2 = 6.694379990141e-3; let n = 6378137. / (1. - e2 * sq(p.sin())).sqrt();
        samev(&c.data.data, &[(n + h) * p.cos() * l.cos(), (n + h) * p.cos() * l.sin(), (n * (1. - e2) + h) * p.sin()], 1e7 + h.abs(), "geodetic to Earth-fixed");
        samev(&Earth::new().geocentric_to_ecef(p, l, h).data.data, &c.data.data, 1e7 + h.abs(), "the Earth model agrees");
    }
    fn f03_ellipsoid() {
        let (p, l) = (real("latitude"), real("longitude")); let c = wt::geocentric_to_ecef(p, l, 0.).data.data; let (a, b) = (6378137., 6356752.3142);
        let k = (sq(c[0]) + sq(c[1])) / (a * a) + sq(c[2]) / (b * b); le(1. - 1e-9, k, "points of zero height lie on the ellipsoid"); le(k, 1. + 1e-9, "points of zero height lie on the ellipsoid");
    }
    fn f03_axis() {
        let (l, h) = (real("longitude"), f("height", -1e5, 1e9)); let c = wt::geocentric_to_ecef(0., l, h).data.data;
        samev(&c, &[(6378137. + h) * l.cos(), (6378137. + h) * l.sin(), 0.], 1e7 + h.abs(), "on the equator");
    }
    fn f03_ferrari_equator() {
        let (l, h) = (f("longitude", -3., 3.), f("height", -1e5, 1e9)); let r = wt::ecef_to_geocentric_ferrari((6378137. + h) * l.cos(), (6378137. + h) * l.sin(), 0.);
        eq(r.data[0], 0., "latitude on the equator"); ang(r.data[1], l, "longitude on the equator"); le(r.data[2] - h, 1e-3, "height on the equator"); le(h - r.data[2], 1e-3, "height on the equator");
    }
    fn f03_iterative_equator() {
        let (l, h) = (f("longitude", -3., 3.), f("height", -1e5, 1e9)); let r = wt::ecef_to_geocentric((6378137. + h) * l.cos(), (6378137. + h) * l.sin(), 0.);
        eq(r.data[0], 0., "latitude on the equator"); ang(r.data[1], l, "longitude on the equator"); le(r.data[2] - h, 1e-3, "height on the equator"); le(h - r.data[2], 1e-3, "height on the equator");
    }
    fn f03_normal() {
        let (p, l, h, d) = (real("latitude"), real("longitude"), f("height", -1e5, 1e9), f("rise", -1e5, 1e5)); let (a, b) = (wt::geocentric_to_ecef(p, l, h).data.data, wt::geocentric_to_ecef(p, l, h + d).data.data);
        samev(&[b[0] - a[0], b[1] - a[1], b[2] - a[2]], &[d * p.cos() * l.cos(), d * p.cos() * l.sin(), d * p.sin()], 1e10, "altitude is measured along the surface normal");
    }
    fn f03_frames() {
        let (t, w) = (f("time", -1e9, 1e9), f("rate", -1e-3, 1e-3)); let v = Ce::new(0., 0., w); let a = wt::icrf_to_itrf(t, v); let b = wt::itrf_to_icrf(t, v);
        same(&a.as_matrix().data, &rz(w * t), "celestial to Earth-fixed"); same(&b.as_matrix().data, &rz(-w * t), "Earth-fixed to celestial"); same(&(a * b).as_matrix().data, &rz(0.), "round trip");
        let e = Earth::new(); let x = rz(7.292115146706979e-5 * t); same(&e.icrf_to_itrf(t).as_matrix().data, &x, "the Earth model turns at its rate"); same(&e.itrf_to_icrf(t).as_matrix().data, &tr(&x), "and back");
    }
}
