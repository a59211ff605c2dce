//! Oracle-side matrix helpers shared by the harness crates.
use sym::*;
pub type M3 = [[f64; 3]; 3];
pub fn rx(a: f64) -> M3 { let (c, s) = (a.cos(), a.sin()); [[1., 0., 0.], [0., c, s], [0., -s, c]] }
pub fn ry(a: f64) -> M3 { let (c, s) = (a.cos(), a.sin()); [[c, 0., -s], [0., 1., 0.], [s, 0., c]] }
pub fn rz(a: f64) -> M3 { let (c, s) = (a.cos(), a.sin()); [[c, s, 0.], [-s, c, 0.], [0., 0., 1.]] }
pub fn mm(a: &M3, b: &M3) -> M3 {
    let mut r = [[0.; 3]; 3];
    for i in 0..3 { for j in 0..3 { r[i][j] = a[i][0] * b[0][j] + a[i][1] * b[1][j] + a[i][2] * b[2][j]; } }
    r
}
pub fn mv(a: &M3, v: &[f64; 3]) -> [f64; 3] { let mut r = [0.; 3]; for i in 0..3 { r[i] = a[i][0] * v[0] + a[i][1] * v[1] + a[i][2] * v[2]; } r }
pub fn tr(a: &M3) -> M3 { let mut r = [[0.; 3]; 3]; for i in 0..3 { for j in 0..3 { r[i][j] = a[j][i]; } } r }
pub fn zyx(r: f64, p: f64, y: f64) -> M3 { mm(&rx(r), &mm(&ry(p), &rz(y))) }
pub fn same(a: &M3, b: &M3, n: &'static str) { for i in 0..3 { for j in 0..3 { eq(a[i][j], b[i][j], n); } } }
pub fn samev(a: &[f64; 3], b: &[f64; 3], s: f64, n: &'static str) { for i in 0..3 { eqs(a[i], b[i], s, n); } }
pub fn det3(a: &M3) -> f64 { a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]) }
pub fn proper(a: &M3, n: &'static str) {
    let p = mm(a, &tr(a));
    for i in 0..3 { for j in 0..3 { eq(p[i][j], (i == j) as u8 as f64, n); } }
    eq(det3(a), 1., n);
}
pub fn vec3() -> [f64; 3] { [real("vx"), real("vy"), real("vz")] }
pub fn n1(v: &[f64; 3]) -> f64 { 1. + v[0] * v[0] + v[1] * v[1] + v[2] * v[2] }
pub fn dot(a: &[f64; 3], b: &[f64; 3]) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
pub fn cross(a: &[f64; 3], b: &[f64; 3]) -> [f64; 3] { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
/// A magnitude bound without case splits (for replay tolerances).
pub fn sq(a: f64) -> f64 { a * a }
