use aether_core::math::{Matrix, Tensor3, Tensor4, TensorView, TensorViewMut, Vector};
use aether_core::numerical_methods::solvers::*;
use geo::*;
use sym::*;
/// Entry names for inputs: static strings m0..
macro_rules! names { ($($p:literal)*) => { [$($p),*] } }
static N: [&str; 90] = names!["e00""e01""e02""e03""e04""e05""e06""e07""e08""e09""e10""e11""e12""e13""e14""e15""e16""e17""e18""e19""e20""e21""e22""e23""e24""e25""e26""e27""e28""e29""e30""e31""e32""e33""e34""e35""e36""e37""e38""e39""e40""e41""e42""e43""e44""e45""e46""e47""e48""e49""e50""e51""e52""e53""e54""e55""e56""e57""e58""e59""e60""e61""e62""e63""e64""e65""e66""e67""e68""e69""e70""e71""e72""e73""e74""e75""e76""e77""e78""e79""e80""e81""e82""e83""e84""e85""e86""e87""e88""e89"];
static B: [&str; 90] = names!["b00""b01""b02""b03""b04""b05""b06""b07""b08""b09""b10""b11""b12""b13""b14""b15""b16""b17""b18""b19""b20""b21""b22""b23""b24""b25""b26""b27""b28""b29""b30""b31""b32""b33""b34""b35""b36""b37""b38""b39""b40""b41""b42""b43""b44""b45""b46""b47""b48""b49""b50""b51""b52""b53""b54""b55""b56""b57""b58""b59""b60""b61""b62""b63""b64""b65""b66""b67""b68""b69""b70""b71""b72""b73""b74""b75""b76""b77""b78""b79""b80""b81""b82""b83""b84""b85""b86""b87""b88""b89"];
fn mat<const R: usize, const C: usize>(n: &[&'static str; 90], lo: f64, hi: f64) -> Matrix<f64, R, C> {
    let mut d = [[0.; C]; R]; for i in 0..R { for j in 0..C { d[i][j] = f(n[i * C + j], lo, hi); } } Matrix::new(d)
}
fn ma<const R: usize, const C: usize>() -> Matrix<f64, R, C> { mat(&N, f64::NEG_INFINITY, f64::INFINITY) }
fn mb<const R: usize, const C: usize>() -> Matrix<f64, R, C> { mat(&B, f64::NEG_INFINITY, f64::INFINITY) }
fn va<const R: usize>() -> Vector<f64, R> { let mut d = [0.; R]; for i in 0..R { d[i] = real(N[i]); } Vector::new(d) }
fn vb<const R: usize>() -> Vector<f64, R> { let mut d = [0.; R]; for i in 0..R { d[i] = real(B[i]); } Vector::new(d) }
fn prod<const R: usize, const C: usize, const P: usize>() {
    let (a, b) = (ma::<R, C>(), mb::<C, P>());
    let r = [a * b, &a * &b, a * &b, &a * b];
    let (mut s, mut sa, mut sb) = (0., 1., 1.);
    for i in 0..R { for k in 0..C { sa += sq(a.data[i][k]); } } for i in 0..C { for k in 0..P { sb += sq(b.data[i][k]); } } s += sa * sb;
    for i in 0..R { for j in 0..P {
        let mut e = 0.; for k in 0..C { e += a.data[i][k] * b.data[k][j]; }
        for x in &r { eqs(x.data[i][j], e, s, "matrix product"); }
    } }
}
fn prodv<const R: usize, const C: usize>() {
    let (a, v) = (ma::<R, C>(), vb::<C>());
    let r = [a * v, &a * &v, a * &v, &a * v];
    let (mut sa, mut sv) = (1., 1.); for i in 0..R { for k in 0..C { sa += sq(a.data[i][k]); } } for k in 0..C { sv += sq(v.data[k]); }
    for i in 0..R {
        let mut e = 0.; for k in 0..C { e += a.data[i][k] * v.data[k]; }
        for x in &r { eqs(x.data[i], e, sa * sv, "matrix times vector"); }
    }
}
fn entries<const R: usize, const C: usize>() {
    let (a, b, k) = (ma::<R, C>(), mb::<R, C>(), real("k"));
    let t = a.transpose(); let (s, d, n, m) = (a + b, a - b, -a, a * k);
    for i in 0..R { for j in 0..C {
        let (x, y) = (a.data[i][j], b.data[i][j]); let q = 1. + sq(x) + sq(y);
        eq(t.data[j][i], x, "transpose"); eqs(s.data[i][j], x + y, q, "sum"); eqs(d.data[i][j], x - y, q, "difference");
        eq(n.data[i][j], -x, "negation"); eqs(m.data[i][j], x * k, q * (1. + sq(k)), "scaling"); eq(a[(i, j)], x, "index"); eq(a[i][j], x, "row index");
        eq(Matrix::<f64, R, C>::zeros().data[i][j], 0., "zeros"); eq(Matrix::<f64, R, C>::ones().data[i][j], 1., "ones"); eq(Matrix::<f64, R, C>::default().data[i][j], 0., "default");
    } }
    let o = Matrix::<f64, R, C>::outer(&a.transpose().row0(), &b.row0c());
    for i in 0..R { for j in 0..C { eqs(o.data[i][j], a.data[i][0] * b.data[0][j], 1. + sq(a.data[i][0]) * sq(b.data[0][j]), "outer product"); } }
}
trait Rows<const C: usize> { fn row0(&self) -> Vector<f64, C>; fn row0c(&self) -> Vector<f64, C> { self.row0() } }
impl<const R: usize, const C: usize> Rows<C> for Matrix<f64, R, C> { fn row0(&self) -> Vector<f64, C> { Vector::new(self.data[0]) } }
fn square<const K: usize>() {
    let a = ma::<K, K>(); let d = va_k::<K>(); let mut t = 0.; let mut s = 1.;
    for i in 0..K { t += a.data[i][i]; s += sq(a.data[i][i]); }
    eqs(a.trace(), t, s, "trace");
    let (id, dg, dv) = (Matrix::<f64, K, K>::identity(), Matrix::diag(&d), Matrix::diag_from_vector(&Vector::new(d)));
    for i in 0..K { for j in 0..K {
        let e = (i == j) as u8 as f64;
        eq(id.data[i][j], e, "identity"); eq(dg.data[i][j], e * d[i], "diagonal"); eq(dv.data[i][j], e * d[i], "diagonal from a vector");
    } }
}
fn va_k<const K: usize>() -> [f64; K] { let mut d = [0.; K]; for i in 0..K { d[i] = real(B[i]); } d }
fn maxabs<const R: usize, const C: usize>() {
    let a = ma::<R, C>(); let m = a.max_abs(); let mut hit = false;
    for i in 0..R { for j in 0..C { le(a.data[i][j].abs(), m, "max_abs bounds every entry"); hit |= a.data[i][j].abs() == m; } }
    check(hit, "max_abs is attained");
}
fn det2(a: &Matrix<f64, 2, 2>) -> f64 { a.data[0][0] * a.data[1][1] - a.data[0][1] * a.data[1][0] }
fn is_inverse<const K: usize>(a: &Matrix<f64, K, K>, x: &Matrix<f64, K, K>, n: &'static str) {
    for i in 0..K { for j in 0..K {
        let (mut l, mut r) = (0., 0.); for k in 0..K { l += a.data[i][k] * x.data[k][j]; r += x.data[i][k] * a.data[k][j]; }
        let e = (i == j) as u8 as f64; eqs(l, e, 1e4, n); eqs(r, e, 1e4, n);
    } }
}
fn solves<const K: usize>(a: &Matrix<f64, K, K>, b: &Vector<f64, K>, x: &Vector<f64, K>, n: &'static str) {
    for i in 0..K { let mut l = 0.; for k in 0..K { l += a.data[i][k] * x.data[k]; } eqs(l, b.data[i], 1e4, n); }
}
/// Lower triangular with diagonal in [0.1, 10].
fn low<const K: usize>() -> Matrix<f64, K, K> {
    let mut d = [[0.; K]; K]; for i in 0..K { for j in 0..=i { d[i][j] = if i == j { f(N[i * K + j], 0.1, 10.) } else { f(N[i * K + j], -10., 10.) }; } } Matrix::new(d)
}
fn bounded<const K: usize>() -> Vector<f64, K> { let mut d = [0.; K]; for i in 0..K { d[i] = f(B[i], -10., 10.); } Vector::new(d) }
fn chol<const K: usize>() {
    let l = low::<K>(); let mut a = [[0.; K]; K];
    for i in 0..K { for j in 0..K { for k in 0..K { a[i][j] += l.data[i][k] * l.data[j][k]; } } }
    let a = Matrix::new(a); let b = bounded::<K>();
    let c = a.cholesky_lower(); check(c.is_some(), "a positive definite matrix is accepted");
    if let Some(c) = c { for i in 0..K { for j in 0..K { eqs(c.l.data[i][j], l.data[i][j], 100., "Cholesky factor"); } } }
    match a.cholesky_solve(&b) { Some(x) => solves(&a, &b, &x, "Cholesky solution"), None => check(false, "a positive definite system is solved") }
}
fn dots<const K: usize>() {
    let (a, c) = (va::<K>(), vb::<K>()); let k = real("k"); let (mut d, mut na, mut s) = (0., 0., 1.);
    for i in 0..K { d += a.data[i] * c.data[i]; na += a.data[i] * a.data[i]; s += sq(a.data[i]) + sq(c.data[i]); }
    for x in [a.dot(&c), a * c, &a * &c, a * &c, &a * c] { eqs(x, d, s * s, "dot product"); }
    eqs(a.norm() * a.norm(), na, s * s, "norm squared"); le(0., a.norm(), "norm sign"); eqs(a.magnitude(), a.norm(), s, "magnitude");
    for i in 0..K {
        let (x, y) = (a.data[i], c.data[i]);
        for r in [a + c, &a + &c, &a + c, a + &c] { eqs(r.data[i], x + y, s, "sum"); }
        for r in [a - c, &a - &c, &a - c, a - &c] { eqs(r.data[i], x - y, s, "difference"); }
        for r in [-a, -&a] { eqs(r.data[i], -x, s, "negation"); }
        for r in [a * k, &a * k] { eqs(r.data[i], x * k, s * (1. + sq(k)), "scaling"); }
        let mut t = a; t += c; eqs(t.data[i], x + y, s, "add-assign"); let mut t = a; t += &c; eqs(t.data[i], x + y, s, "add-assign by reference");
        let mut t = a; t -= c; eqs(t.data[i], x - y, s, "sub-assign"); let mut t = a; t -= &c; eqs(t.data[i], x - y, s, "sub-assign by reference");
        eq(a[i], x, "index"); eqs(a.map(|q| q + 1.).data[i], x + 1., s, "map"); eq(a.row().data[0][i], x, "row"); eq(a.col().data[i][0], x, "column");
        eq(a.iter_copied().collect::<Vector<f64, K>>().data[i], x, "collect");
    }
}
fn norms<const K: usize>() {
    let u = unit::<K>("u"); let k = f("len", 1e-6, 1e6); let a = Vector::new(u.map(|x| x * k));
    let n = a.normalize(); let (t, l) = a.try_normalize();
    for i in 0..K { eq(n.data[i], u[i], "direction"); eq(t.data[i], u[i], "direction, checked form"); }
    eqs(l, k, k, "length");
}
fn angles<const K: usize>() {
    let (u, w) = (unit::<K>("u"), unit::<K>("w")); let (k, l) = (f("k", 1e-3, 1e3), f("l", 1e-3, 1e3));
    let t = Vector::new(u.map(|x| x * k)).angle(&Vector::new(w.map(|x| x * l))); let mut d = 0.; for i in 0..K { d += u[i] * w[i]; }
    le(0., t, "angle not negative"); le(t, core::f64::consts::PI, "angle at most pi"); eqs(t.cos(), d, 1., "cosine of the angle");
}
static S: [&str; 3] = ["neg0", "neg1", "neg2"];
/// Every regular 3x3 matrix with pivots of magnitude 0.1 to 10: rows of L U in any order (|L| <= 1 is what partial pivoting yields).
fn reg3() -> Matrix<f64, 3, 3> { reg3o(order(6) as i64) }
fn reg3o(ord: i64) -> Matrix<f64, 3, 3> {
    let l = [f("l10", -1., 1.), f("l20", -1., 1.), f("l21", -1., 1.)];
    let mut d = [0.; 3]; for k in 0..3 { d[k] = f(N[4 * k], 0.1, 10.) * if b(S[k]) { -1. } else { 1. }; }
    let (p, q, r) = (f(N[1], -10., 10.), f(N[2], -10., 10.), f(N[5], -10., 10.));
    let rows = [[d[0], p, q], [l[0] * d[0], l[0] * p + d[1], l[0] * q + r], [l[1] * d[0], l[1] * p + l[2] * d[1], l[1] * q + l[2] * r + d[2]]];
    let o = match ord { 0 => [0, 1, 2], 1 => [0, 2, 1], 2 => [1, 0, 2], 3 => [1, 2, 0], 4 => [2, 0, 1], _ => [2, 1, 0] };
    Matrix::new([rows[o[0]], rows[o[1]], rows[o[2]]])
}
fn reg2() -> Matrix<f64, 2, 2> { let a = mat::<2, 2>(&N, -10., 10.); assume(det2(&a).abs() >= 0.1); a }
/// A matrix with a dominant symbolic diagonal and fixed other entries, its rows moved by `ord` (Lehmer code): pivoting has one choice in every column.
fn dom<const K: usize>(mut ord: usize) -> Matrix<f64, K, K> {
    let mut d = [[0.; K]; K];
    for i in 0..K { for j in 0..K { d[i][j] = if i == j { f(N[i], 2., 10.) * if i == 1 { -1. } else { 1. } } else { ((i * 3 + j * 5 + i * j) % 5) as f64 * 0.125 - 0.25 }; } }
    for i in 0..K { let r = ord % (K - i); ord /= K - i; d.swap(i, i + r); }
    Matrix::new(d)
}
fn order(n: usize) -> usize { let o = i("order", 0, n as i64 - 1); for k in 0..n { if split(o == k as i64) { return k; } } 0 }
fn leibniz<const K: usize>(a: &Matrix<f64, K, K>, used: usize, row: usize) -> f64 {
    if row == K { return 1.; }
    let mut s = 0.; let mut sign = 1.;
    for c in 0..K { if used >> c & 1 == 0 { s += sign * a.data[row][c] * leibniz(a, used | 1 << c, row + 1); sign = -sign; } }
    s
}
fn large<const K: usize>(ord: usize) {
    let a = dom::<K>(ord); let r = bounded::<K>();
    eqs(a.determinant(), leibniz(&a, 0, 0), 1e4, "determinant");
    match a.solve(&r) { Some(x) => solves(&a, &r, &x, "solution"), None => check(false, "a regular system is solved") }
    match a.inverse_gauss_jordan() { Some(x) => is_inverse(&a, &x, "inverse"), None => check(false, "a regular matrix has an inverse") }
}
fn factors<const K: usize>(a: &Matrix<f64, K, K>, det: f64, scale: f64) {
    let Some(d) = a.lu_decompose() else { return };
    let mut p = d.sign as f64;
    for i in 0..K {
        p *= d.lu.data[i][i];
        for j in 0..K { let mut s = 0.; for k in 0..=i.min(j) { s += if k == i { d.lu.data[k][j] } else { d.lu.data[i][k] * d.lu.data[k][j] }; } eqs(s, a.data[d.piv[i]][j], scale, "L U is the permuted matrix"); }
    }
    eqs(p, det, scale, "sign and pivots give the determinant");
}
harness! {
    // ---------------------------------------------------------------- M01
    fn m01_products() { prod::<1, 1, 1>(); }
    fn m01_2x3x4() { prod::<2, 3, 4>(); }
    fn m01_4x1x3() { prod::<4, 1, 3>(); }
    fn m01_3x3x3() { prod::<3, 3, 3>(); }
    fn m01_6x2x1() { prod::<6, 2, 1>(); }
    fn m01_8x8x1() { prod::<8, 8, 1>(); }
    fn m01_blocked_9x3x2() { prod::<9, 3, 2>(); }
    fn m01_blocked_2x9x3() { prod::<2, 9, 3>(); }
    fn m01_blocked_2x3x17() { prod::<2, 3, 17>(); }
    fn m01_blocked_2x18x2() { prod::<2, 18, 2>(); }
    fn m01_blocked_1x17x5() { prod::<1, 17, 5>(); }
    fn m01_blocked_2x2x34() { prod::<2, 2, 34>(); }
    fn m01_blocked_2x33x2() { prod::<2, 33, 2>(); }
    fn m01_vector() { prodv::<3, 3>(); }
    fn m01_vector_4x2() { prodv::<4, 2>(); }
    fn m01_vector_2x7() { prodv::<2, 7>(); }
    fn m01_entries() { entries::<3, 3>(); }
    fn m01_entries_2x4() { entries::<2, 4>(); }
    fn m01_entries_3x1() { entries::<3, 1>(); }
    fn m01_square() { square::<3>(); }
    fn m01_square4() { square::<4>(); }
    fn m01_flat() { let a = ma::<4, 4>(); let x = a.as_flat_array(); for i in 0..4 { for j in 0..4 { eq(x[4 * i + j], a.data[i][j], "flat array in row order"); } } }
    fn m01_div() { let a = ma::<2, 3>(); let k = f("k", 0.001, 1000.) * if b("neg") { -1. } else { 1. }; let r = a / k; for i in 0..2 { for j in 0..3 { eqs(r.data[i][j] * k, a.data[i][j], 1. + sq(a.data[i][j]), "division"); } } }
    fn m01_maxabs() { maxabs::<2, 2>(); }
    fn m01_cast() {
        let a = ma::<2, 3>(); let r: Matrix<f64, 2, 3> = a.cast(); for i in 0..2 { for j in 0..3 { eq(r.data[i][j], a.data[i][j], "cast"); } }
        let s = Matrix::<f32, 2, 2>::new([[f32v("p", -9., 9.), f32v("q", -9., 9.)], [f32v("r", -9., 9.), f32v("s", -9., 9.)]]); let w: Matrix<f64, 2, 2> = s.into(); let v: Matrix<f64, 2, 2> = s.cast();
        for i in 0..2 { for j in 0..2 { eq(w.data[i][j], s.data[i][j] as f64, "widening"); eq(v.data[i][j], s.data[i][j] as f64, "widening cast"); } }
        let n: Matrix<f32, 2, 2> = w.into(); for i in 0..2 { for j in 0..2 { eq(n.data[i][j] as f64, s.data[i][j] as f64, "narrowing"); } }
    }
    // ---------------------------------------------------------------- M02
    fn m02_det1() { let a = mat::<1, 1>(&N, -10., 10.); assume(sq(a.data[0][0]) >= 1e-3); eqs(a.determinant(), a.data[0][0], 10., "determinant"); }
    fn m02_det2() { let a = reg2(); eqs(a.determinant(), det2(&a), 100., "determinant"); }
    fn m02_det3() { let a = reg3(); eqs(a.determinant(), det3(&a.data), 1000., "determinant"); }
    fn m02_inverse3() { let a = reg3(); match a.inverse() { Some(x) => is_inverse(&a, &x, "inverse"), None => check(false, "a regular matrix has an inverse") } }
    fn m02_gauss1() { let a = mat::<1, 1>(&N, -10., 10.); assume(a.data[0][0].abs() >= 1e-3); match a.inverse_gauss_jordan() { Some(x) => is_inverse(&a, &x, "inverse"), None => check(false, "a regular matrix has an inverse") } }
    fn m02_gauss2() { let a = reg2(); match a.inverse_gauss_jordan() { Some(x) => is_inverse(&a, &x, "inverse"), None => check(false, "a regular matrix has an inverse") } }
    fn m02_gauss3() { let a = reg3o(4); match a.inverse_gauss_jordan() { Some(x) => is_inverse(&a, &x, "inverse"), None => check(false, "a regular matrix has an inverse") } }
    fn m02_gauss3_thorough() { let a = reg3(); match a.inverse_gauss_jordan() { Some(x) => is_inverse(&a, &x, "inverse"), None => check(false, "a regular matrix has an inverse") } }
    fn m02_lu1() { let a = mat::<1, 1>(&N, -10., 10.); assume(a.data[0][0].abs() >= 1e-3); let r = bounded::<1>(); match a.solve(&r) { Some(x) => solves(&a, &r, &x, "solution"), None => check(false, "a regular system is solved") } }
    fn m02_lu2() { let a = reg2(); let r = bounded::<2>(); match a.solve(&r) { Some(x) => solves(&a, &r, &x, "solution"), None => check(false, "a regular system is solved") } }
    fn m02_lu3() { let a = reg3(); let r = bounded::<3>(); match a.solve(&r) { Some(x) => solves(&a, &r, &x, "solution"), None => check(false, "a regular system is solved") } }
    fn m02_lu_multi() {
        let a = reg2(); let r = mat::<2, 3>(&B, -10., 10.);
        match a.solve_multi(&r) { None => check(false, "a regular system is solved"), Some(x) => for c in 0..3 { solves(&a, &Vector::new([r.data[0][c], r.data[1][c]]), &Vector::new([x.data[0][c], x.data[1][c]]), "solution of each column"); } }
    }
    fn m02_large4() { large::<4>(order(24)); }
    fn m02_large5() { large::<5>([0, 1, 5, 119, 62, 33][order(6)]); }
    fn m02_factors4() { let a = dom::<4>(order(24)); factors(&a, leibniz(&a, 0, 0), 1e4); }
    fn m02_factors3() { let a = reg3o(3); factors(&a, det3(&a.data), 1e3); }
    fn m02_multi3() {
        let a = reg3o(3); let r = mat::<3, 2>(&B, -10., 10.);
        match a.solve_multi(&r) { None => check(false, "a regular system is solved"), Some(x) => for c in 0..2 { solves(&a, &Vector::new([r.data[0][c], r.data[1][c], r.data[2][c]]), &Vector::new([x.data[0][c], x.data[1][c], x.data[2][c]]), "solution of each column"); } }
    }
    fn m02_singular3() {
        let (p, q, r) = (f("p", -10., 10.), f("q", -10., 10.), f("r", -10., 10.)); let w = i("row", 0, 2) as usize; let k = i("k", -2, 2) as f64;
        let base = [[4., 1., 2.], [p, q, r], [4. * k, k, 2. * k]]; let mut d = [[0.; 3]; 3]; for j in 0..3 { d[j] = base[(j + w) % 3]; }
        let a = Matrix::new(d);
        check(a.lu_decompose().is_none(), "a singular matrix is not factored"); check(a.inverse_gauss_jordan().is_none(), "a singular matrix has no inverse"); eq(a.determinant(), 0., "a singular matrix has determinant zero");
    }
    fn m02_lu_factors() {
        let a = reg2();
        if let Some(d) = a.lu_decompose() {
            let l = [[1., 0.], [d.lu.data[1][0], 1.]]; let u = [[d.lu.data[0][0], d.lu.data[0][1]], [0., d.lu.data[1][1]]];
            for i in 0..2 { for j in 0..2 { eqs(l[i][0] * u[0][j] + l[i][1] * u[1][j], a.data[d.piv[i]][j], 100., "L U is the permuted matrix"); } }
            le(d.lu.data[1][0].abs(), 1., "pivoting bounds the multipliers");
            eqs(d.sign as f64 * d.lu.data[0][0] * d.lu.data[1][1], det2(&a), 100., "sign and pivots give the determinant");
        } else { check(false, "a regular matrix is factored") }
    }
    fn m02_singular() {
        let (p, q) = (f("p", -10., 10.), f("q", -10., 10.)); let k = i("k", -3, 3) as f64;
        let a = Matrix::new([[p, q], [k * p, k * q]]);
        check(a.lu_decompose().is_none(), "a singular matrix is not factored"); check(a.inverse_gauss_jordan().is_none(), "a singular matrix has no inverse"); eq(a.determinant(), 0., "a singular matrix has determinant zero");
    }
    fn m02_chol1() { chol::<1>(); }
    fn m02_chol2() { chol::<2>(); }
    fn m02_chol3() { chol::<3>(); }
    fn m02_chol4() { chol::<4>(); }
    fn m02_chol_reject() {
        let (a, c, d) = (f("a", -10., 10.), f("c", -10., 10.), f("d", -10., 10.)); let m = Matrix::new([[a, c], [c, d]]);
        assume(a < 0. || (a > 0. && a * d - c * c < 0.));
        check(m.cholesky_lower().is_none(), "an indefinite matrix is rejected");
    }
    // ---------------------------------------------------------------- M03
    fn m03_dim1() { dots::<1>(); }
    fn m03_dim2() { dots::<2>(); }
    fn m03_dim3() { dots::<3>(); }
    fn m03_dim4() { dots::<4>(); }
    fn m03_dim6() { dots::<6>(); }
    fn m03_div() { let a = va::<3>(); let k = f("k", 0.001, 1000.) * if b("neg") { -1. } else { 1. }; for r in [a / k, &a / k] { for i in 0..3 { eqs(r.data[i] * k, a.data[i], 1. + sq(a.data[i]), "division"); } } }
    fn m03_cross() {
        let (a, c) = (va::<3>(), vb::<3>()); let x = a.cross(&c); let s = n1(&a.data) * n1(&c.data);
        samev(&x.data, &cross(&a.data, &c.data), s, "cross product, right-handed");
        eqs(x.dot(&a), 0., s * s, "orthogonal to the first"); eqs(x.dot(&c), 0., s * s, "orthogonal to the second");
    }
    fn m03_norm2() { norms::<2>(); }
    fn m03_norm3() { norms::<3>(); }
    fn m03_norm4() { norms::<4>(); }
    fn m03_zero_norm() { let z = Vector::new([0.; 3]); let (t, l) = z.try_normalize(); eq(l, 0., "zero length"); samev(&t.data, &[0.; 3], 1., "zero vector kept"); eq(z.angle(&va::<3>()), 0., "angle with the zero vector"); }
    fn m03_angle2() { angles::<2>(); }
    fn m03_angle3() { angles::<3>(); }
    fn m03_degrees() {
        use aether_core::utils::{ToDegrees, ToRadians};
        let a = va::<2>(); let (r, d) = (a.to_radians(), a.to_degrees());
        for i in 0..2 { eqs(r.data[i], a.data[i] * core::f64::consts::PI / 180., 1. + sq(a.data[i]), "to radians"); eqs(d.data[i], a.data[i] * 180. / core::f64::consts::PI, 60. * (1. + sq(a.data[i])), "to degrees"); }
    }
    // ---------------------------------------------------------------- M05
    fn m05_tensor3() {
        let mut d = [[[0.; 2]; 4]; 3]; let mut n = 0; for p in d.iter_mut() { for q in p.iter_mut() { for r in q.iter_mut() { *r = real(N[n]); n += 1; } } }
        let o = d; let mut t = Tensor3::new(d); let (x, y, z) = (u("i", 0, 2) as usize, u("j", 0, 3) as usize, u("k", 0, 1) as usize);
        eq(t[(x, y, z)], o[x][y][z], "reads the indexed element"); eq(t.as_flat()[(x * 4 + y) * 2 + z], o[x][y][z], "flat layout is row-major"); ieq(t.as_flat().len() as i64, 24, "flat length");
        let v = real("v"); t[(x, y, z)] = v;
        for a in 0..3 { for b in 0..4 { for c in 0..2 { eq(t[(a, b, c)], if (a, b, c) == (x, y, z) { v } else { o[a][b][c] }, "a write changes exactly one element"); } } }
        check(Tensor3::<f64, 3, 4, 2>::dims() == (3, 4, 2), "dimensions");
    }
    fn m05_tensor3_flat() {
        let mut t = Tensor3::new([[[0.; 2]; 3]; 2]); for (n, r) in t.as_flat_mut().iter_mut().enumerate() { *r = real(N[n]); }
        for a in 0..2 { for b in 0..3 { for c in 0..2 { eq(t.data[a][b][c], t.as_flat()[(a * 3 + b) * 2 + c], "flat write is row-major"); } } }
    }
    fn m05_tensor4() {
        let mut d = [[[[0.; 3]; 2]; 2]; 2]; let mut n = 0; for p in d.iter_mut() { for q in p.iter_mut() { for r in q.iter_mut() { for s in r.iter_mut() { *s = real(N[n]); n += 1; } } } }
        let o = d; let mut t = Tensor4::new(d); let (x, y, z, w) = (u("i", 0, 1) as usize, u("j", 0, 1) as usize, u("k", 0, 1) as usize, u("l", 0, 2) as usize);
        eq(t[(x, y, z, w)], o[x][y][z][w], "reads the indexed element");
        let v = real("v"); t[(x, y, z, w)] = v;
        for a in 0..2 { for b in 0..2 { for c in 0..2 { for e in 0..3 { eq(t[(a, b, c, e)], if (a, b, c, e) == (x, y, z, w) { v } else { o[a][b][c][e] }, "a write changes exactly one element"); } } } }
        check(Tensor4::<f64, 2, 2, 2, 3>::dims() == (2, 2, 2, 3), "dimensions");
    }
    fn m05_tensor3_bounds() {
        let t = Tensor3::new([[[1.; 2]; 4]; 3]); let (x, y, z) = (u("i", 0, 9) as usize, u("j", 0, 9) as usize, u("k", 0, 9) as usize);
        let bad = x >= 3 || y >= 4 || z >= 2; panic_ok(bad); let v = t[(x, y, z)]; check(!bad, "out-of-range access is refused"); eq(v, 1., "in range");
    }
    fn m05_tensor4_bounds() {
        let mut t = Tensor4::new([[[[1.; 2]; 2]; 3]; 2]); let (x, y, z, w) = (u("i", 0, 9) as usize, u("j", 0, 9) as usize, u("k", 0, 9) as usize, u("l", 0, 9) as usize);
        let bad = x >= 2 || y >= 3 || z >= 2 || w >= 2; panic_ok(bad); t[(x, y, z, w)] = 5.; check(!bad, "out-of-range access is refused");
    }
    fn m05_view() {
        let mut d = [0.; 24]; for (n, r) in d.iter_mut().enumerate() { *r = real(N[n]); }
        let (x, y, z) = (u("i", 0, 1) as usize, u("j", 0, 2) as usize, u("k", 0, 3) as usize); let sh = [2usize, 3, 4];
        let v = TensorView { data: &d, shape: &sh }; eq(*v.get(&[x, y, z]), d[(x * 3 + y) * 4 + z], "view reads row-major");
        let o = d; let w = real("w"); let mut m = TensorViewMut { data: &mut d, shape: &sh }; *m.get_mut(&[x, y, z]) = w;
        for n in 0..24 { eq(d[n], if n == (x * 3 + y) * 4 + z { w } else { o[n] }, "a write through a view changes exactly one element"); }
    }
    fn m05_view_bounds() {
        let d = [1.; 24]; let (x, y, z) = (u("i", 0, 40) as usize, u("j", 0, 40) as usize, u("k", 0, 40) as usize); let sh = [2usize, 3, 4];
        let bad = x >= 2 || y >= 3 || z >= 4; panic_ok(bad); let v = *TensorView { data: &d, shape: &sh }.get(&[x, y, z]); check(!bad, "out-of-range access is refused"); eq(v, 1., "in range");
    }
    fn m05_view_shapes() {
        // every shape of rank one to three with axes of length one to three, and of rank four with axes of length one or two
        let mut d = [0.; 27]; for (n, r) in d.iter_mut().enumerate() { *r = n as f64; }
        let pick = |n: &'static str, k: u64| { let v = u(n, 1, k); let mut i = 1; while i < k && !split(v == i) { i += 1; } i as usize };
        let r = pick("rank", 4); let mut sh = [1usize; 4]; for (a, n) in ["s0", "s1", "s2", "s3"].iter().enumerate() { if a < r { sh[a] = pick(n, if r == 4 { 2 } else { 3 }); } } let ix = [u("i", 0, 2) as usize, u("j", 0, 2) as usize, u("k", 0, 2) as usize, u("l", 0, 2) as usize];
        let mut want = 0; for a in 0..r { assume(ix[a] < sh[a]); want = want * sh[a] + ix[a]; }
        eq(*TensorView { data: &d, shape: &sh[..r] }.get(&ix[..r]), want as f64, "view reads row-major");
        let mut m = TensorViewMut { data: &mut d, shape: &sh[..r] }; *m.get_mut(&ix[..r]) = -1.; eq(d[want], -1., "a write through a view changes exactly one element");
    }
    fn m05_view_rank() {
        let d = [1.; 6]; let sh = [2usize, 3]; let (x, y, z) = (u("i", 0, 1) as usize, u("j", 0, 2) as usize, u("k", 0, 3) as usize);
        panic_ok(true); let v = TensorView { data: &d, shape: &sh }; let _ = v.get(&[x, y, z]); check(false, "an index of the wrong rank is refused");
    }
}
