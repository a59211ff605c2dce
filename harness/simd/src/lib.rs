use aether_core::math::arch::x86::{matrix_simd as k, vector_simd as d};
use aether_core::math::{Matrix, Vector};
use geo::*;
use sym::*;
static A: [&str; 60] = ["a00","a01","a02","a03","a04","a05","a06","a07","a08","a09","a10","a11","a12","a13","a14","a15","a16","a17","a18","a19","a20","a21","a22","a23","a24","a25","a26","a27","a28","a29","a30","a31","a32","a33","a34","a35","a36","a37","a38","a39","a40","a41","a42","a43","a44","a45","a46","a47","a48","a49","a50","a51","a52","a53","a54","a55","a56","a57","a58","a59"];
static B: [&str; 60] = ["b00","b01","b02","b03","b04","b05","b06","b07","b08","b09","b10","b11","b12","b13","b14","b15","b16","b17","b18","b19","b20","b21","b22","b23","b24","b25","b26","b27","b28","b29","b30","b31","b32","b33","b34","b35","b36","b37","b38","b39","b40","b41","b42","b43","b44","b45","b46","b47","b48","b49","b50","b51","b52","b53","b54","b55","b56","b57","b58","b59"];
trait Num: Copy + Into<f64> { fn input(n: &'static str) -> Self; const LOSS: f64; }
impl Num for f64 { fn input(n: &'static str) -> f64 { f(n, -1e6, 1e6) } const LOSS: f64 = 1.; }
impl Num for f32 { fn input(n: &'static str) -> f32 { f32v(n, -1e6, 1e6) } const LOSS: f64 = 1e6; }
fn mat<T: Num, const R: usize, const C: usize>(n: &[&'static str; 60]) -> Matrix<T, R, C> {
    let mut i = 0; Matrix { data: core::array::from_fn(|_| core::array::from_fn(|_| { i += 1; T::input(n[i - 1]) })) }
}
fn vect<T: Num, const C: usize>(n: &[&'static str; 60]) -> Vector<T, C> { let mut i = 0; Vector { data: core::array::from_fn(|_| { i += 1; T::input(n[i - 1]) }) } }
fn mv<T: Num, const R: usize, const C: usize>(g: impl Fn(&Matrix<T, R, C>, &Vector<T, C>) -> Vector<T, R>) {
    let (a, v) = (mat::<T, R, C>(&A), vect::<T, C>(&B)); let r = g(&a, &v);
    for i in 0..R {
        let (mut e, mut s) = (0., 1.); for j in 0..C { let (x, y): (f64, f64) = (a.data[i][j].into(), v.data[j].into()); e += x * y; s += sq(x) + sq(y); }
        eqs(r.data[i].into(), e, s * T::LOSS, "matrix times vector");
    }
}
fn mm<T: Num, const R: usize, const C: usize, const P: usize>(g: impl Fn(&Matrix<T, R, C>, &Matrix<T, C, P>) -> Matrix<T, R, P>) {
    let (a, b) = (mat::<T, R, C>(&A), mat::<T, C, P>(&B)); let r = g(&a, &b);
    for i in 0..R { for j in 0..P {
        let (mut e, mut s) = (0., 1.); for l in 0..C { let (x, y): (f64, f64) = (a.data[i][l].into(), b.data[l][j].into()); e += x * y; s += sq(x) + sq(y); }
        eqs(r.data[i][j].into(), e, s * T::LOSS, "matrix product");
    } }
}
fn dot<T: Num, const C: usize>(g: impl Fn(&Vector<T, C>, &Vector<T, C>) -> T) {
    let (a, b) = (vect::<T, C>(&A), vect::<T, C>(&B));
    let (mut e, mut s) = (0., 1.); for l in 0..C { let (x, y): (f64, f64) = (a.data[l].into(), b.data[l].into()); e += x * y; s += sq(x) + sq(y); }
    eqs(g(&a, &b).into(), e, s * T::LOSS, "dot product");
}
harness! {
    fn m04_dot4_avx_fma_f64() { dot(|a, b| unsafe { d::dot4_avx_fma_f64(a, b) }); }
    fn m04_dot4_avx_f64() { dot(|a, b| unsafe { d::dot4_avx_f64(a, b) }); }
    fn m04_dot4_sse_fma_f32() { dot(|a, b| unsafe { d::dot4_sse_fma_f32(a, b) }); }
    fn m04_dot4_sse_f32() { dot(|a, b| unsafe { d::dot4_sse_f32(a, b) }); }
    fn m04_mul_vec6_avx_fma_f64_1() { mv::<f64, 1, 6>(|a, v| unsafe { k::mul_vec6_avx_fma_f64(a, v) }); }
    fn m04_mul_vec6_avx_fma_f64_2() { mv::<f64, 2, 6>(|a, v| unsafe { k::mul_vec6_avx_fma_f64(a, v) }); }
    fn m04_mul_vec6_avx_fma_f64_4() { mv::<f64, 4, 6>(|a, v| unsafe { k::mul_vec6_avx_fma_f64(a, v) }); }
    fn m04_mul_vec6_avx_fma_f64_5() { mv::<f64, 5, 6>(|a, v| unsafe { k::mul_vec6_avx_fma_f64(a, v) }); }
    fn m04_mul_vec6_avx_f64_1() { mv::<f64, 1, 6>(|a, v| unsafe { k::mul_vec6_avx_f64(a, v) }); }
    fn m04_mul_vec6_avx_f64_2() { mv::<f64, 2, 6>(|a, v| unsafe { k::mul_vec6_avx_f64(a, v) }); }
    fn m04_mul_vec6_avx_f64_4() { mv::<f64, 4, 6>(|a, v| unsafe { k::mul_vec6_avx_f64(a, v) }); }
    fn m04_mul_vec6_avx_f64_5() { mv::<f64, 5, 6>(|a, v| unsafe { k::mul_vec6_avx_f64(a, v) }); }
    fn m04_mul_vec6_fma128_f64_1() { mv::<f64, 1, 6>(|a, v| unsafe { k::mul_vec6_fma128_f64(a, v) }); }
    fn m04_mul_vec6_fma128_f64_2() { mv::<f64, 2, 6>(|a, v| unsafe { k::mul_vec6_fma128_f64(a, v) }); }
    fn m04_mul_vec6_fma128_f64_4() { mv::<f64, 4, 6>(|a, v| unsafe { k::mul_vec6_fma128_f64(a, v) }); }
    fn m04_mul_vec6_fma128_f64_5() { mv::<f64, 5, 6>(|a, v| unsafe { k::mul_vec6_fma128_f64(a, v) }); }
    fn m04_mul_vec6_sse2_f64_1() { mv::<f64, 1, 6>(|a, v| unsafe { k::mul_vec6_sse2_f64(a, v) }); }
    fn m04_mul_vec6_sse2_f64_2() { mv::<f64, 2, 6>(|a, v| unsafe { k::mul_vec6_sse2_f64(a, v) }); }
    fn m04_mul_vec6_sse2_f64_4() { mv::<f64, 4, 6>(|a, v| unsafe { k::mul_vec6_sse2_f64(a, v) }); }
    fn m04_mul_vec6_sse2_f64_5() { mv::<f64, 5, 6>(|a, v| unsafe { k::mul_vec6_sse2_f64(a, v) }); }
    fn m04_mul_vec4_avx_fma_f64_1() { mv::<f64, 1, 4>(|a, v| unsafe { k::mul_vec4_avx_fma_f64(a, v) }); }
    fn m04_mul_vec4_avx_fma_f64_2() { mv::<f64, 2, 4>(|a, v| unsafe { k::mul_vec4_avx_fma_f64(a, v) }); }
    fn m04_mul_vec4_avx_fma_f64_4() { mv::<f64, 4, 4>(|a, v| unsafe { k::mul_vec4_avx_fma_f64(a, v) }); }
    fn m04_mul_vec4_avx_fma_f64_5() { mv::<f64, 5, 4>(|a, v| unsafe { k::mul_vec4_avx_fma_f64(a, v) }); }
    fn m04_mul_vec4_avx_f64_1() { mv::<f64, 1, 4>(|a, v| unsafe { k::mul_vec4_avx_f64(a, v) }); }
    fn m04_mul_vec4_avx_f64_2() { mv::<f64, 2, 4>(|a, v| unsafe { k::mul_vec4_avx_f64(a, v) }); }
    fn m04_mul_vec4_avx_f64_4() { mv::<f64, 4, 4>(|a, v| unsafe { k::mul_vec4_avx_f64(a, v) }); }
    fn m04_mul_vec4_avx_f64_5() { mv::<f64, 5, 4>(|a, v| unsafe { k::mul_vec4_avx_f64(a, v) }); }
    fn m04_mul_vec6_avx_fma_f32_1() { mv::<f32, 1, 6>(|a, v| unsafe { k::mul_vec6_avx_fma_f32(a, v) }); }
    fn m04_mul_vec6_avx_fma_f32_2() { mv::<f32, 2, 6>(|a, v| unsafe { k::mul_vec6_avx_fma_f32(a, v) }); }
    fn m04_mul_vec6_avx_fma_f32_4() { mv::<f32, 4, 6>(|a, v| unsafe { k::mul_vec6_avx_fma_f32(a, v) }); }
    fn m04_mul_vec6_avx_fma_f32_5() { mv::<f32, 5, 6>(|a, v| unsafe { k::mul_vec6_avx_fma_f32(a, v) }); }
    fn m04_mul_vec6_avx_f32_1() { mv::<f32, 1, 6>(|a, v| unsafe { k::mul_vec6_avx_f32(a, v) }); }
    fn m04_mul_vec6_avx_f32_2() { mv::<f32, 2, 6>(|a, v| unsafe { k::mul_vec6_avx_f32(a, v) }); }
    fn m04_mul_vec6_avx_f32_4() { mv::<f32, 4, 6>(|a, v| unsafe { k::mul_vec6_avx_f32(a, v) }); }
    fn m04_mul_vec6_avx_f32_5() { mv::<f32, 5, 6>(|a, v| unsafe { k::mul_vec6_avx_f32(a, v) }); }
    fn m04_mul_vec6_fma128_f32_1() { mv::<f32, 1, 6>(|a, v| unsafe { k::mul_vec6_fma128_f32(a, v) }); }
    fn m04_mul_vec6_fma128_f32_2() { mv::<f32, 2, 6>(|a, v| unsafe { k::mul_vec6_fma128_f32(a, v) }); }
    fn m04_mul_vec6_fma128_f32_4() { mv::<f32, 4, 6>(|a, v| unsafe { k::mul_vec6_fma128_f32(a, v) }); }
    fn m04_mul_vec6_fma128_f32_5() { mv::<f32, 5, 6>(|a, v| unsafe { k::mul_vec6_fma128_f32(a, v) }); }
    fn m04_mul_vec6_sse_f32_1() { mv::<f32, 1, 6>(|a, v| unsafe { k::mul_vec6_sse_f32(a, v) }); }
    fn m04_mul_vec6_sse_f32_2() { mv::<f32, 2, 6>(|a, v| unsafe { k::mul_vec6_sse_f32(a, v) }); }
    fn m04_mul_vec6_sse_f32_4() { mv::<f32, 4, 6>(|a, v| unsafe { k::mul_vec6_sse_f32(a, v) }); }
    fn m04_mul_vec6_sse_f32_5() { mv::<f32, 5, 6>(|a, v| unsafe { k::mul_vec6_sse_f32(a, v) }); }
    fn m04_mul_vec4_sse_fma_f32_1() { mv::<f32, 1, 4>(|a, v| unsafe { k::mul_vec4_sse_fma_f32(a, v) }); }
    fn m04_mul_vec4_sse_fma_f32_2() { mv::<f32, 2, 4>(|a, v| unsafe { k::mul_vec4_sse_fma_f32(a, v) }); }
    fn m04_mul_vec4_sse_fma_f32_4() { mv::<f32, 4, 4>(|a, v| unsafe { k::mul_vec4_sse_fma_f32(a, v) }); }
    fn m04_mul_vec4_sse_fma_f32_5() { mv::<f32, 5, 4>(|a, v| unsafe { k::mul_vec4_sse_fma_f32(a, v) }); }
    fn m04_mul_vec4_sse_f32_1() { mv::<f32, 1, 4>(|a, v| unsafe { k::mul_vec4_sse_f32(a, v) }); }
    fn m04_mul_vec4_sse_f32_2() { mv::<f32, 2, 4>(|a, v| unsafe { k::mul_vec4_sse_f32(a, v) }); }
    fn m04_mul_vec4_sse_f32_4() { mv::<f32, 4, 4>(|a, v| unsafe { k::mul_vec4_sse_f32(a, v) }); }
    fn m04_mul_vec4_sse_f32_5() { mv::<f32, 5, 4>(|a, v| unsafe { k::mul_vec4_sse_f32(a, v) }); }
    fn m04_mul_matrix_avx_f64_1x1x3() { mm::<f64, 1, 1, 3>(|a, b| unsafe { k::mul_matrix_avx_f64(a, b) }); }
    fn m04_mul_matrix_avx_f64_3x3x3() { mm::<f64, 3, 3, 3>(|a, b| unsafe { k::mul_matrix_avx_f64(a, b) }); }
    fn m04_mul_matrix_avx_f64_2x1x4() { mm::<f64, 2, 1, 4>(|a, b| unsafe { k::mul_matrix_avx_f64(a, b) }); }
    fn m04_mul_matrix_avx_f64_2x3x5() { mm::<f64, 2, 3, 5>(|a, b| unsafe { k::mul_matrix_avx_f64(a, b) }); }
    fn m04_mul_matrix_avx_f64_4x4x4() { mm::<f64, 4, 4, 4>(|a, b| unsafe { k::mul_matrix_avx_f64(a, b) }); }
    fn m04_mul_matrix_avx_f64_1x2x8() { mm::<f64, 1, 2, 8>(|a, b| unsafe { k::mul_matrix_avx_f64(a, b) }); }
    fn m04_mul_matrix_avx_f64_2x3x9() { mm::<f64, 2, 3, 9>(|a, b| unsafe { k::mul_matrix_avx_f64(a, b) }); }
    fn m04_mul_matrix_avx_f64_6x6x6() { mm::<f64, 6, 6, 6>(|a, b| unsafe { k::mul_matrix_avx_f64(a, b) }); }
    fn m04_mul_matrix_avx_f64_1x3x16() { mm::<f64, 1, 3, 16>(|a, b| unsafe { k::mul_matrix_avx_f64(a, b) }); }
    fn m04_mul_matrix_avx_f64_1x2x21() { mm::<f64, 1, 2, 21>(|a, b| unsafe { k::mul_matrix_avx_f64(a, b) }); }
    fn m04_mul_matrix_avx_fma_f64_1x1x3() { mm::<f64, 1, 1, 3>(|a, b| unsafe { k::mul_matrix_avx_fma_f64(a, b) }); }
    fn m04_mul_matrix_avx_fma_f64_3x3x3() { mm::<f64, 3, 3, 3>(|a, b| unsafe { k::mul_matrix_avx_fma_f64(a, b) }); }
    fn m04_mul_matrix_avx_fma_f64_2x1x4() { mm::<f64, 2, 1, 4>(|a, b| unsafe { k::mul_matrix_avx_fma_f64(a, b) }); }
    fn m04_mul_matrix_avx_fma_f64_2x3x5() { mm::<f64, 2, 3, 5>(|a, b| unsafe { k::mul_matrix_avx_fma_f64(a, b) }); }
    fn m04_mul_matrix_avx_fma_f64_4x4x4() { mm::<f64, 4, 4, 4>(|a, b| unsafe { k::mul_matrix_avx_fma_f64(a, b) }); }
    fn m04_mul_matrix_avx_fma_f64_1x2x8() { mm::<f64, 1, 2, 8>(|a, b| unsafe { k::mul_matrix_avx_fma_f64(a, b) }); }
    fn m04_mul_matrix_avx_fma_f64_2x3x9() { mm::<f64, 2, 3, 9>(|a, b| unsafe { k::mul_matrix_avx_fma_f64(a, b) }); }
    fn m04_mul_matrix_avx_fma_f64_6x6x6() { mm::<f64, 6, 6, 6>(|a, b| unsafe { k::mul_matrix_avx_fma_f64(a, b) }); }
    fn m04_mul_matrix_avx_fma_f64_1x3x16() { mm::<f64, 1, 3, 16>(|a, b| unsafe { k::mul_matrix_avx_fma_f64(a, b) }); }
    fn m04_mul_matrix_avx_fma_f64_1x2x21() { mm::<f64, 1, 2, 21>(|a, b| unsafe { k::mul_matrix_avx_fma_f64(a, b) }); }
    fn m04_mul_matrix_avx_f32_1x1x3() { mm::<f32, 1, 1, 3>(|a, b| unsafe { k::mul_matrix_avx_f32(a, b) }); }
    fn m04_mul_matrix_avx_f32_3x3x3() { mm::<f32, 3, 3, 3>(|a, b| unsafe { k::mul_matrix_avx_f32(a, b) }); }
    fn m04_mul_matrix_avx_f32_2x1x4() { mm::<f32, 2, 1, 4>(|a, b| unsafe { k::mul_matrix_avx_f32(a, b) }); }
    fn m04_mul_matrix_avx_f32_2x3x5() { mm::<f32, 2, 3, 5>(|a, b| unsafe { k::mul_matrix_avx_f32(a, b) }); }
    fn m04_mul_matrix_avx_f32_4x4x4() { mm::<f32, 4, 4, 4>(|a, b| unsafe { k::mul_matrix_avx_f32(a, b) }); }
    fn m04_mul_matrix_avx_f32_1x2x8() { mm::<f32, 1, 2, 8>(|a, b| unsafe { k::mul_matrix_avx_f32(a, b) }); }
    fn m04_mul_matrix_avx_f32_2x3x9() { mm::<f32, 2, 3, 9>(|a, b| unsafe { k::mul_matrix_avx_f32(a, b) }); }
    fn m04_mul_matrix_avx_f32_6x6x6() { mm::<f32, 6, 6, 6>(|a, b| unsafe { k::mul_matrix_avx_f32(a, b) }); }
    fn m04_mul_matrix_avx_f32_1x3x16() { mm::<f32, 1, 3, 16>(|a, b| unsafe { k::mul_matrix_avx_f32(a, b) }); }
    fn m04_mul_matrix_avx_f32_1x2x21() { mm::<f32, 1, 2, 21>(|a, b| unsafe { k::mul_matrix_avx_f32(a, b) }); }
    fn m04_mul_matrix_avx_fma_f32_1x1x3() { mm::<f32, 1, 1, 3>(|a, b| unsafe { k::mul_matrix_avx_fma_f32(a, b) }); }
    fn m04_mul_matrix_avx_fma_f32_3x3x3() { mm::<f32, 3, 3, 3>(|a, b| unsafe { k::mul_matrix_avx_fma_f32(a, b) }); }
    fn m04_mul_matrix_avx_fma_f32_2x1x4() { mm::<f32, 2, 1, 4>(|a, b| unsafe { k::mul_matrix_avx_fma_f32(a, b) }); }
    fn m04_mul_matrix_avx_fma_f32_2x3x5() { mm::<f32, 2, 3, 5>(|a, b| unsafe { k::mul_matrix_avx_fma_f32(a, b) }); }
    fn m04_mul_matrix_avx_fma_f32_4x4x4() { mm::<f32, 4, 4, 4>(|a, b| unsafe { k::mul_matrix_avx_fma_f32(a, b) }); }
    fn m04_mul_matrix_avx_fma_f32_1x2x8() { mm::<f32, 1, 2, 8>(|a, b| unsafe { k::mul_matrix_avx_fma_f32(a, b) }); }
    fn m04_mul_matrix_avx_fma_f32_2x3x9() { mm::<f32, 2, 3, 9>(|a, b| unsafe { k::mul_matrix_avx_fma_f32(a, b) }); }
    fn m04_mul_matrix_avx_fma_f32_6x6x6() { mm::<f32, 6, 6, 6>(|a, b| unsafe { k::mul_matrix_avx_fma_f32(a, b) }); }
    fn m04_mul_matrix_avx_fma_f32_1x3x16() { mm::<f32, 1, 3, 16>(|a, b| unsafe { k::mul_matrix_avx_fma_f32(a, b) }); }
    fn m04_mul_matrix_avx_fma_f32_1x2x21() { mm::<f32, 1, 2, 21>(|a, b| unsafe { k::mul_matrix_avx_fma_f32(a, b) }); }
    // ------------------------------------------------ the dispatching methods on this processor
    fn m04_dispatch_dot() { dot::<f64, 4>(|a, b| a.dot4_simd(b)); }
    fn m04_dispatch_dot_f32() { dot::<f32, 4>(|a, b| a.dot4_simd(b)); }
    fn m04_dispatch_vec4_f64() { mv::<f64, 3, 4>(|a, v| a.mul_vec4_simd(v)); }
    fn m04_dispatch_vec6_f64() { mv::<f64, 3, 6>(|a, v| a.mul_vec6_simd(v)); }
    fn m04_dispatch_vec4_f32() { mv::<f32, 3, 4>(|a, v| a.mul_vec4_simd(v)); }
    fn m04_dispatch_vec6_f32() { mv::<f32, 3, 6>(|a, v| a.mul_vec6_simd(v)); }
    fn m04_dispatch_matrix_f64() { mm::<f64, 2, 3, 9>(|a, b| a.mul_matrix_simd(b)); }
    fn m04_dispatch_matrix_f32() { mm::<f32, 2, 3, 9>(|a, b| a.mul_matrix_simd(b)); }
    fn m04_mat3_f64() { mm::<f64, 3, 3, 3>(|a, b| a.mul_mat3_simd(b)); }
    fn m04_mat4_f64() { mm::<f64, 4, 4, 4>(|a, b| a.mul_mat4_simd(b)); }
    fn m04_mat6_f64() { mm::<f64, 6, 6, 6>(|a, b| a.mul_mat6_simd(b)); }
    fn m04_mat3_f32() { mm::<f32, 3, 3, 3>(|a, b| a.mul_mat3_simd(b)); }
    fn m04_mat4_f32() { mm::<f32, 4, 4, 4>(|a, b| a.mul_mat4_simd(b)); }
    fn m04_mat6_f32() { mm::<f32, 6, 6, 6>(|a, b| a.mul_mat6_simd(b)); }
    // ------------------------------------------------ and on one without vector features (symbolically; natively this processor's)
    fn m04_scalar_dot() { dot::<f64, 4>(|a, b| a.dot4_simd(b)); }
    fn m04_scalar_dot_f32() { dot::<f32, 4>(|a, b| a.dot4_simd(b)); }
    fn m04_scalar_vec4_f64() { mv::<f64, 3, 4>(|a, v| a.mul_vec4_simd(v)); }
    fn m04_scalar_vec6_f64() { mv::<f64, 3, 6>(|a, v| a.mul_vec6_simd(v)); }
    fn m04_scalar_vec4_f32() { mv::<f32, 3, 4>(|a, v| a.mul_vec4_simd(v)); }
    fn m04_scalar_vec6_f32() { mv::<f32, 3, 6>(|a, v| a.mul_vec6_simd(v)); }
    fn m04_scalar_matrix_f64() { mm::<f64, 2, 3, 9>(|a, b| a.mul_matrix_simd(b)); }
    fn m04_scalar_matrix_f32() { mm::<f32, 2, 3, 9>(|a, b| a.mul_matrix_simd(b)); }
}
