//! The elementary functions behind every generic computation, in both builds: `aether_core` with its default
//! features (no standard library, `libm`) and the standard-library implementation, included from the same source.
use aether_core::real::real as bare;
use aether_core::utils::{ToDegrees, ToRadians};
use sym::*;
#[cfg(feature = "std")]
#[path = "/repo/crates/aether_core/src/real/real.rs"]
pub mod hosted;
fn close(a: f64, b: f64, s: f64, n: &'static str) { le((a - b) * (a - b), s * s * 1e-12, n) }
/// every function of the trait on one type, against the standard library's own
macro_rules! suite { ($m:ident, $t:ident, $v:ident, $r:path, $bits:expr) => { mod $m {
    use super::*;
    use $r as R;
    pub fn trig() { let x: $t = $v("x", -1e3, 1e3); let a: $t = $v("a", -1.5, 1.5);
        eq(R::sin(x) as f64, $t::sin(x) as f64, "sine"); eq(R::cos(x) as f64, $t::cos(x) as f64, "cosine"); eq(R::tan(a) as f64, $t::tan(a) as f64, "tangent"); }
    pub fn inverse() { let z: $t = $v("u", -1., 1.); eq(R::asin(z) as f64, $t::asin(z) as f64, "arc sine"); eq(R::acos(z) as f64, $t::acos(z) as f64, "arc cosine");
        let (x, y): ($t, $t) = ($v("x", -1e3, 1e3), $v("y", -1e3, 1e3)); eq(R::atan(x) as f64, $t::atan(x) as f64, "arc tangent"); assume(x * x + y * y >= 1e-2);
        eq(R::atan2(y, x) as f64, $t::atan2(y, x) as f64, "direction of a point"); }
    pub fn logs() { let x: $t = $v("x", 1e-3, 1e3); eq(R::sqrt(x) as f64, $t::sqrt(x) as f64, "square root"); eq(R::ln(x) as f64, $t::ln(x) as f64, "natural logarithm"); eq(R::log2(x) as f64, $t::log2(x) as f64, "binary logarithm"); eq(R::log10(x) as f64, $t::log10(x) as f64, "decimal logarithm");
        let y: $t = $v("y", -8., 8.); eqs(R::exp(y) as f64, $t::exp(y) as f64, 10., "exponential"); eqs(R::exp2(y) as f64, $t::exp2(y) as f64, 10., "power of two"); }
    pub fn power() { let x: $t = $v("x", -8., 8.); assume(x * x >= 0.01); let s = [1e3, 1e2, 10., 1., 10., 1e2, 1e3, 1e4, 1e5]; let w = x as f64;
        let p = [1. / (w * w * w), 1. / (w * w), 1. / w, 1., w, w * w, w * w * w, w * w * w * w, w * w * w * w * w];
        for k in 0..9 { close(R::powi(x, k as i32 - 3) as f64, p[k], s[k], "integer power"); }
        let (q, e): ($t, $t) = ($v("q", 0.1, 10.), $v("e", -3., 3.)); eqs(R::powf(q, e) as f64, $t::powf(q, e) as f64, 1., "real power"); }
    pub fn round() { let x: $t = $v("x", -20., 20.); eq(R::floor(x) as f64, $t::floor(x) as f64, "floor"); eq(R::ceil(x) as f64, $t::ceil(x) as f64, "ceiling"); eq(R::trunc(x) as f64, $t::trunc(x) as f64, "truncation"); eq(R::fract(x) as f64, (x - $t::trunc(x)) as f64, "fractional part"); eq(R::round(x) as f64, $t::round(x) as f64, "nearest integer"); }
    pub fn angle() { let x: $t = $v("x", -100., 100.); let p = core::f64::consts::PI; let w = x as f64; close(R::to_radians(x) as f64, w * p / 180., 1., "radians"); close(R::to_degrees(x) as f64, w * 180. / p, 1e3, "degrees"); }
    fn any(n: &'static str) -> $t { $t::from_bits(u(n, 0, $bits) as _) }
    pub fn sign() { let (x, y) = (any("x"), any("y")); let n = x.is_nan();
        check((R::abs(x).to_bits() == $t::abs(x).to_bits()) | n, "absolute value"); check((R::signum(x).to_bits() == $t::signum(x).to_bits()) | n, "sign"); check(R::signum(x).is_nan() == n, "sign of not-a-number");
        check((R::copysign(x, y).to_bits() == $t::copysign(x, y).to_bits()) | n | y.is_nan(), "sign of another"); }
    pub fn order() { let (x, y) = (any("x"), any("y")); let (a, c) = (R::min(x, y), R::max(x, y)); let n = x.is_nan() & y.is_nan();
        check((a == $t::min(x, y)) | n, "smaller of two"); check((c == $t::max(x, y)) | n, "larger of two"); check((a.is_nan() == n) & (c.is_nan() == n), "not-a-number only from two of them");
        check((a == x) | (a == y) | n, "one of the two"); check((c == x) | (c == y) | n, "one of the two"); check((a <= x) | x.is_nan() | y.is_nan(), "not above either"); check((c >= x) | x.is_nan() | y.is_nan(), "not below either"); }
    pub fn constants() { let k = u("k", 0, 6); let (a, e) = match k { 0 => (<$t as R>::ZERO, 0.), 1 => (<$t as R>::ONE, 1.), 2 => (<$t as R>::PI, core::$t::consts::PI), 3 => (<$t as R>::FRAC_PI_2, core::$t::consts::FRAC_PI_2), 4 => (<$t as R>::EPSILON, $t::EPSILON), 5 => (<$t as R>::INFINITY, $t::INFINITY), _ => (<$t as R>::NEG_INFINITY, $t::NEG_INFINITY) }; check(a.to_bits() == e.to_bits(), "constants"); }
} } }
suite!(b64, f64, f, bare::Real, u64::MAX);
suite!(b32, f32, f32v, bare::Real, u32::MAX as u64);
suite!(h64, f64, f, hosted::Real, u64::MAX);
suite!(h32, f32, f32v, hosted::Real, u32::MAX as u64);
harness! {
    fn p01_bare64_trig() { b64::trig() }
    fn p01_bare64_inverse() { b64::inverse() }
    fn p01_bare64_logs() { b64::logs() }
    fn p01_bare64_power() { b64::power() }
    fn p01_bare64_round() { b64::round() }
    fn p01_bare64_angle() { b64::angle() }
    fn p01_bare64_sign() { b64::sign() }
    fn p01_bare64_order() { b64::order() }
    fn p01_bare64_constants() { b64::constants() }
    fn p01_bare32_trig() { b32::trig() }
    fn p01_bare32_inverse() { b32::inverse() }
    fn p01_bare32_logs() { b32::logs() }
    fn p01_bare32_power() { b32::power() }
    fn p01_bare32_round() { b32::round() }
    fn p01_bare32_angle() { b32::angle() }
    fn p01_bare32_sign() { b32::sign() }
    fn p01_bare32_order() { b32::order() }
    fn p01_bare32_constants() { b32::constants() }
    fn p01_hosted64_trig() { h64::trig() }
    fn p01_hosted64_inverse() { h64::inverse() }
    fn p01_hosted64_logs() { h64::logs() }
    fn p01_hosted64_power() { h64::power() }
    fn p01_hosted64_round() { h64::round() }
    fn p01_hosted64_angle() { h64::angle() }
    fn p01_hosted64_sign() { h64::sign() }
    fn p01_hosted64_order() { h64::order() }
    fn p01_hosted64_constants() { h64::constants() }
    fn p01_hosted32_trig() { h32::trig() }
    fn p01_hosted32_inverse() { h32::inverse() }
    fn p01_hosted32_logs() { h32::logs() }
    fn p01_hosted32_power() { h32::power() }
    fn p01_hosted32_round() { h32::round() }
    fn p01_hosted32_angle() { h32::angle() }
    fn p01_hosted32_sign() { h32::sign() }
    fn p01_hosted32_order() { h32::order() }
    fn p01_hosted32_constants() { h32::constants() }
    // ---- angles, singly and in arrays, and casts
    fn p01_angles() {
        let a = [f("a0", -100., 100.), f("a1", -100., 100.), f("a2", -100., 100.)]; let p = core::f64::consts::PI; let (r, d) = (ToRadians::to_radians(a), ToDegrees::to_degrees(a));
        for i in 0..3 { eq(r[i], a[i] * p / 180., "radians"); eqs(d[i], a[i] * 180. / p, 1e2, "degrees"); eq(ToDegrees::to_degrees(ToRadians::to_radians(a[i])), a[i], "degrees survive the round trip"); }
        let g = f32v("g", -100., 100.); close(ToRadians::to_radians(g) as f64, g as f64 * p / 180., 1., "radians"); close(ToDegrees::to_degrees(g) as f64, g as f64 * 180. / p, 1e3, "degrees");
    }
    fn p01_casts() {
        use bare::RealCast as C; let x = f("x", -1e6, 1e6); let g = f32v("g", -1e6, 1e6); let n = u("n", 0, 1 << 24);
        eq(<f64 as C>::from_f64(x), x, "64-bit stays"); eq(C::to_f64(x), x, "64-bit stays"); eq(<f64 as C>::from_f32(g), g as f64, "widening"); eq(C::to_f64(g), g as f64, "widening"); eq(<f32 as C>::from_f32(g) as f64, g as f64, "32-bit stays"); eq(C::to_f32(g) as f64, g as f64, "32-bit stays");
        close(C::to_f32(x) as f64, x, 1e6, "narrowing"); close(<f32 as C>::from_f64(x) as f64, x, 1e6, "narrowing");
        eq(<f64 as C>::from_usize(n as usize), n as f64, "counts"); eq(<f64 as C>::from_u32(n as u32), n as f64, "counts"); eq(<f32 as C>::from_usize(n as usize) as f64, n as f64, "counts"); eq(<f32 as C>::from_u32(n as u32) as f64, n as f64, "counts");
    }
}
