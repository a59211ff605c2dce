//! Native side of the harness interface: reads concrete inputs, prints every check.
use std::collections::HashMap;
static mut IN: Option<HashMap<String, u64>> = None;
static mut BAD: bool = false;
static mut MISSING: bool = false;
fn name(p: *const u8, n: usize) -> String { unsafe { String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned() } }
#[allow(static_mut_refs)]
fn get(n: &str) -> u64 {
    unsafe { match IN.as_ref().unwrap().get(n) { Some(v) => *v, None => { MISSING = true; println!("MISSING {n}"); 0 } } }
}
fn bad() { unsafe { BAD = true } }
#[no_mangle] pub extern "C" fn __sym_f64(p: *const u8, n: usize, lo: f64, hi: f64) -> f64 { let v = f64::from_bits(get(&name(p, n))); inside(v >= lo && v <= hi); v }
#[no_mangle] pub extern "C" fn __sym_f32(p: *const u8, n: usize, lo: f32, hi: f32) -> f32 { let v = f64::from_bits(get(&name(p, n))) as f32; inside(v >= lo && v <= hi); v }
#[no_mangle] pub extern "C" fn __sym_i64(p: *const u8, n: usize, lo: i64, hi: i64) -> i64 { if lo == hi { return lo } let v = get(&name(p, n)) as i64; inside(lo <= v && (v <= hi || hi < lo)); v }
#[no_mangle] pub extern "C" fn __sym_u64(p: *const u8, n: usize, lo: u64, hi: u64) -> u64 { let v = get(&name(p, n)); inside(lo <= v && (v <= hi || hi < lo)); v }
fn inside(b: bool) { if !b { println!("ASSUME-FAIL"); std::process::exit(20) } }
#[no_mangle] pub extern "C" fn __sym_bool(p: *const u8, n: usize) -> bool { get(&name(p, n)) != 0 }
#[no_mangle] pub extern "C" fn __sym_unit(p: *const u8, n: usize, out: *mut f64, k: usize) {
    let b = name(p, n);
    for j in 0..k { unsafe { *out.add(j) = f64::from_bits(get(&format!("{b}{j}"))) } }
}
#[no_mangle] pub extern "C" fn __assume(b: bool) { if !b { println!("ASSUME-FAIL"); std::process::exit(20) } }
#[no_mangle] pub extern "C" fn __assume_eq(a: f64, b: f64) { if !((a - b).abs() <= 1e-7 * a.abs().max(b.abs()).max(1.0)) { println!("ASSUME-FAIL"); std::process::exit(20) } }
fn out(k: &str, l: &str, a: f64, b: f64, ok: bool) {
    println!("CHK {k} {l} {:016x} {:016x} {} # {a:?} {b:?}", a.to_bits(), b.to_bits(), if ok { "ok" } else { "FAIL" });
    if !ok { bad() }
}
#[no_mangle] pub extern "C" fn __check(b: bool, p: *const u8, n: usize) { out("bool", &name(p, n), b as u8 as f64, 1.0, b) }
#[no_mangle] pub extern "C" fn __check_eq(a: f64, b: f64, p: *const u8, n: usize, s: f64) {
    let m = a.abs().max(b.abs()).max(s); let ok = a == b || (a - b).abs() <= 1e-8 * m;
    // near: within tolerance of the declared scale, yet apart by more than rounding leaves
    if ok && (a - b).abs() > 1e-13 * m { println!("CHK eq {} {:016x} {:016x} near # {a:?} {b:?}", name(p, n), a.to_bits(), b.to_bits()); return }
    out("eq", &name(p, n), a, b, ok)
}
#[no_mangle] pub extern "C" fn __check_le(a: f64, b: f64, p: *const u8, n: usize) { out("le", &name(p, n), a, b, a <= b + 1e-9 * a.abs().max(b.abs()).max(1.0)) }
#[no_mangle] pub extern "C" fn __check_lt(a: f64, b: f64, p: *const u8, n: usize) { out("lt", &name(p, n), a, b, a < b + 1e-12 * a.abs().max(b.abs()).max(1.0)) }
#[no_mangle] pub extern "C" fn __check_ang(a: f64, b: f64, p: *const u8, n: usize) {
    let d = a - b; let ok = d.sin().abs() <= 1e-7 && d.cos() > 0.0; out("ang", &name(p, n), a, b, ok)
}
#[no_mangle] pub extern "C" fn __check_ieq(a: i64, b: i64, p: *const u8, n: usize) {
    let l = name(p, n); let ok = a == b;
    println!("CHK ieq {l} {:016x} {:016x} {} # {a} {b}", a, b, if ok { "ok" } else { "FAIL" });
    if !ok { bad() }
}
#[no_mangle] pub extern "C" fn __reach(p: *const u8, n: usize) { println!("REACH {}", name(p, n)) }
#[no_mangle] pub extern "C" fn __panic_ok(b: bool) { println!("PANICOK {b}") }
#[no_mangle] pub extern "C" fn __split(b: bool) -> bool { b }
#[no_mangle] pub extern "C" fn __fin(a: f64) -> bool { a.is_finite() }
/// replay <harness> <inputs file>; each line "name hexbits"
#[allow(static_mut_refs)]
pub fn main(table: &[(&str, extern "C" fn())]) {
    let a: Vec<String> = std::env::args().collect();
    let mut m = HashMap::new();
    for l in std::fs::read_to_string(&a[2]).expect("inputs").lines() {
        let mut it = l.split_whitespace();
        if let (Some(n), Some(v)) = (it.next(), it.next()) { m.insert(n.to_string(), u64::from_str_radix(v, 16).unwrap()); }
    }
    unsafe { IN = Some(m) }
    std::panic::set_hook(Box::new(|i| println!("PANIC {}", i.to_string().replace('\n', " "))));
    let f = table.iter().find(|t| t.0 == a[1]).expect("harness").1;
    f();
    println!("END");
    unsafe { std::process::exit(if MISSING { 30 } else if BAD { 10 } else { 0 }) }
}
