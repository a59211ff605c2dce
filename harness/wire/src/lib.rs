use aether_core::attitude::{DirectionCosineMatrix, Euler, Quaternion};
use aether_core::coordinate::Cartesian;
use aether_core::math::{Matrix, Vector};
use aether_core::reference_frame::{Assembly, Body, ICRF};
use bincode::config::standard;
use bincode::{decode_from_slice, borrow_decode_from_slice, encode_into_slice, Decode, Encode};
use core::sync::atomic::{AtomicI64, Ordering::Relaxed};
use serde::Deserialize as _;
use sym::*;
mod tokens;
use tokens::*;
type In = ICRF<f64>;
type Qu = Quaternion<f64, In, Body<f64>>;
type Eu = Euler<f64, In, Body<f64>>;
type Dc = DirectionCosineMatrix<f64, In, Body<f64>>;
type Ca = Cartesian<f64, In>;
static V: [&str; 9] = ["v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8"];
fn any(i: usize) -> f64 { f64::from_bits(u(V[i], 0, u64::MAX)) }
fn anys<const N: usize>() -> [f64; N] { core::array::from_fn(any) }
fn rect<const M: usize, const N: usize>() -> [[f64; N]; M] { core::array::from_fn(|i| core::array::from_fn(|j| any(i * N + j))) }
/// identical bits, or both not-a-number
fn same(a: f64, b: f64, n: &'static str) { check((a.to_bits() == b.to_bits()) | (a.is_nan() & b.is_nan()), n) }
fn both<T: Encode + Decode<()>, const K: usize>(v: &T, get: impl Fn(&T) -> [f64; K]) {
    let mut buf = [0u8; 96];
    match encode_into_slice(v, &mut buf, standard()) {
        Ok(n) => { ieq(n as i64, 8 * K as i64, "eight bytes a number");
            match decode_from_slice::<T, _>(&buf[..n], standard()) { Ok((w, m)) => { reach("decoded"); ieq(m as i64, n as i64, "all bytes are read"); let (a, b) = (get(v), get(&w)); for i in 0..K { same(a[i], b[i], "the value survives"); } } Err(_) => check(false, "what was encoded decodes") }
            let k = u("cut", 0, 8 * K as u64 - 1) as usize; check(decode_from_slice::<T, _>(&buf[..k], standard()).is_err(), "truncated bytes are refused"); }
        Err(_) => check(false, "it encodes"),
    }
    let mut small = [0u8; 96]; check(encode_into_slice(v, &mut small[..8 * K - 1], standard()).is_err(), "a short buffer is refused");
}
fn text<T: serde::Serialize + serde::de::DeserializeOwned, const K: usize>(v: &T, get: impl Fn(&T) -> [f64; K]) {
    let mut l = List::new(); check(v.serialize(&mut l).is_ok(), "it serialises"); let mut k = 0;
    for i in 0..l.n { if let Tok::Num(_) = l.t[i] { k += 1; } } ieq(k, K as i64, "one number for each component");
    let mut r = Reader::new(&l);
    match T::deserialize(&mut r) { Ok(w) => { reach("read back"); ieq(r.at as i64, l.n as i64, "all of it is read"); let (a, b) = (get(v), get(&w)); for i in 0..K { same(a[i], b[i], "the value survives"); } } Err(_) => check(false, "what was serialised reads back") }
    let cut = u("cut", 0, 39) as usize; if cut < l.n { l.n = cut; check(T::deserialize(&mut Reader::new(&l)).is_err(), "a shortened text is refused"); }
}
/// An element that counts how many of its kind are alive.
static LIVE: AtomicI64 = AtomicI64::new(0);
struct Part(f64);
impl Part { fn new(v: f64) -> Part { LIVE.fetch_add(1, Relaxed); Part(v) } }
impl Drop for Part { fn drop(&mut self) { LIVE.fetch_sub(1, Relaxed); } }
impl<'de> serde::Deserialize<'de> for Part { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { f64::deserialize(d).map(Part::new) } }
impl<C> Decode<C> for Part { fn decode<D: bincode::de::Decoder<Context = C>>(d: &mut D) -> Result<Self, bincode::error::DecodeError> { f64::decode(d).map(Part::new) } }
impl<'de, C> bincode::BorrowDecode<'de, C> for Part { fn borrow_decode<D: bincode::de::BorrowDecoder<'de, Context = C>>(d: &mut D) -> Result<Self, bincode::error::DecodeError> { f64::borrow_decode(d).map(Part::new) } }
harness! {
    fn w01_text_vector() { text(&Vector::new(anys::<3>()), |v| v.data) }
    fn w01_text_matrix() { text(&Matrix::new(rect::<2, 3>()), |m| core::array::from_fn::<f64, 6, _>(|k| m.data[k / 3][k % 3])) }
    fn w01_text_quaternion() { let v = anys::<4>(); text(&Qu::new(v[0], v[1], v[2], v[3]), |q| q.data.data) }
    fn w01_text_euler() { let v = anys::<3>(); text(&Eu::new(v[0], v[1], v[2]), |q| q.data.data) }
    fn w01_text_dcm() { let v = anys::<9>(); text(&Dc::new(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]), |m| core::array::from_fn::<f64, 9, _>(|k| m.as_matrix().data[k / 3][k % 3])) }
    fn w01_text_cartesian() { let v = anys::<3>(); text(&Ca::new(v[0], v[1], v[2]), |q| q.data.data) }
    fn w01_text_body() { let v = anys::<6>(); text(&Body::<f64>::new(Cartesian::new(v[0], v[1], v[2]), Cartesian::new(v[3], v[4], v[5])), |q| { let (a, b) = (q.mass_center.data.data, q.lever_arm.data.data); [a[0], a[1], a[2], b[0], b[1], b[2]] }) }
    fn w01_text_assembly() { let v = anys::<6>(); text(&Assembly::<f64>::new(Cartesian::new(v[0], v[1], v[2]), Cartesian::new(v[3], v[4], v[5])), |q| { let (a, b) = (q.mass_center.data.data, q.lever_arm.data.data); [a[0], a[1], a[2], b[0], b[1], b[2]] }) }
    // rows and columns in numbers chosen by the solver, one element possibly unreadable
    fn w01_text_shape() {
        let rows = u("rows", 0, 3); let cols = [u("c0", 0, 3), u("c1", 0, 3), u("c2", 0, 3)]; let bad = u("bad", 0, 9); let mut k = 0; let mut good = rows == 2;
        let mut l = List::new(); l.push(Tok::Open);
        for i in 0..3 { if (i as u64) < rows { l.push(Tok::Open); for j in 0..3 { if j < cols[i] { let b = k == bad; if b { good = false; } l.push(if b { Tok::Bad } else { Tok::Num(j as f64 + 10. * i as f64) }); k += 1; } } if cols[i] != 2 { good = false; } l.push(Tok::Close); } }
        l.push(Tok::Close);
        let r = <Matrix<Part, 2, 2> as serde::Deserialize>::deserialize(&mut Reader::new(&l));
        match r { Ok(m) => { reach("accepted"); check(good, "only the right shape is accepted"); ieq(LIVE.load(Relaxed), 4, "elements alive while held"); for i in 0..2 { for j in 0..2 { eq(m.data[i][j].0, j as f64 + 10. * i as f64, "elements in their places"); } } drop(m); } Err(_) => { reach("refused"); check(!good, "the right shape is accepted"); } }
        ieq(LIVE.load(Relaxed), 0, "every element is released once");
    }
    fn w01_text_length() {
        let n = u("n", 0, 3); let x = anys::<3>(); let mut l = List::new(); let three = u("type", 0, 1); if three == 1 { l.push(Tok::Open); } l.push(Tok::Open); for k in 0..3 { if (k as u64) < n { l.push(Tok::Num(x[k])); } } l.push(Tok::Close); if three == 1 { l.push(Tok::Unit); l.push(Tok::Unit); l.push(Tok::Close); }
        let v = if three == 0 { <Vector<f64, 3> as serde::Deserialize>::deserialize(&mut Reader::new(&l)) } else { <Eu as serde::Deserialize>::deserialize(&mut Reader::new(&l)).map(|e| e.data) };
        match v { Ok(v) => { reach("accepted"); check(n == 3, "a vector short of elements is refused"); for k in 0..3 { same(v.data[k], x[k], "the value survives"); } } Err(_) => { reach("refused"); check(n != 3, "a complete vector is accepted"); } }
    }
    fn w01_parts() {
        let k = u("have", 0, 4 * 8) as usize; let buf = [0u8; 32];
        match decode_from_slice::<Matrix<Part, 2, 2>, _>(&buf[..k], standard()) { Ok((m, n)) => { reach("accepted"); check(k == 32, "only complete bytes are accepted"); ieq(n as i64, 32, "bytes read"); ieq(LIVE.load(Relaxed), 4, "elements alive while held"); drop(m); } Err(_) => { reach("refused"); check(k < 32, "complete bytes are accepted"); } }
        ieq(LIVE.load(Relaxed), 0, "every element is released once");
    }
    fn w01_parts_borrowed() {
        let k = u("have", 0, 4 * 8) as usize; let buf = [0u8; 32];
        match borrow_decode_from_slice::<Matrix<Part, 2, 2>, _>(&buf[..k], standard()) { Ok((m, n)) => { reach("accepted"); check(k == 32, "only complete bytes are accepted"); ieq(n as i64, 32, "bytes read"); ieq(LIVE.load(Relaxed), 4, "elements alive while held"); drop(m); } Err(_) => { reach("refused"); check(k < 32, "complete bytes are accepted"); } }
        ieq(LIVE.load(Relaxed), 0, "every element is released once");
    }
    fn w01_vector() { both(&Vector::new(anys::<3>()), |v| v.data) }
    fn w01_vector_one() { both(&Vector::new(anys::<1>()), |v| v.data) }
    fn w01_matrix() { both(&Matrix::new(rect::<2, 3>()), |m| core::array::from_fn::<f64, 6, _>(|k| m.data[k / 3][k % 3])) }
    fn w01_matrix_tall() { both(&Matrix::new(rect::<3, 2>()), |m| core::array::from_fn::<f64, 6, _>(|k| m.data[k / 2][k % 2])) }
    fn w01_quaternion() { let v = anys::<4>(); both(&Qu::new(v[0], v[1], v[2], v[3]), |q| q.data.data) }
    fn w01_euler() { let v = anys::<3>(); both(&Eu::new(v[0], v[1], v[2]), |q| q.data.data) }
    fn w01_dcm() { let v = anys::<9>(); both(&Dc::new(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]), |m| core::array::from_fn::<f64, 9, _>(|k| m.as_matrix().data[k / 3][k % 3])) }
    fn w01_cartesian() { let v = anys::<3>(); both(&Ca::new(v[0], v[1], v[2]), |q| q.data.data) }
    fn w01_body() { let v = anys::<6>(); both(&Body::<f64>::new(Cartesian::new(v[0], v[1], v[2]), Cartesian::new(v[3], v[4], v[5])), |q| { let (a, b) = (q.mass_center.data.data, q.lever_arm.data.data); [a[0], a[1], a[2], b[0], b[1], b[2]] }) }
}
