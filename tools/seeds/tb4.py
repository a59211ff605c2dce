C='crates/'
NS=C+'aether_core/src/real/no_std_impl.rs'
MX=C+'aether_core/src/math/matrix.rs'
SEEDS=[
dict(id='p01-fract-floor',property='P01',deps={'aether_core':[]},edits=[(NS,'self - libm::truncf(self)','self - libm::floorf(self)')],
 needs='the build without the standard library, single precision, a negative argument',breaks='the fractional part of a negative number is positive',
 main='''use aether_core::real::Real;
fn main() { let x: f32 = -2.25; assert_eq!(Real::fract(x), -0.25f32); assert_eq!(Real::fract(2.25f32), 0.25f32); }
'''),
dict(id='p01-powi-magnitude',property='P01',deps={'aether_core':[]},edits=[(NS,'libm::pow(self, n as f64)','libm::pow(libm::fabs(self), n as f64)')],
 needs='the build without the standard library, a negative base and an odd exponent',breaks='odd powers of negative numbers come out positive',
 main='''use aether_core::real::Real;
fn main() { assert_eq!(Real::powi(-2.0f64, 3), -8.0); assert_eq!(Real::powi(-2.0f64, 2), 4.0); }
'''),
dict(id='w01-borrow-leak',property='W01',deps={'aether_core':['std','bincode'],'bincode':'"2.0.1"'},edits=[(MX,"""                match T::borrow_decode(decoder) {
                    Ok(v) => {
                        unsafe { row_ptr.add(c).write(v) };
                        inited_cols += 1;
                    }
                    Err(e) => {
                        unsafe {
                            for i in 0..inited_cols {""","""                match T::borrow_decode(decoder) {
                    Ok(v) => {
                        unsafe { row_ptr.add(c).write(v) };
                        inited_cols += 1;
                    }
                    Err(e) => {
                        unsafe {
                            for i in 1..inited_cols {""")],
 needs='borrowed decoding that runs out of bytes in the middle of a row, with elements that own something',breaks='the first element of the unfinished row is never released',
 main='''use aether_core::math::Matrix; use bincode::de::*; use bincode::error::DecodeError; use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
static LIVE: AtomicI64 = AtomicI64::new(0);
struct P; impl Drop for P { fn drop(&mut self) { LIVE.fetch_sub(1, SeqCst); } }
impl<'de, C> BorrowDecode<'de, C> for P { fn borrow_decode<D: BorrowDecoder<'de, Context = C>>(d: &mut D) -> Result<Self, DecodeError> { let _ = f64::borrow_decode(d)?; LIVE.fetch_add(1, SeqCst); Ok(P) } }
fn main() { let b = [0u8; 64]; for n in 0..64usize { let r: Result<(Matrix<P, 2, 4>, usize), _> = bincode::borrow_decode_from_slice(&b[..n], bincode::config::standard()); assert!(r.is_err()); drop(r); assert_eq!(LIVE.load(SeqCst), 0, "{n}"); } }
'''),
dict(id='w01-short-vector',property='W01',deps={'aether_core':['std','serde'],'serde':'{ version = "1.0", default-features = false }'},edits=[(C+'aether_core/src/math/vector.rs',"""                    data[i] = seq
                        .next_element()?
                        .ok_or_else(|| de::Error::invalid_length(i, &self))?;""","""                    data[i] = match seq.next_element()? {
                        Some(v) => v,
                        None if i == 0 => return Err(de::Error::invalid_length(i, &self)),
                        None => data[i],
                    };""")],
 needs='a serialised vector cut short after at least one element',breaks='the missing elements are read as zeros instead of being refused',
 main='''use aether_core::math::Vector; use serde::Deserialize; use serde::de::value::{SeqDeserializer, Error};
fn main() { for n in 0..5usize { let d = SeqDeserializer::<_, Error>::new([1.0f64, 2.0, 3.0, 4.0, 5.0].into_iter().take(n)); let r = Vector::<f64, 3>::deserialize(d); if n < 3 { assert!(r.is_err(), "{n}"); } if n == 3 { assert_eq!(r.unwrap().data, [1.0, 2.0, 3.0]); } } }
'''),
dict(id='w01-body-swap',property='W01',deps={'aether_core':['std','serde'],'serde':'{ version = "1.0", default-features = false }'},edits=[(C+'aether_core/src/reference_frame/asm.rs','let (mass_center, lever_arm): (Cartesian<T, Assembly<T>>, Cartesian<T, Assembly<T>>) =','let (lever_arm, mass_center): (Cartesian<T, Assembly<T>>, Cartesian<T, Assembly<T>>) =')],
 needs='the serde form of an assembly frame whose two vectors differ',breaks='mass centre and lever arm change places on reading',
 main='''use aether_core::reference_frame::Assembly; use serde::Deserialize; use serde::de::value::{SeqDeserializer, Error}; use serde::de::IntoDeserializer;
#[derive(Clone)] struct V([f64; 3]); impl<'de> IntoDeserializer<'de, Error> for V { type Deserializer = SeqDeserializer<core::array::IntoIter<f64, 3>, Error>; fn into_deserializer(self) -> Self::Deserializer { SeqDeserializer::new(self.0.into_iter()) } }
fn main() { let d = SeqDeserializer::<_, Error>::new([V([1.0, 2.0, 3.0]), V([4.0, 5.0, 6.0])].into_iter()); let a = Assembly::<f64>::deserialize(d).unwrap(); assert_eq!(a.mass_center.data.data, [1.0, 2.0, 3.0]); assert_eq!(a.lever_arm.data.data, [4.0, 5.0, 6.0]); }
'''),
]
