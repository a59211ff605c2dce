//! A minimal serde format: a flat list of numbers and brackets.
use serde::de::value::Error;
use serde::de::{DeserializeSeed, SeqAccess, Visitor};
use serde::ser::{self, Serialize};
use serde::{forward_to_deserialize_any, Deserializer, Serializer};
#[derive(Clone, Copy, PartialEq)]
pub enum Tok { Num(f64), Open, Close, Unit, Bad }
pub struct List { pub t: [Tok; 40], pub n: usize }
impl List {
    pub fn new() -> Self { List { t: [Tok::Bad; 40], n: 0 } }
    pub fn push(&mut self, t: Tok) { self.t[self.n] = t; self.n += 1; }
}
fn no<T>() -> Result<T, Error> { Err(<Error as ser::Error>::custom("")) }
macro_rules! refuse { ($($f:ident $t:ty),*) => { $(fn $f(self, _: $t) -> Result<(), Error> { no() })* } }
macro_rules! nested { ($($t:ident $f:ident),*) => { $(impl<'a> ser::$t for &'a mut List { type Ok = (); type Error = Error;
    fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> { v.serialize(&mut **self) }
    fn end(self) -> Result<(), Error> { self.push(Tok::Close); Ok(()) } })* } }
nested!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
impl<'a> ser::SerializeMap for &'a mut List { type Ok = (); type Error = Error;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, _: &T) -> Result<(), Error> { no() }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, _: &T) -> Result<(), Error> { no() }
    fn end(self) -> Result<(), Error> { no() } }
impl<'a> ser::SerializeStruct for &'a mut List { type Ok = (); type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> Result<(), Error> { v.serialize(&mut **self) }
    fn end(self) -> Result<(), Error> { self.push(Tok::Close); Ok(()) } }
impl<'a> ser::SerializeStructVariant for &'a mut List { type Ok = (); type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, _: &T) -> Result<(), Error> { no() }
    fn end(self) -> Result<(), Error> { no() } }
impl<'a> Serializer for &'a mut List {
    type Ok = (); type Error = Error;
    type SerializeSeq = Self; type SerializeTuple = Self; type SerializeTupleStruct = Self; type SerializeTupleVariant = Self; type SerializeMap = Self; type SerializeStruct = Self; type SerializeStructVariant = Self;
    refuse!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_char char, serialize_str &str, serialize_bytes &[u8]);
    fn serialize_f64(self, v: f64) -> Result<(), Error> { self.push(Tok::Num(v)); Ok(()) }
    fn serialize_none(self) -> Result<(), Error> { no() }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), Error> { no() }
    fn serialize_unit(self) -> Result<(), Error> { self.push(Tok::Unit); Ok(()) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), Error> { self.push(Tok::Unit); Ok(()) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), Error> { no() }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), Error> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Error> { no() }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self, Error> { self.push(Tok::Open); Ok(self) }
    fn serialize_tuple(self, _: usize) -> Result<Self, Error> { self.push(Tok::Open); Ok(self) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, Error> { self.push(Tok::Open); Ok(self) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self, Error> { no() }
    fn serialize_map(self, _: Option<usize>) -> Result<Self, Error> { no() }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, Error> { self.push(Tok::Open); Ok(self) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self, Error> { no() }
    fn collect_str<T: ?Sized + core::fmt::Display>(self, _: &T) -> Result<(), Error> { no() }
}
pub struct Reader<'l> { pub l: &'l List, pub at: usize }
impl<'l> Reader<'l> { pub fn new(l: &'l List) -> Self { Reader { l, at: 0 } }
    fn skip(&mut self) { let mut d = 0; loop { if self.at >= self.l.n { return } let t = self.l.t[self.at]; self.at += 1; match t { Tok::Open => d += 1, Tok::Close => d -= 1, _ => {} } if d <= 0 { return } } } }
impl<'de, 'a, 'l> SeqAccess<'de> for &'a mut Reader<'l> { type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
        if self.at >= self.l.n || matches!(self.l.t[self.at], Tok::Close) { return Ok(None) }
        seed.deserialize(&mut **self).map(Some) } }
impl<'de, 'a, 'l> Deserializer<'de> for &'a mut Reader<'l> { type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        if self.at >= self.l.n { return no() }
        match self.l.t[self.at] { Tok::Num(x) => { self.at += 1; v.visit_f64(x) } Tok::Open => self.deserialize_seq(v), _ => no() } }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        if self.at >= self.l.n || !matches!(self.l.t[self.at], Tok::Open) { return no() }
        self.at += 1; let x = v.visit_seq(&mut *self)?;
        if self.at >= self.l.n || !matches!(self.l.t[self.at], Tok::Close) { return no() }
        self.at += 1; Ok(x) }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, Error> { self.deserialize_seq(v) }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, Error> { self.deserialize_seq(v) }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Error> { self.deserialize_seq(v) }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> { if self.at >= self.l.n || !matches!(self.l.t[self.at], Tok::Unit) { return no() } self.at += 1; v.visit_unit() }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { self.skip(); v.visit_unit() }
    forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit newtype_struct map enum identifier }
}
