//! A compact, non-self-describing data format: nothing in the bytes tells the reader what comes next, as with the
//! usual binary formats. It is the second medium, besides JSON, through which C24 sends time data.
use serde::de::{self, DeserializeSeed, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};
use std::fmt::{self, Display};

#[derive(Debug)]
pub struct Err(String);
impl Display for Err { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Err {}
impl ser::Error for Err { fn custom<T: Display>(m: T) -> Self { Err(m.to_string()) } }
impl de::Error for Err { fn custom<T: Display>(m: T) -> Self { Err(m.to_string()) } }

pub fn to_bytes<V: Serialize>(v: &V) -> Result<Vec<u8>, String> { let mut w = W(vec![]); v.serialize(&mut w).map_err(|e| e.0)?; Ok(w.0) }
pub fn from_bytes<'a, V: de::Deserialize<'a>>(b: &'a [u8]) -> Result<V, String> {
    let mut r = R(b);
    let v = V::deserialize(&mut r).map_err(|e| e.0)?;
    if r.0.is_empty() { Ok(v) } else { Result::Err(format!("{} bytes are left over", r.0.len())) }
}

struct W(Vec<u8>);
macro_rules! put { ($($f:ident $t:ty),*) => { $( fn $f(self, v: $t) -> Result<(), Err> { self.0.extend(v.to_le_bytes()); Ok(()) } )* } }
impl<'a> ser::Serializer for &'a mut W {
    type Ok = (); type Error = Err;
    type SerializeSeq = &'a mut W; type SerializeTuple = &'a mut W; type SerializeTupleStruct = &'a mut W; type SerializeTupleVariant = &'a mut W;
    type SerializeMap = &'a mut W; type SerializeStruct = &'a mut W; type SerializeStructVariant = &'a mut W;
    put!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_i128 i128, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_u128 u128, serialize_f32 f32, serialize_f64 f64);
    fn is_human_readable(&self) -> bool { false }
    fn serialize_bool(self, v: bool) -> Result<(), Err> { self.0.push(v as u8); Ok(()) }
    fn serialize_char(self, v: char) -> Result<(), Err> { self.serialize_u32(v as u32) }
    fn serialize_str(self, v: &str) -> Result<(), Err> { self.serialize_bytes(v.as_bytes()) }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), Err> { self.0.extend((v.len() as u64).to_le_bytes()); self.0.extend(v); Ok(()) }
    fn serialize_none(self) -> Result<(), Err> { self.0.push(0); Ok(()) }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), Err> { self.0.push(1); v.serialize(self) }
    fn serialize_unit(self) -> Result<(), Err> { Ok(()) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), Err> { Ok(()) }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Result<(), Err> { self.serialize_u32(i) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), Err> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> Result<(), Err> { self.0.extend(i.to_le_bytes()); v.serialize(self) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self, Err> { Ok(self) }
    fn serialize_tuple(self, _: usize) -> Result<Self, Err> { Ok(self) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, Err> { Ok(self) }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self, Err> { self.0.extend(i.to_le_bytes()); Ok(self) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self, Err> { Ok(self) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, Err> { Ok(self) }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self, Err> { self.0.extend(i.to_le_bytes()); Ok(self) }
}
// a sequence has unknown length: a 1 before each element, a 0 at the end
impl ser::SerializeSeq for &mut W { type Ok = (); type Error = Err;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Err> { self.0.push(1); v.serialize(&mut **self) }
    fn end(self) -> Result<(), Err> { self.0.push(0); Ok(()) } }
impl ser::SerializeMap for &mut W { type Ok = (); type Error = Err;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Err> { self.0.push(1); v.serialize(&mut **self) }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Err> { v.serialize(&mut **self) }
    fn end(self) -> Result<(), Err> { self.0.push(0); Ok(()) } }
macro_rules! fixed { ($($tr:ident $f:ident),*) => { $( impl ser::$tr for &mut W { type Ok = (); type Error = Err;
    fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Err> { v.serialize(&mut **self) }
    fn end(self) -> Result<(), Err> { Ok(()) } } )* } }
fixed!(SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! named { ($($tr:ident),*) => { $( impl ser::$tr for &mut W { type Ok = (); type Error = Err;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> Result<(), Err> { v.serialize(&mut **self) }
    fn end(self) -> Result<(), Err> { Ok(()) } } )* } }
named!(SerializeStruct, SerializeStructVariant);

struct R<'a>(&'a [u8]);
impl<'a> R<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], Err> {
        if self.0.len() < n { return Result::Err(Err("the data ends too soon".into())) }
        let (a, b) = self.0.split_at(n); self.0 = b; Ok(a)
    }
    fn tag(&mut self) -> Result<bool, Err> { match self.take(1)?[0] { 0 => Ok(false), 1 => Ok(true), x => Result::Err(Err(format!("{x} is no tag"))) } }
    fn bytes(&mut self) -> Result<&'a [u8], Err> { let n = u64::from_le_bytes(self.take(8)?.try_into().unwrap()); self.take(n as usize) }
    fn text(&mut self) -> Result<&'a str, Err> { std::str::from_utf8(self.bytes()?).map_err(|e| Err(e.to_string())) }
}
macro_rules! get { ($($f:ident $v:ident $t:ty),*) => { $( fn $f<V: Visitor<'a>>(self, v: V) -> Result<V::Value, Err> {
    let b = self.take(std::mem::size_of::<$t>())?; v.$v(<$t>::from_le_bytes(b.try_into().unwrap())) } )* } }
impl<'a, 'b> de::Deserializer<'a> for &'b mut R<'a> {
    type Error = Err;
    get!(deserialize_i8 visit_i8 i8, deserialize_i16 visit_i16 i16, deserialize_i32 visit_i32 i32, deserialize_i64 visit_i64 i64, deserialize_i128 visit_i128 i128,
         deserialize_u8 visit_u8 u8, deserialize_u16 visit_u16 u16, deserialize_u32 visit_u32 u32, deserialize_u64 visit_u64 u64, deserialize_u128 visit_u128 u128,
         deserialize_f32 visit_f32 f32, deserialize_f64 visit_f64 f64);
    fn is_human_readable(&self) -> bool { false }
    fn deserialize_any<V: Visitor<'a>>(self, _: V) -> Result<V::Value, Err> { Result::Err(Err("this format is not self-describing".into())) }
    fn deserialize_ignored_any<V: Visitor<'a>>(self, v: V) -> Result<V::Value, Err> { self.deserialize_any(v) }
    fn deserialize_bool<V: Visitor<'a>>(self, v: V) -> Result<V::Value, Err> { v.visit_bool(self.tag()?) }
    fn deserialize_char<V: Visitor<'a>>(self, v: V) -> Result<V::Value, Err> {
        let x = u32::from_le_bytes(self.take(4)?.try_into().unwrap()); v.visit_char(char::from_u32(x).ok_or(Err("no char".into()))?) }
    fn deserialize_str<V: Visitor<'a>>(self, v: V) -> Result<V::Value, Err> { v.visit_borrowed_str(self.text()?) }
    fn deserialize_string<V: Visitor<'a>>(self, v: V) -> Result<V::Value, Err> { self.deserialize_str(v) }
    fn deserialize_identifier<V: Visitor<'a>>(self, v: V) -> Result<V::Value, Err> { self.deserialize_str(v) }
    fn deserialize_bytes<V: Visitor<'a>>(self, v: V) -> Result<V::Value, Err> { v.visit_borrowed_bytes(self.bytes()?) }
    fn deserialize_byte_buf<V: Visitor<'a>>(self, v: V) -> Result<V::Value, Err> { self.deserialize_bytes(v) }
    fn deserialize_option<V: Visitor<'a>>(self, v: V) -> Result<V::Value, Err> { if self.tag()? { v.visit_some(self) } else { v.visit_none() } }
    fn deserialize_unit<V: Visitor<'a>>(self, v: V) -> Result<V::Value, Err> { v.visit_unit() }
    fn deserialize_unit_struct<V: Visitor<'a>>(self, _: &'static str, v: V) -> Result<V::Value, Err> { v.visit_unit() }
    fn deserialize_newtype_struct<V: Visitor<'a>>(self, _: &'static str, v: V) -> Result<V::Value, Err> { v.visit_newtype_struct(self) }
    fn deserialize_seq<V: Visitor<'a>>(self, v: V) -> Result<V::Value, Err> { v.visit_seq(Items { r: self, left: None }) }
    fn deserialize_tuple<V: Visitor<'a>>(self, n: usize, v: V) -> Result<V::Value, Err> { v.visit_seq(Items { r: self, left: Some(n) }) }
    fn deserialize_tuple_struct<V: Visitor<'a>>(self, _: &'static str, n: usize, v: V) -> Result<V::Value, Err> { self.deserialize_tuple(n, v) }
    fn deserialize_map<V: Visitor<'a>>(self, v: V) -> Result<V::Value, Err> { v.visit_map(Items { r: self, left: None }) }
    fn deserialize_struct<V: Visitor<'a>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, Err> { self.deserialize_tuple(f.len(), v) }
    fn deserialize_enum<V: Visitor<'a>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Err> { v.visit_enum(self) }
}
struct Items<'b, 'a> { r: &'b mut R<'a>, left: Option<usize> }
impl<'a> Items<'_, 'a> {
    fn more(&mut self) -> Result<bool, Err> { match &mut self.left { None => self.r.tag(), Some(0) => Ok(false), Some(n) => { *n -= 1; Ok(true) } } }
}
impl<'a> de::SeqAccess<'a> for Items<'_, 'a> { type Error = Err;
    fn next_element_seed<S: DeserializeSeed<'a>>(&mut self, s: S) -> Result<Option<S::Value>, Err> { if self.more()? { s.deserialize(&mut *self.r).map(Some) } else { Ok(None) } }
}
impl<'a> de::MapAccess<'a> for Items<'_, 'a> { type Error = Err;
    fn next_key_seed<S: DeserializeSeed<'a>>(&mut self, s: S) -> Result<Option<S::Value>, Err> { if self.more()? { s.deserialize(&mut *self.r).map(Some) } else { Ok(None) } }
    fn next_value_seed<S: DeserializeSeed<'a>>(&mut self, s: S) -> Result<S::Value, Err> { s.deserialize(&mut *self.r) }
}
impl<'a> de::EnumAccess<'a> for &mut R<'a> { type Error = Err; type Variant = Self;
    fn variant_seed<S: DeserializeSeed<'a>>(self, s: S) -> Result<(S::Value, Self), Err> {
        let i = u32::from_le_bytes(self.take(4)?.try_into().unwrap());
        Ok((s.deserialize(IntoDeserializer::<Err>::into_deserializer(i))?, self)) }
}
impl<'a> de::VariantAccess<'a> for &mut R<'a> { type Error = Err;
    fn unit_variant(self) -> Result<(), Err> { Ok(()) }
    fn newtype_variant_seed<S: DeserializeSeed<'a>>(self, s: S) -> Result<S::Value, Err> { s.deserialize(self) }
    fn tuple_variant<V: Visitor<'a>>(self, n: usize, v: V) -> Result<V::Value, Err> { de::Deserializer::deserialize_tuple(self, n, v) }
    fn struct_variant<V: Visitor<'a>>(self, f: &'static [&'static str], v: V) -> Result<V::Value, Err> { de::Deserializer::deserialize_tuple(self, f.len(), v) }
}
