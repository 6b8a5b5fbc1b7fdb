//! A compact, non self-describing binary serde format (fixed-width integers, no names):
//! what a durable store would use besides JSON.
use serde::de::{self, DeserializeSeed, EnumAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize};
use serde::Deserialize;
use std::fmt;

#[derive(Debug)]
pub struct E(pub String);
impl fmt::Display for E { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for E {}
impl ser::Error for E { fn custom<T: fmt::Display>(m: T) -> E { E(m.to_string()) } }
impl de::Error for E { fn custom<T: fmt::Display>(m: T) -> E { E(m.to_string()) } }

pub fn to_bytes<T: Serialize>(t: &T) -> Result<Vec<u8>, E> { let mut s = Ser(vec![]); t.serialize(&mut s)?; Ok(s.0) }
pub fn from_bytes<'a, T: Deserialize<'a>>(b: &'a [u8]) -> Result<T, E> {
    let mut d = De(b);
    let t = T::deserialize(&mut d)?;
    if d.0.is_empty() { Ok(t) } else { Err(E("trailing bytes".into())) }
}

pub struct Ser(Vec<u8>);
type R = Result<(), E>;
macro_rules! put { ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> R { self.0.extend_from_slice(&v.to_le_bytes()); Ok(()) })* } }
impl<'a> ser::Serializer for &'a mut Ser {
    type Ok = (); type Error = E;
    type SerializeSeq = Self; type SerializeTuple = Self; type SerializeTupleStruct = Self; type SerializeTupleVariant = Self;
    type SerializeMap = Self; type SerializeStruct = Self; type SerializeStructVariant = Self;
    put!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_i128 i128, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_u128 u128, serialize_f32 f32, serialize_f64 f64);
    fn serialize_bool(self, v: bool) -> R { self.0.push(v as u8); Ok(()) }
    fn serialize_char(self, v: char) -> R { self.serialize_u32(v as u32) }
    fn serialize_str(self, v: &str) -> R { self.serialize_bytes(v.as_bytes()) }
    fn serialize_bytes(self, v: &[u8]) -> R { self.0.extend((v.len() as u64).to_le_bytes()); self.0.extend(v); Ok(()) }
    fn serialize_none(self) -> R { self.0.push(0); Ok(()) }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> R { self.0.push(1); v.serialize(self) }
    fn serialize_unit(self) -> R { Ok(()) }
    fn serialize_unit_struct(self, _: &'static str) -> R { Ok(()) }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> R { self.serialize_u32(i) }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> R { v.serialize(self) }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> R { self.0.extend(i.to_le_bytes()); v.serialize(self) }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, E> { let n = n.ok_or(E("sequence of unknown length".into()))?; self.0.extend((n as u64).to_le_bytes()); Ok(self) }
    fn serialize_tuple(self, _: usize) -> Result<Self, E> { Ok(self) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, E> { Ok(self) }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self, E> { self.0.extend(i.to_le_bytes()); Ok(self) }
    fn serialize_map(self, n: Option<usize>) -> Result<Self, E> { self.serialize_seq(n) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, E> { Ok(self) }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self, E> { self.0.extend(i.to_le_bytes()); Ok(self) }
    fn is_human_readable(&self) -> bool { false }
}
macro_rules! compound { ($($tr:ident $f:ident),*) => { $(impl<'a> ser::$tr for &'a mut Ser { type Ok = (); type Error = E; fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> R { v.serialize(&mut **self) } fn end(self) -> R { Ok(()) } })* } }
compound!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
impl<'a> ser::SerializeStruct for &'a mut Ser { type Ok = (); type Error = E; fn serialize_field<T: Serialize + ?Sized>(&mut self, _: &'static str, v: &T) -> R { v.serialize(&mut **self) } fn end(self) -> R { Ok(()) } }
impl<'a> ser::SerializeStructVariant for &'a mut Ser { type Ok = (); type Error = E; fn serialize_field<T: Serialize + ?Sized>(&mut self, _: &'static str, v: &T) -> R { v.serialize(&mut **self) } fn end(self) -> R { Ok(()) } }
impl<'a> ser::SerializeMap for &'a mut Ser { type Ok = (); type Error = E; fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> R { v.serialize(&mut **self) } fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> R { v.serialize(&mut **self) } fn end(self) -> R { Ok(()) } }

pub struct De<'de>(&'de [u8]);
impl<'de> De<'de> {
    fn take(&mut self, n: usize) -> Result<&'de [u8], E> {
        if self.0.len() < n { return Err(E("end of data".into())); }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn u64(&mut self) -> Result<u64, E> { Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap())) }
    fn u32(&mut self) -> Result<u32, E> { Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap())) }
}
macro_rules! get { ($($f:ident $t:ty, $v:ident, $n:expr);*) => { $(fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { v.$v(<$t>::from_le_bytes(self.take($n)?.try_into().unwrap())) })* } }
impl<'de, 'a> de::Deserializer<'de> for &'a mut De<'de> {
    type Error = E;
    get!(deserialize_i8 i8, visit_i8, 1; deserialize_i16 i16, visit_i16, 2; deserialize_i32 i32, visit_i32, 4; deserialize_i64 i64, visit_i64, 8; deserialize_i128 i128, visit_i128, 16;
         deserialize_u8 u8, visit_u8, 1; deserialize_u16 u16, visit_u16, 2; deserialize_u32 u32, visit_u32, 4; deserialize_u64 u64, visit_u64, 8; deserialize_u128 u128, visit_u128, 16;
         deserialize_f32 f32, visit_f32, 4; deserialize_f64 f64, visit_f64, 8);
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> { Err(E("not self-describing".into())) }
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { let b = self.take(1)?[0]; v.visit_bool(b != 0) }
    fn deserialize_char<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { let c = self.u32()?; v.visit_char(char::from_u32(c).ok_or(E("bad char".into()))?) }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { let n = self.u64()? as usize; let b = self.take(n)?; v.visit_borrowed_str(std::str::from_utf8(b).map_err(|e| E(e.to_string()))?) }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { self.deserialize_str(v) }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { let n = self.u64()? as usize; let b = self.take(n)?; v.visit_borrowed_bytes(b) }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { self.deserialize_bytes(v) }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { if self.take(1)?[0] == 0 { v.visit_none() } else { v.visit_some(self) } }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { v.visit_unit() }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> { v.visit_unit() }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> { v.visit_newtype_struct(self) }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { let n = self.u64()? as usize; v.visit_seq(Acc { d: self, n }) }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, E> { v.visit_seq(Acc { d: self, n }) }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, n: usize, v: V) -> Result<V::Value, E> { v.visit_seq(Acc { d: self, n }) }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { let n = self.u64()? as usize; v.visit_map(Acc { d: self, n }) }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, E> { v.visit_seq(Acc { d: self, n: f.len() }) }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> { v.visit_enum(self) }
    fn deserialize_identifier<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> { Err(E("no identifiers".into())) }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> { Err(E("not self-describing".into())) }
    fn is_human_readable(&self) -> bool { false }
}
struct Acc<'a, 'de> { d: &'a mut De<'de>, n: usize }
impl<'a, 'de> SeqAccess<'de> for Acc<'a, 'de> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        if self.n == 0 { return Ok(None); }
        self.n -= 1;
        s.deserialize(&mut *self.d).map(Some)
    }
}
impl<'a, 'de> de::MapAccess<'de> for Acc<'a, 'de> {
    type Error = E;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        if self.n == 0 { return Ok(None); }
        self.n -= 1;
        s.deserialize(&mut *self.d).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, E> { s.deserialize(&mut *self.d) }
}
impl<'a, 'de> EnumAccess<'de> for &'a mut De<'de> {
    type Error = E; type Variant = Self;
    fn variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<(T::Value, Self), E> {
        let i = self.u32()?;
        let v = s.deserialize(de::value::U32Deserializer::<E>::new(i))?;
        Ok((v, self))
    }
}
impl<'a, 'de> VariantAccess<'de> for &'a mut De<'de> {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> { Ok(()) }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<T::Value, E> { s.deserialize(self) }
    fn tuple_variant<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, E> { v.visit_seq(Acc { d: self, n }) }
    fn struct_variant<V: Visitor<'de>>(self, f: &'static [&'static str], v: V) -> Result<V::Value, E> { v.visit_seq(Acc { d: self, n: f.len() }) }
}
