//! A compact binary serde format that is not self-describing (structs are tuples, variants are
//! numbers), like the common binary formats.
use serde::de::{self, DeserializeSeed, Visitor};
use serde::{ser, Deserialize, Serialize};
use std::fmt;

#[derive(Debug)]
pub struct Error(pub String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
impl de::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
type R<T> = Result<T, Error>;

pub fn to_bytes<T: Serialize>(t: &T) -> R<Vec<u8>> {
    let mut s = Ser(vec![]);
    t.serialize(&mut s)?;
    Ok(s.0)
}
pub fn from_bytes<'a, T: Deserialize<'a>>(b: &'a [u8]) -> R<T> {
    let mut d = De(b);
    let t = T::deserialize(&mut d)?;
    if d.0.is_empty() {
        Ok(t)
    } else {
        Err(Error(format!("{} bytes are left over", d.0.len())))
    }
}

pub struct Ser(Vec<u8>);
pub struct De<'a>(&'a [u8]);

macro_rules! num {
    ($($f:ident $t:ty),*) => { $( fn $f(self, v: $t) -> R<()> { self.0.extend_from_slice(&v.to_le_bytes()); Ok(()) } )* };
}

impl ser::Serializer for &mut Ser {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;
    num!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_i128 i128,
        serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_u128 u128,
        serialize_f32 f32, serialize_f64 f64);
    fn is_human_readable(&self) -> bool {
        false
    }
    fn serialize_bool(self, v: bool) -> R<()> {
        self.0.push(v as u8);
        Ok(())
    }
    fn serialize_char(self, v: char) -> R<()> {
        self.serialize_u32(v as u32)
    }
    fn serialize_str(self, v: &str) -> R<()> {
        self.serialize_bytes(v.as_bytes())
    }
    fn serialize_bytes(self, v: &[u8]) -> R<()> {
        self.0.extend_from_slice(&(v.len() as u64).to_le_bytes());
        self.0.extend_from_slice(v);
        Ok(())
    }
    fn serialize_none(self) -> R<()> {
        self.0.push(0);
        Ok(())
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> R<()> {
        self.0.push(1);
        v.serialize(self)
    }
    fn serialize_unit(self) -> R<()> {
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> R<()> {
        Ok(())
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> R<()> {
        self.serialize_u32(i)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> R<()> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> R<()> {
        self.0.extend_from_slice(&i.to_le_bytes());
        v.serialize(self)
    }
    fn serialize_seq(self, n: Option<usize>) -> R<Self> {
        let n = n.ok_or(Error("sequence of unknown length".into()))?;
        self.0.extend_from_slice(&(n as u64).to_le_bytes());
        Ok(self)
    }
    fn serialize_tuple(self, _: usize) -> R<Self> {
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> R<Self> {
        Ok(self)
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> R<Self> {
        self.0.extend_from_slice(&i.to_le_bytes());
        Ok(self)
    }
    fn serialize_map(self, n: Option<usize>) -> R<Self> {
        self.serialize_seq(n)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> R<Self> {
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> R<Self> {
        self.0.extend_from_slice(&i.to_le_bytes());
        Ok(self)
    }
}
macro_rules! compound {
    ($($tr:ident $f:ident),*) => { $(
        impl ser::$tr for &mut Ser {
            type Ok = ();
            type Error = Error;
            fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> R<()> { v.serialize(&mut **self) }
            fn end(self) -> R<()> { Ok(()) }
        }
    )* };
}
compound!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! fields {
    ($($tr:ident),*) => { $(
        impl ser::$tr for &mut Ser {
            type Ok = ();
            type Error = Error;
            fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> R<()> { v.serialize(&mut **self) }
            fn end(self) -> R<()> { Ok(()) }
        }
    )* };
}
fields!(SerializeStruct, SerializeStructVariant);
impl ser::SerializeMap for &mut Ser {
    type Ok = ();
    type Error = Error;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> R<()> {
        v.serialize(&mut **self)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> R<()> {
        v.serialize(&mut **self)
    }
    fn end(self) -> R<()> {
        Ok(())
    }
}

impl<'de> De<'de> {
    fn take(&mut self, n: usize) -> R<&'de [u8]> {
        if self.0.len() < n {
            return Err(Error("unexpected end".into()));
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn len(&mut self) -> R<usize> {
        Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()) as usize)
    }
}
macro_rules! rnum {
    ($($f:ident $v:ident $t:ty),*) => { $(
        fn $f<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
            v.$v(<$t>::from_le_bytes(self.take(std::mem::size_of::<$t>())?.try_into().unwrap()))
        }
    )* };
}
struct Seq<'a, 'de>(&'a mut De<'de>, usize);
impl<'de> de::SeqAccess<'de> for Seq<'_, 'de> {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> R<Option<T::Value>> {
        if self.1 == 0 {
            return Ok(None);
        }
        self.1 -= 1;
        s.deserialize(&mut *self.0).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.1)
    }
}
impl<'de> de::MapAccess<'de> for Seq<'_, 'de> {
    type Error = Error;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> R<Option<T::Value>> {
        de::SeqAccess::next_element_seed(self, s)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> R<T::Value> {
        s.deserialize(&mut *self.0)
    }
}
impl<'de> de::EnumAccess<'de> for &mut De<'de> {
    type Error = Error;
    type Variant = Self;
    fn variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> R<(T::Value, Self)> {
        let i = u32::from_le_bytes(self.take(4)?.try_into().unwrap());
        let v = s.deserialize(de::value::U32Deserializer::<Error>::new(i))?;
        Ok((v, self))
    }
}
impl<'de> de::VariantAccess<'de> for &mut De<'de> {
    type Error = Error;
    fn unit_variant(self) -> R<()> {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> R<T::Value> {
        s.deserialize(self)
    }
    fn tuple_variant<V: Visitor<'de>>(self, n: usize, v: V) -> R<V::Value> {
        v.visit_seq(Seq(self, n))
    }
    fn struct_variant<V: Visitor<'de>>(self, f: &'static [&'static str], v: V) -> R<V::Value> {
        v.visit_seq(Seq(self, f.len()))
    }
}
impl<'de> de::Deserializer<'de> for &mut De<'de> {
    type Error = Error;
    rnum!(deserialize_i8 visit_i8 i8, deserialize_i16 visit_i16 i16, deserialize_i32 visit_i32 i32, deserialize_i64 visit_i64 i64,
        deserialize_i128 visit_i128 i128, deserialize_u8 visit_u8 u8, deserialize_u16 visit_u16 u16, deserialize_u32 visit_u32 u32,
        deserialize_u64 visit_u64 u64, deserialize_u128 visit_u128 u128, deserialize_f32 visit_f32 f32, deserialize_f64 visit_f64 f64);
    fn is_human_readable(&self) -> bool {
        false
    }
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> R<V::Value> {
        Err(Error("the format does not describe itself".into()))
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        self.deserialize_any(v)
    }
    fn deserialize_identifier<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        self.deserialize_any(v)
    }
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        v.visit_bool(self.take(1)?[0] != 0)
    }
    fn deserialize_char<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        let i = u32::from_le_bytes(self.take(4)?.try_into().unwrap());
        v.visit_char(char::from_u32(i).ok_or(Error("bad char".into()))?)
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        let n = self.len()?;
        v.visit_borrowed_str(std::str::from_utf8(self.take(n)?).map_err(|e| Error(e.to_string()))?)
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        self.deserialize_str(v)
    }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        let n = self.len()?;
        v.visit_borrowed_bytes(self.take(n)?)
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        self.deserialize_bytes(v)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        if self.take(1)?[0] == 0 {
            v.visit_none()
        } else {
            v.visit_some(self)
        }
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        v.visit_unit()
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> R<V::Value> {
        v.visit_unit()
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> R<V::Value> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        let n = self.len()?;
        v.visit_seq(Seq(self, n))
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> R<V::Value> {
        v.visit_seq(Seq(self, n))
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, n: usize, v: V) -> R<V::Value> {
        v.visit_seq(Seq(self, n))
    }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        let n = self.len()?;
        v.visit_map(Seq(self, n))
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> R<V::Value> {
        v.visit_seq(Seq(self, f.len()))
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> R<V::Value> {
        v.visit_enum(self)
    }
}
