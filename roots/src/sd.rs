//! A serializer / deserializer of unknown behaviour for instantiating the
//! serde impls.
use crate::ext;
use serde::{de, ser};
use std::fmt::Display;

#[derive(Debug)]
pub struct E0;
impl Display for E0 {
    fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for E0 {}
impl de::Error for E0 {
    fn custom<T: Display>(_: T) -> Self {
        unsafe { ext::vx_err() };
        E0
    }
}
impl ser::Error for E0 {
    fn custom<T: Display>(_: T) -> Self {
        E0
    }
}

pub struct D0;

macro_rules! no {
    ($($f:ident)*) => { $(fn $f<V: de::Visitor<'static>>(self, _v: V) -> Result<V::Value, E0> { Err(E0) })* };
}

impl de::Deserializer<'static> for D0 {
    type Error = E0;
    fn is_human_readable(&self) -> bool {
        unsafe { ext::vx_bool() }
    }
    fn deserialize_str<V: de::Visitor<'static>>(self, v: V) -> Result<V::Value, E0> {
        v.visit_str(unsafe { ext::vx_str() })
    }
    fn deserialize_bytes<V: de::Visitor<'static>>(self, v: V) -> Result<V::Value, E0> {
        v.visit_bytes(unsafe { ext::vx_bytes() })
    }
    no!(deserialize_any deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64
        deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_f32 deserialize_f64
        deserialize_char deserialize_option deserialize_unit deserialize_seq deserialize_map
        deserialize_identifier deserialize_ignored_any);
    fn deserialize_string<V: de::Visitor<'static>>(self, v: V) -> Result<V::Value, E0> {
        v.visit_str(unsafe { ext::vx_str() })
    }
    fn deserialize_byte_buf<V: de::Visitor<'static>>(self, v: V) -> Result<V::Value, E0> {
        v.visit_bytes(unsafe { ext::vx_bytes() })
    }
    fn deserialize_unit_struct<V: de::Visitor<'static>>(self, _: &'static str, _v: V) -> Result<V::Value, E0> {
        Err(E0)
    }
    fn deserialize_newtype_struct<V: de::Visitor<'static>>(self, _: &'static str, _v: V) -> Result<V::Value, E0> {
        Err(E0)
    }
    fn deserialize_tuple<V: de::Visitor<'static>>(self, _: usize, _v: V) -> Result<V::Value, E0> {
        Err(E0)
    }
    fn deserialize_tuple_struct<V: de::Visitor<'static>>(
        self,
        _: &'static str,
        _: usize,
        _v: V,
    ) -> Result<V::Value, E0> {
        Err(E0)
    }
    fn deserialize_struct<V: de::Visitor<'static>>(
        self,
        _: &'static str,
        _: &'static [&'static str],
        _v: V,
    ) -> Result<V::Value, E0> {
        Err(E0)
    }
    fn deserialize_enum<V: de::Visitor<'static>>(
        self,
        _: &'static str,
        _: &'static [&'static str],
        _v: V,
    ) -> Result<V::Value, E0> {
        Err(E0)
    }
}

pub struct S0;
macro_rules! nos {
    ($($f:ident $t:ty),*) => { $(fn $f(self, _v: $t) -> Result<(), E0> { Err(E0) })* };
}
impl ser::Serializer for S0 {
    type Ok = ();
    type Error = E0;
    type SerializeSeq = ser::Impossible<(), E0>;
    type SerializeTuple = ser::Impossible<(), E0>;
    type SerializeTupleStruct = ser::Impossible<(), E0>;
    type SerializeTupleVariant = ser::Impossible<(), E0>;
    type SerializeMap = ser::Impossible<(), E0>;
    type SerializeStruct = ser::Impossible<(), E0>;
    type SerializeStructVariant = ser::Impossible<(), E0>;
    fn is_human_readable(&self) -> bool {
        unsafe { ext::vx_bool() }
    }
    fn serialize_str(self, v: &str) -> Result<(), E0> {
        unsafe { ext::vx_sink_str(v) };
        Ok(())
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), E0> {
        unsafe { ext::vx_sink_bytes(v) };
        Ok(())
    }
    nos!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64,
         serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32,
         serialize_f64 f64, serialize_char char);
    fn serialize_none(self) -> Result<(), E0> {
        Err(E0)
    }
    fn serialize_some<T: ?Sized + ser::Serialize>(self, _: &T) -> Result<(), E0> {
        Err(E0)
    }
    fn serialize_unit(self) -> Result<(), E0> {
        Err(E0)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), E0> {
        Err(E0)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), E0> {
        Err(E0)
    }
    fn serialize_newtype_struct<T: ?Sized + ser::Serialize>(self, _: &'static str, _: &T) -> Result<(), E0> {
        Err(E0)
    }
    fn serialize_newtype_variant<T: ?Sized + ser::Serialize>(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: &T,
    ) -> Result<(), E0> {
        Err(E0)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, E0> {
        Err(E0)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, E0> {
        Err(E0)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E0> {
        Err(E0)
    }
    fn serialize_tuple_variant(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: usize,
    ) -> Result<Self::SerializeTupleVariant, E0> {
        Err(E0)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, E0> {
        Err(E0)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, E0> {
        Err(E0)
    }
    fn serialize_struct_variant(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: usize,
    ) -> Result<Self::SerializeStructVariant, E0> {
        Err(E0)
    }
}
