//! A binary serde format that keeps the names of structure fields, as CBOR-like formats do:
//! values are recorded as they are given and read back as a map (in any field order) or a
//! sequence.

use serde::de::{self, DeserializeSeed, IntoDeserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Impossible, Serialize, SerializeStruct};
use std::fmt;

#[derive(Debug, Clone, PartialEq)]
pub enum Wire {
    I32(i32),
    I64(i64),
    Struct(Vec<(String, Wire)>),
}

#[derive(Debug, PartialEq)]
pub struct Bad(pub String);

impl fmt::Display for Bad {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Bad {}
impl ser::Error for Bad {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Bad(m.to_string())
    }
}
impl de::Error for Bad {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Bad(m.to_string())
    }
}

pub struct Rec;
pub struct RecStruct(Vec<(String, Wire)>);

impl SerializeStruct for RecStruct {
    type Ok = Wire;
    type Error = Bad;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, key: &'static str, v: &T) -> Result<(), Bad> {
        self.0.push((key.to_string(), v.serialize(Rec)?));
        Ok(())
    }
    fn end(self) -> Result<Wire, Bad> {
        Ok(Wire::Struct(self.0))
    }
}

macro_rules! not {
    ($($f:ident($($t:ty),*);)*) => { $(fn $f(self, $(_: $t),*) -> Result<Wire, Bad> { Err(Bad(format!("unexpected {}", stringify!($f)))) })* };
}

impl ser::Serializer for Rec {
    type Ok = Wire;
    type Error = Bad;
    type SerializeSeq = Impossible<Wire, Bad>;
    type SerializeTuple = Impossible<Wire, Bad>;
    type SerializeTupleStruct = Impossible<Wire, Bad>;
    type SerializeTupleVariant = Impossible<Wire, Bad>;
    type SerializeMap = Impossible<Wire, Bad>;
    type SerializeStruct = RecStruct;
    type SerializeStructVariant = Impossible<Wire, Bad>;
    not! {
        serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_u8(u8); serialize_u16(u16);
        serialize_u32(u32); serialize_u64(u64); serialize_f32(f32); serialize_f64(f64); serialize_char(char);
        serialize_str(&str); serialize_bytes(&[u8]); serialize_none(); serialize_unit();
        serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str);
    }
    fn serialize_i32(self, v: i32) -> Result<Wire, Bad> {
        Ok(Wire::I32(v))
    }
    fn serialize_i64(self, v: i64) -> Result<Wire, Bad> {
        Ok(Wire::I64(v))
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Wire, Bad> {
        v.serialize(self)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Wire, Bad> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Wire, Bad> {
        Err(Bad("unexpected variant".into()))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Bad> {
        Err(Bad("unexpected sequence".into()))
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Bad> {
        Err(Bad("unexpected tuple".into()))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Bad> {
        Err(Bad("unexpected tuple".into()))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Bad> {
        Err(Bad("unexpected tuple".into()))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Bad> {
        Err(Bad("unexpected map".into()))
    }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<RecStruct, Bad> {
        Ok(RecStruct(Vec::with_capacity(n)))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Bad> {
        Err(Bad("unexpected variant".into()))
    }
    fn is_human_readable(&self) -> bool {
        false
    }
}

/// Reads a recorded value; structures as maps, or as sequences when `seq`.
#[derive(Clone)]
pub struct Reader {
    pub value: Wire,
    pub seq: bool,
}

struct Walk {
    left: std::vec::IntoIter<(String, Wire)>,
    next: Option<Wire>,
    seq: bool,
}

impl<'de> MapAccess<'de> for Walk {
    type Error = Bad;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Bad> {
        match self.left.next() {
            None => Ok(None),
            Some((k, v)) => {
                self.next = Some(v);
                seed.deserialize(IntoDeserializer::<Bad>::into_deserializer(k)).map(Some)
            }
        }
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value, Bad> {
        let value = self.next.take().ok_or(Bad("value before key".into()))?;
        seed.deserialize(Reader { value, seq: self.seq })
    }
}

impl<'de> SeqAccess<'de> for Walk {
    type Error = Bad;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Bad> {
        match self.left.next() {
            None => Ok(None),
            Some((_, value)) => seed.deserialize(Reader { value, seq: self.seq }).map(Some),
        }
    }
}

impl<'de> de::Deserializer<'de> for Reader {
    type Error = Bad;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        match self.value {
            Wire::I32(n) => v.visit_i32(n),
            Wire::I64(n) => v.visit_i64(n),
            Wire::Struct(f) => {
                let w = Walk { left: f.into_iter(), next: None, seq: self.seq };
                if self.seq { v.visit_seq(w) } else { v.visit_map(w) }
            }
        }
    }
    fn is_human_readable(&self) -> bool {
        false
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
