//! Recording serializer and small deserializer helpers.
use serde::ser::{self, Impossible, Serialize};
use std::fmt;

#[derive(Debug, Clone, PartialEq)]
pub enum Ev {
    Str(String),
    Bytes(Vec<u8>),
    Other(&'static str),
}
impl crate::rt::Raw for Ev {
    type R = Ev;
    fn raw(self) -> Ev {
        self
    }
}
#[derive(Debug)]
pub struct E(pub String);
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: fmt::Display>(t: T) -> E {
        E(t.to_string())
    }
}
impl serde::de::Error for E {
    fn custom<T: fmt::Display>(t: T) -> E {
        E(t.to_string())
    }
}

pub struct Rec {
    pub human: bool,
}
type X = Impossible<Ev, E>;
macro_rules! other {
    ($($f:ident $t:ty),*) => {$(fn $f(self, _: $t) -> Result<Ev, E> { Ok(Ev::Other(stringify!($f))) })*};
}
impl serde::Serializer for Rec {
    type Ok = Ev;
    type Error = E;
    type SerializeSeq = X;
    type SerializeTuple = X;
    type SerializeTupleStruct = X;
    type SerializeTupleVariant = X;
    type SerializeMap = X;
    type SerializeStruct = X;
    type SerializeStructVariant = X;
    other!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_i128 i128,
           serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_u128 u128, serialize_f32 f32, serialize_f64 f64, serialize_char char);
    fn serialize_str(self, v: &str) -> Result<Ev, E> {
        Ok(Ev::Str(v.into()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Ev, E> {
        Ok(Ev::Bytes(v.into()))
    }
    fn serialize_none(self) -> Result<Ev, E> {
        Ok(Ev::Other("none"))
    }
    fn serialize_some<T: Serialize + ?Sized>(self, _: &T) -> Result<Ev, E> {
        Ok(Ev::Other("some"))
    }
    fn serialize_unit(self) -> Result<Ev, E> {
        Ok(Ev::Other("unit"))
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Ev, E> {
        Ok(Ev::Other("unit struct"))
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<Ev, E> {
        Ok(Ev::Other("unit variant"))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<Ev, E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Ev, E> {
        Ok(Ev::Other("newtype variant"))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<X, E> {
        Err(E("seq".into()))
    }
    fn serialize_tuple(self, _: usize) -> Result<X, E> {
        Err(E("tuple".into()))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<X, E> {
        Err(E("tuple struct".into()))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<X, E> {
        Err(E("tuple variant".into()))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<X, E> {
        Err(E("map".into()))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<X, E> {
        Err(E("struct".into()))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<X, E> {
        Err(E("struct variant".into()))
    }
    fn is_human_readable(&self) -> bool {
        self.human
    }
}

/// Newtypes routing through each `#[serde(with)]` module, written out by hand.
#[macro_export]
macro_rules! with_type {
    ($name:ident, $t:ty, $($path:ident)::+) => {
        pub struct $name(pub $t);
        impl serde::Serialize for $name {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                $($path)::+::serialize(&self.0, s)
            }
        }
        impl<'de> serde::Deserialize<'de> for $name {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                $($path)::+::deserialize(d).map($name)
            }
        }
    };
}

/// Bytes handed to the serializer by `compressed_bytes::be`.
pub fn compressed_be(x: &ethnum::I256) -> Vec<u8> {
    match ethnum::serde::compressed_bytes::be::serialize(x, Rec { human: false }) {
        Ok(Ev::Bytes(b)) => b,
        o => panic!("not bytes: {o:?}"),
    }
}

/// A sequence deserializer that leaves every length check to the visitor: it never complains about
/// elements left over, gives whatever size hint it was told, and may fail part-way.
pub struct Loose<'a> {
    pub data: &'a [u8],
    pub hint: Option<usize>,
    pub fail_at: Option<usize>,
}
impl<'de> serde::de::SeqAccess<'de> for Loose<'_> {
    type Error = E;
    fn next_element_seed<T: serde::de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        use serde::de::IntoDeserializer;
        if self.fail_at == Some(0) {
            return Err(E("element cannot be read".into()));
        }
        self.fail_at = self.fail_at.map(|k| k - 1);
        match self.data.split_first() {
            Some((b, rest)) => {
                self.data = rest;
                self.hint = self.hint.map(|h| h.saturating_sub(1));
                s.deserialize(IntoDeserializer::<E>::into_deserializer(*b)).map(Some)
            }
            None => Ok(None),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
}
impl<'de> serde::Deserializer<'de> for Loose<'_> {
    type Error = E;
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_seq(self)
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}

/// A format that is not self-describing (as bincode and postcard): it can only read what was written, and
/// only when asked for that kind of data. `owned` picks the owned visitor methods.
pub struct Typed {
    pub ev: Ev,
    pub owned: bool,
}
macro_rules! typed_no {
    ($($f:ident),*) => {$(fn $f<V: serde::de::Visitor<'de>>(self, _: V) -> Result<V::Value, E> { Err(E(concat!("asked for ", stringify!($f)).into())) })*};
}
impl Typed {
    fn give<'de, V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match (self.ev, self.owned) {
            (Ev::Str(s), false) => v.visit_str(&s),
            (Ev::Str(s), true) => v.visit_string(s),
            (Ev::Bytes(b), false) => v.visit_bytes(&b),
            (Ev::Bytes(b), true) => v.visit_byte_buf(b),
            _ => Err(E("nothing".into())),
        }
    }
}
impl<'de> serde::Deserializer<'de> for Typed {
    type Error = E;
    typed_no!(deserialize_any, deserialize_bool, deserialize_i8, deserialize_i16, deserialize_i32, deserialize_i64, deserialize_i128, deserialize_u8, deserialize_u16, deserialize_u32, deserialize_u64, deserialize_u128,
              deserialize_f32, deserialize_f64, deserialize_char, deserialize_option, deserialize_unit, deserialize_seq, deserialize_map, deserialize_identifier, deserialize_ignored_any);
    fn deserialize_str<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        if matches!(self.ev, Ev::Str(_)) { self.give(v) } else { Err(E("asked for str".into())) }
    }
    fn deserialize_string<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.deserialize_str(v)
    }
    fn deserialize_bytes<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        if matches!(self.ev, Ev::Bytes(_)) { self.give(v) } else { Err(E("asked for bytes".into())) }
    }
    fn deserialize_byte_buf<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.deserialize_bytes(v)
    }
    fn deserialize_unit_struct<V: serde::de::Visitor<'de>>(self, _: &'static str, _: V) -> Result<V::Value, E> {
        Err(E("asked for unit struct".into()))
    }
    fn deserialize_newtype_struct<V: serde::de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_tuple<V: serde::de::Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, E> {
        Err(E("asked for tuple".into()))
    }
    fn deserialize_tuple_struct<V: serde::de::Visitor<'de>>(self, _: &'static str, _: usize, _: V) -> Result<V::Value, E> {
        Err(E("asked for tuple struct".into()))
    }
    fn deserialize_struct<V: serde::de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, E> {
        Err(E("asked for struct".into()))
    }
    fn deserialize_enum<V: serde::de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, E> {
        Err(E("asked for enum".into()))
    }
    fn is_human_readable(&self) -> bool {
        false
    }
}
