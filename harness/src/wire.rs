//! A serialization format that exists in memory only: a tree of values that keeps names (like JSON)
//! or, in the compact form, positions (like bincode).

use serde::de::{self, DeserializeOwned, DeserializeSeed, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum Value {
    Unit,
    Bool(bool),
    Int(i128),
    F32(u32),
    F64(u64),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<Value>),
    Seq(Vec<Value>),
    /// Structs and maps
    Map(Vec<(Value, Value)>),
    /// The name, the index and the content of a variant
    Variant(String, u32, Box<Value>),
}

#[derive(Debug)]
pub struct Error(pub String);

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
impl de::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Form {
    /// Structs are maps from names, in order
    Named,
    /// Structs are maps from names, in reversed order
    Shuffled,
    /// Structs are sequences
    Compact,
}

pub const FORMS: [Form; 3] = [Form::Named, Form::Shuffled, Form::Compact];

pub fn to_value<T: Serialize + ?Sized>(t: &T, form: Form) -> Result<Value, Error> {
    t.serialize(Ser(form))
}

pub fn from_value<T: DeserializeOwned>(v: &Value, form: Form) -> Result<T, Error> {
    T::deserialize(De(v, form))
}

#[derive(Clone, Copy)]
struct Ser(Form);

struct SerSeq(Form, Vec<Value>, Option<(String, u32)>);
struct SerMap(Form, Vec<(Value, Value)>, Option<(String, u32)>, Option<Value>);

impl SerSeq {
    fn finish(self) -> Result<Value, Error> {
        let v = Value::Seq(self.1);
        Ok(match self.2 {
            Some((n, i)) => Value::Variant(n, i, Box::new(v)),
            None => v,
        })
    }
}

impl SerMap {
    fn finish_struct(mut self) -> Result<Value, Error> {
        let v = match self.0 {
            Form::Compact => Value::Seq(self.1.into_iter().map(|(_, v)| v).collect()),
            Form::Named => Value::Map(self.1),
            Form::Shuffled => {
                self.1.reverse();
                Value::Map(self.1)
            }
        };
        Ok(match self.2 {
            Some((n, i)) => Value::Variant(n, i, Box::new(v)),
            None => v,
        })
    }
}

macro_rules! ser_int {
    ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> Result<Value, Error> { Ok(Value::Int(v as i128)) })* };
}

impl ser::Serializer for Ser {
    type Ok = Value;
    type Error = Error;
    type SerializeSeq = SerSeq;
    type SerializeTuple = SerSeq;
    type SerializeTupleStruct = SerSeq;
    type SerializeTupleVariant = SerSeq;
    type SerializeMap = SerMap;
    type SerializeStruct = SerMap;
    type SerializeStructVariant = SerMap;

    fn is_human_readable(&self) -> bool {
        self.0 != Form::Compact
    }

    ser_int!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64);

    fn serialize_bool(self, v: bool) -> Result<Value, Error> {
        Ok(Value::Bool(v))
    }
    fn serialize_f32(self, v: f32) -> Result<Value, Error> {
        Ok(Value::F32(v.to_bits()))
    }
    fn serialize_f64(self, v: f64) -> Result<Value, Error> {
        Ok(Value::F64(v.to_bits()))
    }
    fn serialize_char(self, v: char) -> Result<Value, Error> {
        Ok(Value::Str(v.to_string()))
    }
    fn serialize_str(self, v: &str) -> Result<Value, Error> {
        Ok(Value::Str(v.to_string()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Value, Error> {
        Ok(Value::Bytes(v.to_vec()))
    }
    fn serialize_none(self) -> Result<Value, Error> {
        Ok(Value::None)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Value, Error> {
        Ok(Value::Some(Box::new(v.serialize(self)?)))
    }
    fn serialize_unit(self) -> Result<Value, Error> {
        Ok(Value::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Value, Error> {
        Ok(Value::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, n: &'static str) -> Result<Value, Error> {
        Ok(Value::Variant(n.to_string(), i, Box::new(Value::Unit)))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<Value, Error> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(
        self,
        _: &'static str,
        i: u32,
        n: &'static str,
        v: &T,
    ) -> Result<Value, Error> {
        Ok(Value::Variant(n.to_string(), i, Box::new(v.serialize(self)?)))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<SerSeq, Error> {
        Ok(SerSeq(self.0, Vec::new(), None))
    }
    fn serialize_tuple(self, _: usize) -> Result<SerSeq, Error> {
        Ok(SerSeq(self.0, Vec::new(), None))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<SerSeq, Error> {
        Ok(SerSeq(self.0, Vec::new(), None))
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, n: &'static str, _: usize) -> Result<SerSeq, Error> {
        Ok(SerSeq(self.0, Vec::new(), Some((n.to_string(), i))))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<SerMap, Error> {
        Ok(SerMap(self.0, Vec::new(), None, None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<SerMap, Error> {
        Ok(SerMap(self.0, Vec::new(), None, None))
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, n: &'static str, _: usize) -> Result<SerMap, Error> {
        Ok(SerMap(self.0, Vec::new(), Some((n.to_string(), i)), None))
    }
}

macro_rules! ser_seq {
    ($($t:ident $f:ident),*) => { $(
        impl ser::$t for SerSeq {
            type Ok = Value;
            type Error = Error;
            fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
                self.1.push(v.serialize(Ser(self.0))?);
                Ok(())
            }
            fn end(self) -> Result<Value, Error> {
                self.finish()
            }
        }
    )* };
}
ser_seq!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);

macro_rules! ser_struct {
    ($($t:ident),*) => { $(
        impl ser::$t for SerMap {
            type Ok = Value;
            type Error = Error;
            fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Error> {
                self.1.push((Value::Str(k.to_string()), v.serialize(Ser(self.0))?));
                Ok(())
            }
            fn end(self) -> Result<Value, Error> {
                self.finish_struct()
            }
        }
    )* };
}
ser_struct!(SerializeStruct, SerializeStructVariant);

impl ser::SerializeMap for SerMap {
    type Ok = Value;
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), Error> {
        self.3 = Some(k.serialize(Ser(self.0))?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        let k = self.3.take().unwrap_or(Value::Unit);
        self.1.push((k, v.serialize(Ser(self.0))?));
        Ok(())
    }
    fn end(self) -> Result<Value, Error> {
        Ok(Value::Map(self.1))
    }
}

struct De<'a>(&'a Value, Form);

struct SeqDe<'a>(std::slice::Iter<'a, Value>, Form);

impl<'de, 'a> de::SeqAccess<'de> for SeqDe<'a> {
    type Error = Error;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<Option<S::Value>, Error> {
        match self.0.next() {
            Some(v) => seed.deserialize(De(v, self.1)).map(Some),
            None => Ok(None),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.0.len())
    }
}

struct MapDe<'a>(std::slice::Iter<'a, (Value, Value)>, Option<&'a Value>, Form);

impl<'de, 'a> de::MapAccess<'de> for MapDe<'a> {
    type Error = Error;
    fn next_key_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<Option<S::Value>, Error> {
        match self.0.next() {
            Some((k, v)) => {
                self.1 = Some(v);
                seed.deserialize(De(k, self.2)).map(Some)
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<S::Value, Error> {
        match self.1.take() {
            Some(v) => seed.deserialize(De(v, self.2)),
            None => Err(Error("no value".into())),
        }
    }
}

struct VariantDe<'a>(&'a str, u32, &'a Value, Form);

impl<'de, 'a> de::EnumAccess<'de> for VariantDe<'a> {
    type Error = Error;
    type Variant = De<'a>;
    fn variant_seed<S: DeserializeSeed<'de>>(self, seed: S) -> Result<(S::Value, De<'a>), Error> {
        let v = if self.3 == Form::Compact {
            seed.deserialize(self.1.into_deserializer())?
        } else {
            seed.deserialize(self.0.into_deserializer())?
        };
        Ok((v, De(self.2, self.3)))
    }
}

impl<'de, 'a> de::VariantAccess<'de> for De<'a> {
    type Error = Error;
    fn unit_variant(self) -> Result<(), Error> {
        Ok(())
    }
    fn newtype_variant_seed<S: DeserializeSeed<'de>>(self, seed: S) -> Result<S::Value, Error> {
        seed.deserialize(self)
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, Error> {
        de::Deserializer::deserialize_any(self, v)
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        de::Deserializer::deserialize_any(self, v)
    }
}

macro_rules! de_int {
    ($($f:ident $v:ident $t:ty),*) => { $(
        fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
            match self.0 {
                Value::Int(i) if *i >= <$t>::MIN as i128 && *i <= <$t>::MAX as i128 => v.$v(*i as $t),
                _ => self.deserialize_any(v),
            }
        }
    )* };
}

impl<'de, 'a> de::Deserializer<'de> for De<'a> {
    type Error = Error;

    fn is_human_readable(&self) -> bool {
        self.1 != Form::Compact
    }

    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.0 {
            Value::Unit => v.visit_unit(),
            Value::Bool(b) => v.visit_bool(*b),
            Value::Int(i) if *i < 0 => v.visit_i64(*i as i64),
            Value::Int(i) => v.visit_u64(*i as u64),
            Value::F32(b) => v.visit_f32(f32::from_bits(*b)),
            Value::F64(b) => v.visit_f64(f64::from_bits(*b)),
            Value::Str(s) => v.visit_str(s),
            Value::Bytes(b) => v.visit_bytes(b),
            Value::None => v.visit_none(),
            Value::Some(x) => v.visit_some(De(x, self.1)),
            Value::Seq(s) => v.visit_seq(SeqDe(s.iter(), self.1)),
            Value::Map(m) => v.visit_map(MapDe(m.iter(), None, self.1)),
            Value::Variant(n, i, x) => v.visit_enum(VariantDe(n, *i, x, self.1)),
        }
    }

    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.0 {
            Value::None | Value::Some(_) => self.deserialize_any(v),
            _ => v.visit_some(self),
        }
    }

    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_newtype_struct(self)
    }

    fn deserialize_enum<V: Visitor<'de>>(
        self,
        _: &'static str,
        _: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, Error> {
        self.deserialize_any(v)
    }

    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, Error> {
        match self.0 {
            Value::Seq(s) if s.len() != n => Err(Error(format!("{} elements instead of {}", s.len(), n))),
            _ => self.deserialize_any(v),
        }
    }

    fn deserialize_struct<V: Visitor<'de>>(
        self,
        name: &'static str,
        fields: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, Error> {
        match self.0 {
            Value::Seq(s) if s.len() != fields.len() => {
                Err(Error(format!("{} fields of {} instead of {}", s.len(), name, fields.len())))
            }
            _ => self.deserialize_any(v),
        }
    }

    de_int!(deserialize_i8 visit_i8 i8, deserialize_i16 visit_i16 i16, deserialize_i32 visit_i32 i32, deserialize_i64 visit_i64 i64, deserialize_u8 visit_u8 u8, deserialize_u16 visit_u16 u16, deserialize_u32 visit_u32 u32, deserialize_u64 visit_u64 u64);

    serde::forward_to_deserialize_any! {
        bool f32 f64 char str string bytes byte_buf unit unit_struct seq tuple_struct map identifier ignored_any
    }
}
