//! A serializer and a deserializer that write down what they are asked.
use serde::de::{self, Deserializer, IntoDeserializer, Visitor};
use serde::ser::{self, Impossible, Serialize, Serializer};
use std::cell::RefCell;
use std::fmt::Display;

#[derive(Debug, Clone, PartialEq)]
pub struct E(pub String);
impl Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: Display>(m: T) -> Self {
        E(m.to_string())
    }
}
impl de::Error for E {
    fn custom<T: Display>(m: T) -> Self {
        E(m.to_string())
    }
}

/// Gives every call back as text; fails after writing it down if `fail`.
pub struct Rec<'a> {
    pub log: &'a RefCell<String>,
    pub fail: bool,
    pub human: bool,
}
impl Rec<'_> {
    fn put(self, s: String) -> Result<String, E> {
        self.log.borrow_mut().push_str(&s);
        if self.fail {
            Err(E("injected".into()))
        } else {
            Ok(s)
        }
    }
}
macro_rules! ser {
    ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> Result<String, E> { self.put(format!("{} {:x?};", stringify!($f), v)) })* };
}
impl Serializer for Rec<'_> {
    type Ok = String;
    type Error = E;
    type SerializeSeq = Impossible<String, E>;
    type SerializeTuple = Impossible<String, E>;
    type SerializeTupleStruct = Impossible<String, E>;
    type SerializeTupleVariant = Impossible<String, E>;
    type SerializeMap = Impossible<String, E>;
    type SerializeStruct = Impossible<String, E>;
    type SerializeStructVariant = Impossible<String, E>;
    ser!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_i128 i128,
         serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_u128 u128, serialize_char char, serialize_str &str, serialize_bytes &[u8]);
    fn serialize_f32(self, v: f32) -> Result<String, E> {
        self.put(format!("f32 {:x};", v.to_bits()))
    }
    fn serialize_f64(self, v: f64) -> Result<String, E> {
        self.put(format!("f64 {:x};", v.to_bits()))
    }
    fn serialize_none(self) -> Result<String, E> {
        self.put("none;".into())
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<String, E> {
        self.log.borrow_mut().push_str("some ");
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<String, E> {
        self.put("unit;".into())
    }
    fn serialize_unit_struct(self, n: &'static str) -> Result<String, E> {
        self.put(format!("unit struct {n};"))
    }
    fn serialize_unit_variant(self, n: &'static str, _: u32, v: &'static str) -> Result<String, E> {
        self.put(format!("variant {n} {v};"))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, n: &'static str, v: &T) -> Result<String, E> {
        self.log.borrow_mut().push_str(n);
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, n: &'static str, _: u32, _: &'static str, v: &T) -> Result<String, E> {
        self.log.borrow_mut().push_str(n);
        v.serialize(self)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, E> {
        Err(E("seq".into()))
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, E> {
        Err(E("tuple".into()))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E> {
        Err(E("tuple struct".into()))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> {
        Err(E("tuple variant".into()))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, E> {
        Err(E("map".into()))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, E> {
        Err(E("struct".into()))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> {
        Err(E("struct variant".into()))
    }
    fn is_human_readable(&self) -> bool {
        self.human
    }
}

#[derive(Clone, Debug)]
pub enum Tok {
    Bool(bool),
    I(u32, i128),
    U(u32, u128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    Unit,
    None,
    Some(Box<Tok>),
    Newtype(Box<Tok>),
    Seq(Vec<u8>),
    Fail,
}
pub struct Feed<'a> {
    pub log: &'a RefCell<String>,
    pub tok: Tok,
    pub human: bool,
}
impl<'de> Feed<'_> {
    fn go<V: Visitor<'de>>(self, hint: &str, v: V) -> Result<V::Value, E> {
        self.log.borrow_mut().push_str(hint);
        self.log.borrow_mut().push(';');
        match self.tok {
            Tok::Bool(b) => v.visit_bool(b),
            Tok::I(8, x) => v.visit_i8(x as i8),
            Tok::I(16, x) => v.visit_i16(x as i16),
            Tok::I(32, x) => v.visit_i32(x as i32),
            Tok::I(64, x) => v.visit_i64(x as i64),
            Tok::I(_, x) => v.visit_i128(x),
            Tok::U(8, x) => v.visit_u8(x as u8),
            Tok::U(16, x) => v.visit_u16(x as u16),
            Tok::U(32, x) => v.visit_u32(x as u32),
            Tok::U(64, x) => v.visit_u64(x as u64),
            Tok::U(_, x) => v.visit_u128(x),
            Tok::F32(x) => v.visit_f32(x),
            Tok::F64(x) => v.visit_f64(x),
            Tok::Char(x) => v.visit_char(x),
            Tok::Str(x) => v.visit_string(x),
            Tok::Bytes(x) => v.visit_byte_buf(x),
            Tok::Unit => v.visit_unit(),
            Tok::None => v.visit_none(),
            Tok::Some(t) => v.visit_some(Feed { log: self.log, tok: *t, human: self.human }),
            Tok::Newtype(t) => v.visit_newtype_struct(Feed { log: self.log, tok: *t, human: self.human }),
            Tok::Seq(x) => v.visit_seq(de::value::SeqDeserializer::<_, E>::new(x.into_iter().map(IntoDeserializer::<E>::into_deserializer))),
            Tok::Fail => Err(E("injected".into())),
        }
    }
}
macro_rules! des {
    ($($f:ident),*) => { $(fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { self.go(stringify!($f), v) })* };
}
impl<'de> Deserializer<'de> for Feed<'_> {
    type Error = E;
    des!(deserialize_any, deserialize_bool, deserialize_i8, deserialize_i16, deserialize_i32, deserialize_i64, deserialize_i128,
         deserialize_u8, deserialize_u16, deserialize_u32, deserialize_u64, deserialize_u128, deserialize_f32, deserialize_f64,
         deserialize_char, deserialize_str, deserialize_string, deserialize_bytes, deserialize_byte_buf, deserialize_option,
         deserialize_unit, deserialize_seq, deserialize_map, deserialize_identifier, deserialize_ignored_any);
    fn deserialize_unit_struct<V: Visitor<'de>>(self, n: &'static str, v: V) -> Result<V::Value, E> {
        self.go(n, v)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, n: &'static str, v: V) -> Result<V::Value, E> {
        self.go(n, v)
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, E> {
        self.go(&format!("tuple {n}"), v)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, n: &'static str, _: usize, v: V) -> Result<V::Value, E> {
        self.go(n, v)
    }
    fn deserialize_struct<V: Visitor<'de>>(self, n: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> {
        self.go(n, v)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, n: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> {
        self.go(n, v)
    }
    fn is_human_readable(&self) -> bool {
        self.human
    }
}
