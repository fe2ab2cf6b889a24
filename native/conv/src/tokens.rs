//! A serialiser that records what it is told, and a deserialiser that hands out one prepared token.
use serde::de::{self, DeserializeSeed, Deserializer, MapAccess, SeqAccess, Unexpected, Visitor};
use serde::ser::{self, Serialize, Serializer};
use std::cell::RefCell;
use std::fmt::{self, Display};

#[derive(Debug, Clone, PartialEq)]
pub struct Error(pub String);
impl Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
impl de::Error for Error {
    fn custom<T: Display>(m: T) -> Self {
        Error(m.to_string())
    }
    fn invalid_type(u: Unexpected<'_>, e: &dyn de::Expected) -> Self {
        Error(format!("type {u:?} for {e}"))
    }
    fn invalid_value(u: Unexpected<'_>, e: &dyn de::Expected) -> Self {
        Error(format!("value {u:?} for {e}"))
    }
}

pub struct Rec<'a> {
    pub log: &'a RefCell<Vec<String>>,
    pub human: bool,
    pub fail: bool,
}
macro_rules! rec {
    ($($f:ident: $t:ty),*) => {
        $(fn $f(self, v: $t) -> Result<(), Error> {
            #[allow(clippy::useless_transmute)]
            self.done(format!(concat!(stringify!($f), " {:?}"), v))
        })*
    };
}
impl Rec<'_> {
    fn done(self, s: String) -> Result<(), Error> {
        self.log.borrow_mut().push(s);
        if self.fail { Err(Error("refused".into())) } else { Ok(()) }
    }
}
type No = ser::Impossible<(), Error>;
impl Serializer for Rec<'_> {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = No;
    type SerializeTuple = No;
    type SerializeTupleStruct = No;
    type SerializeTupleVariant = No;
    type SerializeMap = No;
    type SerializeStruct = No;
    type SerializeStructVariant = No;
    rec!(serialize_bool: bool, serialize_i8: i8, serialize_i16: i16, serialize_i32: i32, serialize_i64: i64, serialize_i128: i128, serialize_u8: u8, serialize_u16: u16, serialize_u32: u32, serialize_u64: u64, serialize_u128: u128, serialize_char: char, serialize_str: &str, serialize_bytes: &[u8]);
    fn serialize_f32(self, v: f32) -> Result<(), Error> {
        self.done(format!("serialize_f32 {:#x}", v.to_bits()))
    }
    fn serialize_f64(self, v: f64) -> Result<(), Error> {
        self.done(format!("serialize_f64 {:#x}", v.to_bits()))
    }
    fn serialize_none(self) -> Result<(), Error> {
        self.done("none".into())
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), Error> {
        self.log.borrow_mut().push("some".into());
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), Error> {
        self.done("unit".into())
    }
    fn serialize_unit_struct(self, n: &'static str) -> Result<(), Error> {
        self.done(format!("unit struct {n}"))
    }
    fn serialize_unit_variant(self, n: &'static str, i: u32, v: &'static str) -> Result<(), Error> {
        self.done(format!("unit variant {n} {i} {v}"))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, n: &'static str, v: &T) -> Result<(), Error> {
        self.log.borrow_mut().push(format!("newtype {n}"));
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, n: &'static str, i: u32, w: &'static str, v: &T) -> Result<(), Error> {
        self.log.borrow_mut().push(format!("newtype variant {n} {i} {w}"));
        v.serialize(self)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<No, Error> {
        Err(Error("seq".into()))
    }
    fn serialize_tuple(self, _: usize) -> Result<No, Error> {
        Err(Error("tuple".into()))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<No, Error> {
        Err(Error("tuple struct".into()))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Error> {
        Err(Error("tuple variant".into()))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<No, Error> {
        Err(Error("map".into()))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<No, Error> {
        Err(Error("struct".into()))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Error> {
        Err(Error("struct variant".into()))
    }
    fn collect_str<T: ?Sized + Display>(self, v: &T) -> Result<(), Error> {
        self.done(format!("collect_str {v}"))
    }
    fn is_human_readable(&self) -> bool {
        self.human
    }
}

#[derive(Debug, Clone, Copy)]
pub enum Tok {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(&'static str),
    String(&'static str),
    Bytes(&'static [u8]),
    Unit,
    None,
    Some(u8),
    Newtype(u8),
    Seq(u8),
    Map(u8),
    Fail,
}
/// Hands out the token, whatever it is asked for, and notes what it was asked for.
pub struct Give<'a> {
    pub tok: Tok,
    pub log: &'a RefCell<Vec<String>>,
    pub human: bool,
}
struct One(Option<u8>);
impl<'de> SeqAccess<'de> for One {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Error> {
        self.0.take().map(|v| s.deserialize(de::value::U8Deserializer::new(v))).transpose()
    }
}
impl<'de> MapAccess<'de> for One {
    type Error = Error;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Error> {
        self.0.map(|v| s.deserialize(de::value::U8Deserializer::new(v))).transpose()
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, Error> {
        s.deserialize(de::value::U8Deserializer::new(self.0.take().unwrap_or(0)))
    }
}
use de::IntoDeserializer as _;
impl Give<'_> {
    fn give<'de, V: Visitor<'de>>(self, how: &str, v: V) -> Result<V::Value, Error> {
        self.log.borrow_mut().push(how.into());
        match self.tok {
            Tok::Bool(x) => v.visit_bool(x),
            Tok::I8(x) => v.visit_i8(x),
            Tok::I16(x) => v.visit_i16(x),
            Tok::I32(x) => v.visit_i32(x),
            Tok::I64(x) => v.visit_i64(x),
            Tok::I128(x) => v.visit_i128(x),
            Tok::U8(x) => v.visit_u8(x),
            Tok::U16(x) => v.visit_u16(x),
            Tok::U32(x) => v.visit_u32(x),
            Tok::U64(x) => v.visit_u64(x),
            Tok::U128(x) => v.visit_u128(x),
            Tok::F32(x) => v.visit_f32(x),
            Tok::F64(x) => v.visit_f64(x),
            Tok::Char(x) => v.visit_char(x),
            Tok::Str(x) => v.visit_borrowed_str(x),
            Tok::String(x) => v.visit_string(x.into()),
            Tok::Bytes(x) => v.visit_bytes(x),
            Tok::Unit => v.visit_unit(),
            Tok::None => v.visit_none(),
            Tok::Some(x) => v.visit_some(IntoDeserializer_::<Error>::d(x)),
            Tok::Newtype(x) => v.visit_newtype_struct(IntoDeserializer_::<Error>::d(x)),
            Tok::Seq(x) => v.visit_seq(One(Some(x))),
            Tok::Map(x) => v.visit_map(One(Some(x))),
            Tok::Fail => Err(Error("refused".into())),
        }
    }
}
struct IntoDeserializer_<E>(std::marker::PhantomData<E>);
impl<E: de::Error> IntoDeserializer_<E> {
    fn d(x: u8) -> de::value::U8Deserializer<E> {
        x.into_deserializer()
    }
}
macro_rules! give {
    ($($f:ident($($a:ident: $t:ty),*)),*) => {
        $(fn $f<V: Visitor<'de>>(self, $($a: $t,)* v: V) -> Result<V::Value, Error> {
            $(let _ = $a;)*
            self.give(stringify!($f), v)
        })*
    };
}
impl<'de> Deserializer<'de> for Give<'_> {
    type Error = Error;
    give!(deserialize_any(), deserialize_bool(), deserialize_i8(), deserialize_i16(), deserialize_i32(), deserialize_i64(), deserialize_i128(), deserialize_u8(), deserialize_u16(), deserialize_u32(), deserialize_u64(), deserialize_u128(), deserialize_f32(), deserialize_f64(), deserialize_char(), deserialize_str(), deserialize_string(), deserialize_bytes(), deserialize_byte_buf(), deserialize_option(), deserialize_unit(), deserialize_seq(), deserialize_map(), deserialize_identifier(), deserialize_ignored_any(), deserialize_unit_struct(n: &'static str), deserialize_newtype_struct(n: &'static str), deserialize_tuple(n: usize), deserialize_tuple_struct(n: &'static str, k: usize), deserialize_struct(n: &'static str, k: &'static [&'static str]), deserialize_enum(n: &'static str, k: &'static [&'static str]));
    fn is_human_readable(&self) -> bool {
        self.human
    }
}
