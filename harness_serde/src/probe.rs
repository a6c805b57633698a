//! A deserialiser that calls one chosen visitor method, and a serialiser that records its calls.
use serde::de::{self, value::Error, Deserializer, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};
use std::fmt::Write;

#[derive(Debug, Hash, Clone)]
pub enum Tok {
    Str(String),
    BorrowedStr(String),
    String(String),
    Bytes(Vec<u8>),
    BorrowedBytes(Vec<u8>),
    ByteBuf(Vec<u8>),
    Char(char),
    Bool(bool),
    U64(u64),
    I64(i64),
    F64(u32),
    U128,
    Unit,
    None,
    Some(Box<Tok>),
    Newtype(Box<Tok>),
    Seq(u8),
    Map(u8),
    Enum,
    Fail,
}
pub struct Probe<'a> {
    pub tok: &'a Tok,
    /// like a format that is not self-describing: only what was asked for is there
    pub strict: bool,
    pub human: bool,
}
impl<'de> Probe<'de> {
    fn go<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        let (strict, human) = (self.strict, self.human);
        match self.tok {
            Tok::Str(s) => v.visit_str(s.clone().as_str()),
            Tok::BorrowedStr(s) => v.visit_borrowed_str(s),
            Tok::String(s) => v.visit_string(s.clone()),
            Tok::Bytes(b) => v.visit_bytes(b.clone().as_slice()),
            Tok::BorrowedBytes(b) => v.visit_borrowed_bytes(b),
            Tok::ByteBuf(b) => v.visit_byte_buf(b.clone()),
            Tok::Char(c) => v.visit_char(*c),
            Tok::Bool(b) => v.visit_bool(*b),
            Tok::U64(n) => v.visit_u64(*n),
            Tok::I64(n) => v.visit_i64(*n),
            Tok::F64(n) => v.visit_f64(*n as f64),
            Tok::U128 => v.visit_u128(1 << 100),
            Tok::Unit => v.visit_unit(),
            Tok::None => v.visit_none(),
            Tok::Some(t) => v.visit_some(Probe { tok: t, strict, human }),
            Tok::Newtype(t) => v.visit_newtype_struct(Probe { tok: t, strict, human }),
            Tok::Seq(n) => v.visit_seq(de::value::SeqDeserializer::<_, Error>::new((0..*n).map(|x| x as u64))),
            Tok::Map(n) => v.visit_map(de::value::MapDeserializer::<_, Error>::new((0..*n).map(|x| (x as u64, x as u64)))),
            Tok::Enum => v.visit_enum("a".into_deserializer()),
            Tok::Fail => Err(de::Error::custom("no value")),
        }
    }
}
macro_rules! refuse {
    ($($f: ident)*) => {
        $(fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
            if self.strict {
                return Err(de::Error::custom("something else was asked for"));
            }
            self.go(v)
        })*
    };
}
impl<'de> Deserializer<'de> for Probe<'de> {
    type Error = Error;
    fn is_human_readable(&self) -> bool {
        self.human
    }
    // every format treats these two alike
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.go(v)
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.go(v)
    }
    refuse! { deserialize_any deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_f32 deserialize_f64 deserialize_char deserialize_bytes deserialize_byte_buf deserialize_option deserialize_unit deserialize_seq deserialize_map deserialize_identifier deserialize_ignored_any }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        self.deserialize_any(v)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        self.deserialize_any(v)
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, Error> {
        self.deserialize_any(v)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, Error> {
        self.deserialize_any(v)
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        self.deserialize_any(v)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        self.deserialize_any(v)
    }
}

/// The serialiser calls `v` makes.
pub fn recorded<T: Serialize + ?Sized>(v: &T, human: bool) -> String {
    let mut o = String::new();
    if v.serialize(Rec(&mut o, human)).is_err() {
        o.push_str("error");
    }
    o
}
struct Rec<'a>(&'a mut String, bool);
type R = Result<(), Error>;
type No = ser::Impossible<(), Error>;
macro_rules! scalars {
    ($($f: ident $t: ty)*) => {
        $(fn $f(self, v: $t) -> R {
            write!(self.0, "{} {:?};", stringify!($f), v).unwrap();
            Ok(())
        })*
    };
}
fn nope<T>(o: &mut String, what: &str) -> Result<T, Error> {
    o.push_str(what);
    Err(ser::Error::custom(what))
}
impl ser::Serializer for Rec<'_> {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = No;
    type SerializeTuple = No;
    type SerializeTupleStruct = No;
    type SerializeTupleVariant = No;
    type SerializeMap = No;
    type SerializeStruct = No;
    type SerializeStructVariant = No;
    fn is_human_readable(&self) -> bool {
        self.1
    }
    scalars! { serialize_bool bool serialize_i8 i8 serialize_i16 i16 serialize_i32 i32 serialize_i64 i64 serialize_u8 u8 serialize_u16 u16 serialize_u32 u32 serialize_u64 u64 serialize_f32 f32 serialize_f64 f64 serialize_char char serialize_str &str serialize_bytes &[u8] }
    fn serialize_none(self) -> R {
        nope(self.0, "none")
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> R {
        self.0.push_str("some ");
        v.serialize(self)
    }
    fn serialize_unit(self) -> R {
        nope(self.0, "unit")
    }
    fn serialize_unit_struct(self, _: &'static str) -> R {
        nope(self.0, "unit struct")
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> R {
        nope(self.0, "unit variant")
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, n: &'static str, v: &T) -> R {
        write!(self.0, "newtype {} ", n).unwrap();
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> R {
        nope(self.0, "variant")
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<No, Error> {
        nope(self.0, "seq")
    }
    fn serialize_tuple(self, _: usize) -> Result<No, Error> {
        nope(self.0, "tuple")
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<No, Error> {
        nope(self.0, "tuple struct")
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Error> {
        nope(self.0, "tuple variant")
    }
    fn serialize_map(self, _: Option<usize>) -> Result<No, Error> {
        nope(self.0, "map")
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<No, Error> {
        nope(self.0, "struct")
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Error> {
        nope(self.0, "struct variant")
    }
}
