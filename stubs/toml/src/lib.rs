//! The part of TOML in which a configuration is written: a table of numbers,
//! strings, booleans and arrays of these, with comments.
use serde::de::{self as sde, value::MapDeserializer, value::SeqDeserializer, DeserializeOwned, IntoDeserializer, Visitor};
use serde::ser::{self as sser, Serialize};

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl sde::Error for Error {
    fn custom<T: std::fmt::Display>(_m: T) -> Self {
        Error(String::from("wrong value"))
    }
    fn invalid_type(_u: sde::Unexpected, _e: &dyn sde::Expected) -> Self {
        Error(String::from("wrong type"))
    }
    fn invalid_value(_u: sde::Unexpected, _e: &dyn sde::Expected) -> Self {
        Error(String::from("wrong value"))
    }
    fn unknown_variant(_v: &str, _e: &'static [&'static str]) -> Self {
        Error(String::from("unknown variant"))
    }
    fn unknown_field(_v: &str, _e: &'static [&'static str]) -> Self {
        Error(String::from("unknown field"))
    }
    fn missing_field(_v: &'static str) -> Self {
        Error(String::from("missing field"))
    }
    fn duplicate_field(_v: &'static str) -> Self {
        Error(String::from("duplicate field"))
    }
}
impl sser::Error for Error {
    fn custom<T: std::fmt::Display>(_m: T) -> Self {
        Error(String::from("cannot be written"))
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Value {
    String(String),
    Integer(i64),
    Float(f64),
    Boolean(bool),
    Array(Vec<Value>),
}

pub fn from_str<T: DeserializeOwned>(s: &str) -> Result<T, Error> {
    T::deserialize(Table(parse(s)?))
}
pub fn to_string<T: Serialize + ?Sized>(x: &T) -> Result<String, Error> {
    x.serialize(Top)
}
pub fn to_string_pretty<T: Serialize + ?Sized>(x: &T) -> Result<String, Error> {
    to_string(x)
}

// ---- reading

struct Parser<'a> {
    s: &'a [u8],
    i: usize,
}

fn parse(s: &str) -> Result<Vec<(String, Value)>, Error> {
    let mut p = Parser { s: s.as_bytes(), i: 0 };
    let mut v: Vec<(String, Value)> = Vec::new();
    loop {
        p.blank();
        if p.i == p.s.len() {
            return Ok(v);
        }
        let k = p.key()?;
        p.space();
        p.expect(b'=')?;
        p.space();
        let x = p.value()?;
        p.space();
        if p.i < p.s.len() && p.s[p.i] != b'\n' && p.s[p.i] != b'#' && p.s[p.i] != b'\r' {
            return p.fail();
        }
        for (have, _) in v.iter() {
            if *have == k {
                return Err(Error(String::from("duplicate key")));
            }
        }
        v.push((k, x));
    }
}

impl<'a> Parser<'a> {
    fn fail<T>(&self) -> Result<T, Error> {
        Err(Error(String::from("not understood")))
    }
    fn at(&self) -> u8 {
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn space(&mut self) {
        while self.at() == b' ' || self.at() == b'\t' {
            self.i += 1;
        }
    }
    /// white space, ends of lines and comments
    fn blank(&mut self) {
        loop {
            match self.at() {
                b' ' | b'\t' | b'\n' | b'\r' => self.i += 1,
                b'#' => {
                    while self.i < self.s.len() && self.s[self.i] != b'\n' {
                        self.i += 1;
                    }
                }
                _ => return,
            }
        }
    }
    fn expect(&mut self, c: u8) -> Result<(), Error> {
        if self.at() != c {
            return self.fail();
        }
        self.i += 1;
        Ok(())
    }
    fn text(&self, a: usize) -> &'a str {
        unsafe { std::str::from_utf8_unchecked(&self.s[a..self.i]) }
    }
    fn key(&mut self) -> Result<String, Error> {
        if self.at() == b'"' || self.at() == b'\'' {
            return self.string();
        }
        let a = self.i;
        while self.at().is_ascii_alphanumeric() || self.at() == b'_' || self.at() == b'-' {
            self.i += 1;
        }
        if a == self.i {
            return self.fail();
        }
        Ok(String::from(self.text(a)))
    }
    fn string(&mut self) -> Result<String, Error> {
        let q = self.at();
        self.i += 1;
        let mut v: Vec<u8> = Vec::new();
        loop {
            let c = self.at();
            self.i += 1;
            if c == q {
                break;
            }
            if c == b'\n' || c == 0 {
                return self.fail();
            }
            if c == b'\\' && q == b'"' {
                let e = self.at();
                self.i += 1;
                v.push(match e {
                    b'n' => b'\n',
                    b't' => b'\t',
                    b'r' => b'\r',
                    b'"' | b'\\' => e,
                    _ => return self.fail(),
                });
            } else {
                v.push(c);
            }
        }
        Ok(unsafe { String::from_utf8_unchecked(v) })
    }
    fn value(&mut self) -> Result<Value, Error> {
        match self.at() {
            b'"' | b'\'' => Ok(Value::String(self.string()?)),
            b'[' => {
                self.i += 1;
                let mut v = Vec::new();
                loop {
                    self.blank();
                    if self.at() == b']' {
                        self.i += 1;
                        return Ok(Value::Array(v));
                    }
                    v.push(self.value()?);
                    self.blank();
                    if self.at() == b',' {
                        self.i += 1;
                    } else if self.at() != b']' {
                        return self.fail();
                    }
                }
            }
            _ => {
                let a = self.i;
                while !matches!(self.at(), b' ' | b'\t' | b'\r' | b'\n' | b'#' | b',' | b']' | 0) {
                    self.i += 1;
                }
                let w = self.text(a);
                match w {
                    "" => return self.fail(),
                    "true" => return Ok(Value::Boolean(true)),
                    "false" => return Ok(Value::Boolean(false)),
                    _ => (),
                }
                let mut whole = true;
                for (i, &c) in w.as_bytes().iter().enumerate() {
                    whole &= c.is_ascii_digit() || i == 0 && (c == b'-' || c == b'+');
                }
                if whole {
                    match w.parse() {
                        Ok(i) => Ok(Value::Integer(i)),
                        Err(_) => self.fail(),
                    }
                } else {
                    match w.parse() {
                        Ok(x) => Ok(Value::Float(x)),
                        Err(_) => self.fail(),
                    }
                }
            }
        }
    }
}

struct Table(Vec<(String, Value)>);

impl<'de> sde::Deserializer<'de> for Table {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_map(MapDeserializer::new(self.0.into_iter()))
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

impl<'de> IntoDeserializer<'de, Error> for Value {
    type Deserializer = Value;
    fn into_deserializer(self) -> Value {
        self
    }
}

impl<'de> sde::Deserializer<'de> for Value {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self {
            Value::String(s) => v.visit_string(s),
            Value::Integer(i) => v.visit_i64(i),
            Value::Float(x) => v.visit_f64(x),
            Value::Boolean(b) => v.visit_bool(b),
            Value::Array(a) => v.visit_seq(SeqDeserializer::new(a.into_iter())),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_some(self)
    }
    fn deserialize_enum<V: Visitor<'de>>(
        self,
        _n: &'static str,
        _v: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, Error> {
        match self {
            Value::String(s) => v.visit_enum(s.into_deserializer()),
            _ => Err(Error(String::from("wrong type"))),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _n: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_newtype_struct(self)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct
        seq tuple tuple_struct map struct identifier ignored_any
    }
}

// ---- writing

struct Top;
struct Rows(String);
struct Item;
struct Items(String);

fn no<T>() -> Result<T, Error> {
    Err(Error(String::from("cannot be written")))
}

macro_rules! refuse {
    ($($f:ident $t:ty),*) => {
        $(fn $f(self, _x: $t) -> Result<Self::Ok, Error> { no() })*
    };
}
type Never = sser::Impossible<String, Error>;

impl sser::Serializer for Top {
    type Ok = String;
    type Error = Error;
    type SerializeSeq = Never;
    type SerializeTuple = Never;
    type SerializeTupleStruct = Never;
    type SerializeTupleVariant = Never;
    type SerializeMap = Never;
    type SerializeStruct = Rows;
    type SerializeStructVariant = Never;
    refuse!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64,
        serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32,
        serialize_f64 f64, serialize_char char, serialize_str &str, serialize_bytes &[u8], serialize_unit_struct &'static str);
    fn serialize_none(self) -> Result<String, Error> {
        no()
    }
    fn serialize_some<T: Serialize + ?Sized>(self, x: &T) -> Result<String, Error> {
        x.serialize(self)
    }
    fn serialize_unit(self) -> Result<String, Error> {
        no()
    }
    fn serialize_unit_variant(self, _n: &'static str, _i: u32, _v: &'static str) -> Result<String, Error> {
        no()
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _n: &'static str, x: &T) -> Result<String, Error> {
        x.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(
        self,
        _n: &'static str,
        _i: u32,
        _v: &'static str,
        _x: &T,
    ) -> Result<String, Error> {
        no()
    }
    fn serialize_seq(self, _l: Option<usize>) -> Result<Never, Error> {
        no()
    }
    fn serialize_tuple(self, _l: usize) -> Result<Never, Error> {
        no()
    }
    fn serialize_tuple_struct(self, _n: &'static str, _l: usize) -> Result<Never, Error> {
        no()
    }
    fn serialize_tuple_variant(
        self,
        _n: &'static str,
        _i: u32,
        _v: &'static str,
        _l: usize,
    ) -> Result<Never, Error> {
        no()
    }
    fn serialize_map(self, _l: Option<usize>) -> Result<Never, Error> {
        no()
    }
    fn serialize_struct(self, _n: &'static str, _l: usize) -> Result<Rows, Error> {
        Ok(Rows(String::new()))
    }
    fn serialize_struct_variant(
        self,
        _n: &'static str,
        _i: u32,
        _v: &'static str,
        _l: usize,
    ) -> Result<Never, Error> {
        no()
    }
}

impl sser::SerializeStruct for Rows {
    type Ok = String;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, x: &T) -> Result<(), Error> {
        let v = x.serialize(Item)?;
        // an option which is none is left out
        if !v.is_empty() {
            self.0.push_str(k);
            self.0.push_str(" = ");
            self.0.push_str(&v);
            self.0.push('\n');
        }
        Ok(())
    }
    fn end(self) -> Result<String, Error> {
        Ok(self.0)
    }
}

macro_rules! print {
    ($($f:ident $t:ty),*) => {
        $(fn $f(self, x: $t) -> Result<String, Error> { Ok(format!("{}", x)) })*
    };
}

impl sser::Serializer for Item {
    type Ok = String;
    type Error = Error;
    type SerializeSeq = Items;
    type SerializeTuple = Items;
    type SerializeTupleStruct = Items;
    type SerializeTupleVariant = Never;
    type SerializeMap = Never;
    type SerializeStruct = Never;
    type SerializeStructVariant = Never;
    print!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64,
        serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f64 f64);
    refuse!(serialize_f32 f32, serialize_bytes &[u8], serialize_unit_struct &'static str);
    fn serialize_bool(self, x: bool) -> Result<String, Error> {
        Ok(String::from(if x { "true" } else { "false" }))
    }
    fn serialize_char(self, x: char) -> Result<String, Error> {
        let mut s = String::new();
        s.push(x);
        self.serialize_str(&s)
    }
    fn serialize_str(self, x: &str) -> Result<String, Error> {
        let mut s = String::from("\"");
        for c in x.chars() {
            match c {
                '"' => s.push_str("\\\""),
                '\\' => s.push_str("\\\\"),
                '\n' => s.push_str("\\n"),
                '\t' => s.push_str("\\t"),
                '\r' => s.push_str("\\r"),
                c => s.push(c),
            }
        }
        s.push('"');
        Ok(s)
    }
    fn serialize_none(self) -> Result<String, Error> {
        Ok(String::new())
    }
    fn serialize_some<T: Serialize + ?Sized>(self, x: &T) -> Result<String, Error> {
        x.serialize(self)
    }
    fn serialize_unit(self) -> Result<String, Error> {
        no()
    }
    fn serialize_unit_variant(self, _n: &'static str, _i: u32, v: &'static str) -> Result<String, Error> {
        self.serialize_str(v)
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _n: &'static str, x: &T) -> Result<String, Error> {
        x.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(
        self,
        _n: &'static str,
        _i: u32,
        _v: &'static str,
        _x: &T,
    ) -> Result<String, Error> {
        no()
    }
    fn serialize_seq(self, _l: Option<usize>) -> Result<Items, Error> {
        Ok(Items(String::from("[")))
    }
    fn serialize_tuple(self, _l: usize) -> Result<Items, Error> {
        Ok(Items(String::from("[")))
    }
    fn serialize_tuple_struct(self, _n: &'static str, _l: usize) -> Result<Items, Error> {
        Ok(Items(String::from("[")))
    }
    fn serialize_tuple_variant(
        self,
        _n: &'static str,
        _i: u32,
        _v: &'static str,
        _l: usize,
    ) -> Result<Never, Error> {
        no()
    }
    fn serialize_map(self, _l: Option<usize>) -> Result<Never, Error> {
        no()
    }
    fn serialize_struct(self, _n: &'static str, _l: usize) -> Result<Never, Error> {
        no()
    }
    fn serialize_struct_variant(
        self,
        _n: &'static str,
        _i: u32,
        _v: &'static str,
        _l: usize,
    ) -> Result<Never, Error> {
        no()
    }
}

impl Items {
    fn add<T: Serialize + ?Sized>(&mut self, x: &T) -> Result<(), Error> {
        if self.0.len() > 1 {
            self.0.push_str(", ");
        }
        self.0.push_str(&x.serialize(Item)?);
        Ok(())
    }
    fn done(mut self) -> Result<String, Error> {
        self.0.push(']');
        Ok(self.0)
    }
}
impl sser::SerializeSeq for Items {
    type Ok = String;
    type Error = Error;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, x: &T) -> Result<(), Error> {
        self.add(x)
    }
    fn end(self) -> Result<String, Error> {
        self.done()
    }
}
impl sser::SerializeTuple for Items {
    type Ok = String;
    type Error = Error;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, x: &T) -> Result<(), Error> {
        self.add(x)
    }
    fn end(self) -> Result<String, Error> {
        self.done()
    }
}
impl sser::SerializeTupleStruct for Items {
    type Ok = String;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, x: &T) -> Result<(), Error> {
        self.add(x)
    }
    fn end(self) -> Result<String, Error> {
        self.done()
    }
}

pub mod de {
    pub use super::{from_str, Error};
}
pub mod ser {
    pub use super::{to_string, to_string_pretty, Error};
}
