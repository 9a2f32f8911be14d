//! A serializer that keeps the one string or byte string it is given, and
//! deserializers over a given one.

use serde::{de, ser};

#[derive(Debug)]
pub struct Bad;
impl core::fmt::Display for Bad {
    fn fmt(&self, _: &mut core::fmt::Formatter) -> core::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Bad {}
impl ser::Error for Bad {
    fn custom<T: core::fmt::Display>(_: T) -> Self {
        Bad
    }
}
impl de::Error for Bad {
    fn custom<T: core::fmt::Display>(_: T) -> Self {
        Bad
    }
    fn invalid_length(_: usize, _: &dyn de::Expected) -> Self {
        Bad
    }
    fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> Self {
        Bad
    }
    fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> Self {
        Bad
    }
}

/// At most 96 bytes.
#[derive(Clone, Copy)]
pub struct Out {
    pub text: bool,
    pub n: usize,
    pub b: [u8; 96],
}
impl Out {
    fn of(text: bool, v: &[u8]) -> Result<Out, Bad> {
        assert!(v.len() <= 96);
        let mut b = [0; 96];
        b[..v.len()].copy_from_slice(v);
        Ok(Out { text, n: v.len(), b })
    }
    pub fn get(&self) -> &[u8] {
        &self.b[..self.n]
    }
    pub fn str(&self) -> &str {
        assert!(self.text);
        core::str::from_utf8(self.get()).unwrap()
    }
}

pub struct Sink;
type Imp = ser::Impossible<Out, Bad>;
macro_rules! no {
    ($($f:ident($($t:ty),*))*) => { $(fn $f(self $(, _: $t)*) -> Result<Out, Bad> { Result::Err(Bad) })* };
}
impl ser::Serializer for Sink {
    type Ok = Out;
    type Error = Bad;
    type SerializeSeq = Imp;
    type SerializeTuple = Imp;
    type SerializeTupleStruct = Imp;
    type SerializeTupleVariant = Imp;
    type SerializeMap = Imp;
    type SerializeStruct = Imp;
    type SerializeStructVariant = Imp;
    no! {
        serialize_bool(bool) serialize_i8(i8) serialize_i16(i16) serialize_i32(i32) serialize_i64(i64)
        serialize_u8(u8) serialize_u16(u16) serialize_u32(u32) serialize_u64(u64)
        serialize_f32(f32) serialize_f64(f64) serialize_char(char) serialize_none() serialize_unit()
        serialize_unit_struct(&'static str) serialize_unit_variant(&'static str, u32, &'static str)
    }
    fn serialize_str(self, v: &str) -> Result<Out, Bad> {
        Out::of(true, v.as_bytes())
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Out, Bad> {
        Out::of(false, v)
    }
    fn serialize_some<T: ser::Serialize + ?Sized>(self, _: &T) -> Result<Out, Bad> {
        Result::Err(Bad)
    }
    fn serialize_newtype_struct<T: ser::Serialize + ?Sized>(self, _: &'static str, _: &T) -> Result<Out, Bad> {
        Result::Err(Bad)
    }
    fn serialize_newtype_variant<T: ser::Serialize + ?Sized>(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: &T,
    ) -> Result<Out, Bad> {
        Result::Err(Bad)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Imp, Bad> {
        Result::Err(Bad)
    }
    fn serialize_tuple(self, _: usize) -> Result<Imp, Bad> {
        Result::Err(Bad)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Imp, Bad> {
        Result::Err(Bad)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Imp, Bad> {
        Result::Err(Bad)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Imp, Bad> {
        Result::Err(Bad)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Imp, Bad> {
        Result::Err(Bad)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Imp, Bad> {
        Result::Err(Bad)
    }
    fn collect_str<T: core::fmt::Display + ?Sized>(self, v: &T) -> Result<Out, Bad> {
        Out::of(true, v.to_string().as_bytes())
    }
}

/// What the format holds.
#[derive(Clone, Copy)]
pub enum Content<'a> {
    Str(&'a str),
    Bytes(&'a [u8]),
    I64(i64),
    U64(u64),
    I128(i128),
    U128(u128),
    F32(f32),
    F64(f64),
    Bool(bool),
    /// The elements, and whether the length is announced.
    Seq(&'a [u8], bool),
}
pub struct Source<'a>(pub Content<'a>);
struct Elems<'a>(&'a [u8], bool);
impl<'de, 'a> de::SeqAccess<'de> for Elems<'a> {
    type Error = Bad;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Bad> {
        if self.0.is_empty() {
            return Ok(None);
        }
        let b = self.0[0];
        self.0 = &self.0[1..];
        seed.deserialize(de::value::U8Deserializer::<Bad>::new(b)).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        if self.1 { Some(self.0.len()) } else { None }
    }
}
impl<'de, 'a> de::Deserializer<'de> for Source<'a> {
    type Error = Bad;
    fn deserialize_any<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        match self.0 {
            Content::Str(s) => v.visit_str(s),
            Content::Bytes(b) => v.visit_bytes(b),
            Content::I64(x) => v.visit_i64(x),
            Content::U64(x) => v.visit_u64(x),
            Content::I128(x) => v.visit_i128(x),
            Content::U128(x) => v.visit_u128(x),
            Content::F32(x) => v.visit_f32(x),
            Content::F64(x) => v.visit_f64(x),
            Content::Bool(x) => v.visit_bool(x),
            Content::Seq(e, h) => v.visit_seq(Elems(e, h)),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
