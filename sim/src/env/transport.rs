//! Simulated serialization transport: hands over texts and other things in every way a
//! serde format may, and fails where told.

use super::injected_panic;
use crate::ctx::Ctx;
use serde::de::{self, DeserializeSeed, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Impossible};
use std::fmt::{self, Display};

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum WireError {
    /// The transport itself failed; the number identifies the failure.
    Transport(u32),
    /// Raised through the error trait by the type being (de)serialized.
    Type(String),
}
impl Display for WireError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for WireError {}
impl de::Error for WireError {
    fn custom<T: Display>(msg: T) -> Self {
        WireError::Type(msg.to_string())
    }
}
impl ser::Error for WireError {
    fn custom<T: Display>(msg: T) -> Self {
        WireError::Type(msg.to_string())
    }
}

/// How the item reaches the visitor.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Deliver {
    Borrowed,
    Transient,
    Owned,
    /// A single character (the first of the text).
    Char,
    Bytes,
    BorrowedBytes,
    ByteBuf,
    Bool,
    U64,
    I64,
    F64,
    Unit,
    None,
    Some,
    Newtype,
    Seq,
    Map,
    Enum,
}
pub const STRINGS: [Deliver; 3] = [Deliver::Borrowed, Deliver::Transient, Deliver::Owned];
pub const OTHERS: [Deliver; 15] = [
    Deliver::Char,
    Deliver::Bytes,
    Deliver::BorrowedBytes,
    Deliver::ByteBuf,
    Deliver::Bool,
    Deliver::U64,
    Deliver::I64,
    Deliver::F64,
    Deliver::Unit,
    Deliver::None,
    Deliver::Some,
    Deliver::Newtype,
    Deliver::Seq,
    Deliver::Map,
    Deliver::Enum,
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fail {
    No,
    /// The transport fails before handing anything over.
    Before(u32),
    /// It hands the item over and fails at the end (checksum, trailing data).
    After(u32),
    Panic,
}
impl Fail {
    pub fn draw(c: &mut Ctx) -> Fail {
        match c.below(8) {
            0..=4 => Fail::No,
            5 => Fail::Before(c.below(1000)),
            6 => Fail::After(c.below(1000)),
            _ => Fail::Panic,
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Wire<'de> {
    pub text: &'de str,
    pub how: Deliver,
    pub fail: Fail,
    /// Whether the format is for people (JSON) or not (CBOR).
    pub human: bool,
    /// Whether the format says what kind of item comes next. If not, the type has to know.
    pub described: bool,
}

impl<'de> Wire<'de> {
    pub fn good(text: &'de str, how: Deliver) -> Self {
        Wire { text, how, fail: Fail::No, human: true, described: true }
    }
    /// What a format without descriptions does when it is asked for something else than a string.
    fn blind<T>(self, what: &str) -> Result<T, WireError> {
        Err(WireError::Type(format!("the format has no descriptions, and was asked for {what}")))
    }
    fn inner(self) -> Wire<'de> {
        Wire { how: Deliver::Borrowed, fail: Fail::No, ..self }
    }
    fn hand<V: Visitor<'de>>(self, v: V) -> Result<V::Value, WireError> {
        let t = self.text;
        match self.how {
            Deliver::Borrowed => v.visit_borrowed_str(t),
            Deliver::Transient => v.visit_str(&t.to_string()),
            Deliver::Owned => v.visit_string(t.to_string()),
            Deliver::Char => v.visit_char(t.chars().next().unwrap_or('a')),
            Deliver::Bytes => v.visit_bytes(&t.as_bytes().to_vec()),
            Deliver::BorrowedBytes => v.visit_borrowed_bytes(t.as_bytes()),
            Deliver::ByteBuf => v.visit_byte_buf(t.as_bytes().to_vec()),
            Deliver::Bool => v.visit_bool(true),
            Deliver::U64 => v.visit_u64(t.len() as u64),
            Deliver::I64 => v.visit_i64(-(t.len() as i64)),
            Deliver::F64 => v.visit_f64(0.5),
            Deliver::Unit => v.visit_unit(),
            Deliver::None => v.visit_none(),
            Deliver::Some => v.visit_some(self.inner()),
            Deliver::Newtype => v.visit_newtype_struct(self.inner()),
            Deliver::Seq => v.visit_seq(One(Some(self.inner()))),
            Deliver::Map => v.visit_map(One(Some(self.inner()))),
            Deliver::Enum => v.visit_enum(One(Some(self.inner()))),
        }
    }
}

macro_rules! any {
    ($($m:ident)*) => {$(
        fn $m<V: Visitor<'de>>(self, v: V) -> Result<V::Value, WireError> {
            self.asked(stringify!($m), v)
        }
    )*};
}

impl<'de> Wire<'de> {
    fn asked<V: Visitor<'de>>(self, what: &str, v: V) -> Result<V::Value, WireError> {
        if self.described {
            self.item(v)
        } else {
            self.blind(what)
        }
    }
    fn item<V: Visitor<'de>>(self, v: V) -> Result<V::Value, WireError> {
        match self.fail {
            Fail::No => self.hand(v),
            Fail::Before(n) => Err(WireError::Transport(n)),
            Fail::After(n) => {
                self.hand(v)?;
                Err(WireError::Transport(n))
            }
            Fail::Panic => {
                if self.text.len() % 2 == 0 {
                    let _ = self.hand(v);
                }
                injected_panic()
            }
        }
    }
}

impl<'de> de::Deserializer<'de> for Wire<'de> {
    type Error = WireError;
    fn is_human_readable(&self) -> bool {
        self.human
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, WireError> {
        self.item(v)
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, WireError> {
        self.item(v)
    }
    any! { deserialize_any deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_u8 deserialize_u16 deserialize_u32
    deserialize_u64 deserialize_f32 deserialize_f64 deserialize_char deserialize_bytes
    deserialize_byte_buf deserialize_option deserialize_unit deserialize_seq deserialize_map deserialize_identifier deserialize_ignored_any }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, WireError> {
        self.asked("something else", v)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, WireError> {
        self.asked("something else", v)
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, WireError> {
        self.asked("something else", v)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, WireError> {
        self.asked("something else", v)
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, WireError> {
        self.asked("something else", v)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, WireError> {
        self.asked("something else", v)
    }
}

/// A compound holding one item.
struct One<'de>(Option<Wire<'de>>);
impl<'de> SeqAccess<'de> for One<'de> {
    type Error = WireError;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, WireError> {
        self.0.take().map(|w| s.deserialize(w)).transpose()
    }
}
impl<'de> MapAccess<'de> for One<'de> {
    type Error = WireError;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, WireError> {
        self.0.map(|w| s.deserialize(w)).transpose()
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, s: V) -> Result<V::Value, WireError> {
        s.deserialize(self.0.take().ok_or(WireError::Transport(9999))?)
    }
}
impl<'de> EnumAccess<'de> for One<'de> {
    type Error = WireError;
    type Variant = Self;
    fn variant_seed<V: DeserializeSeed<'de>>(self, s: V) -> Result<(V::Value, Self), WireError> {
        let v = s.deserialize(self.0.unwrap())?;
        Ok((v, self))
    }
}
impl<'de> VariantAccess<'de> for One<'de> {
    type Error = WireError;
    fn unit_variant(self) -> Result<(), WireError> {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<T::Value, WireError> {
        s.deserialize("x".into_deserializer())
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, WireError> {
        v.visit_unit()
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], v: V) -> Result<V::Value, WireError> {
        v.visit_unit()
    }
}

/// A serializer that takes one string, or notes what else it was given.
#[derive(Debug)]
pub struct Tape<'a> {
    pub human: bool,
    pub fail: Fail,
    pub got: &'a mut Vec<String>,
}
impl Tape<'_> {
    fn other<T>(self, what: &str) -> Result<T, WireError> {
        self.got.push(format!("<{what}>"));
        Err(WireError::Transport(8888))
    }
}
macro_rules! others {
    ($($m:ident($($t:ty),*);)*) => {$(
        fn $m(self $(, _: $t)*) -> Result<(), WireError> {
            self.other(stringify!($m))
        }
    )*};
}
impl ser::Serializer for Tape<'_> {
    type Ok = ();
    type Error = WireError;
    type SerializeSeq = Impossible<(), WireError>;
    type SerializeTuple = Impossible<(), WireError>;
    type SerializeTupleStruct = Impossible<(), WireError>;
    type SerializeTupleVariant = Impossible<(), WireError>;
    type SerializeMap = Impossible<(), WireError>;
    type SerializeStruct = Impossible<(), WireError>;
    type SerializeStructVariant = Impossible<(), WireError>;
    fn is_human_readable(&self) -> bool {
        self.human
    }
    fn serialize_str(self, v: &str) -> Result<(), WireError> {
        match self.fail {
            Fail::No => {
                self.got.push(v.to_string());
                Ok(())
            }
            Fail::Before(n) => Err(WireError::Transport(n)),
            Fail::After(n) => {
                self.got.push(v.to_string());
                Err(WireError::Transport(n))
            }
            Fail::Panic => injected_panic(),
        }
    }
    others! { serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64); serialize_u8(u8);
    serialize_u16(u16); serialize_u32(u32); serialize_u64(u64); serialize_f32(f32); serialize_f64(f64); serialize_char(char);
    serialize_bytes(&[u8]); serialize_none(); serialize_unit(); serialize_unit_struct(&'static str);
    serialize_unit_variant(&'static str, u32, &'static str); }
    fn serialize_some<T: ?Sized>(self, _: &T) -> Result<(), WireError> {
        self.other("some")
    }
    fn serialize_newtype_struct<T: ?Sized>(self, _: &'static str, _: &T) -> Result<(), WireError> {
        self.other("newtype struct")
    }
    fn serialize_newtype_variant<T: ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), WireError> {
        self.other("newtype variant")
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, WireError> {
        self.other("seq")
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, WireError> {
        self.other("tuple")
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, WireError> {
        self.other("tuple struct")
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, WireError> {
        self.other("tuple variant")
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, WireError> {
        self.other("map")
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, WireError> {
        self.other("struct")
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, WireError> {
        self.other("struct variant")
    }
}
