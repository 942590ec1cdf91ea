//! Offline stand-in for serde_yaml_ng.  Only debugging dumps use it; they are not exercised,
//! so the serializer refuses everything.
use serde::ser::{self, Impossible};
#[derive(Debug)] pub struct Error(String);
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
impl ser::Error for Error { fn custom<T: std::fmt::Display>(m: T) -> Self { Error(m.to_string()) } }
impl serde::de::Error for Error { fn custom<T: std::fmt::Display>(m: T) -> Self { Error(m.to_string()) } }
pub struct Serializer<W>(#[allow(dead_code)] W);
impl<W> Serializer<W> { pub fn new(w: W) -> Self { Serializer(w) } }
pub fn to_string<T: ?Sized + serde::Serialize>(_: &T) -> Result<String, Error> { no() }
pub mod with { pub mod singleton_map { pub struct SingletonMap; impl SingletonMap {
    #[allow(clippy::new_ret_no_self)] pub fn new<D>(d: D) -> D { d } } } }
fn no<T>() -> Result<T, Error> { Err(Error("YAML is not available in this harness".into())) }
macro_rules! f { ($($n:ident($($t:ty),*);)*) => { $(fn $n(self $(, _: $t)*) -> Result<(), Error> { no() })* } }
impl<'a, W> ser::Serializer for &'a mut Serializer<W> {
    type Ok = (); type Error = Error;
    type SerializeSeq = Impossible<(), Error>; type SerializeTuple = Impossible<(), Error>;
    type SerializeTupleStruct = Impossible<(), Error>; type SerializeTupleVariant = Impossible<(), Error>;
    type SerializeMap = Impossible<(), Error>; type SerializeStruct = Impossible<(), Error>;
    type SerializeStructVariant = Impossible<(), Error>;
    f!{ serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64);
        serialize_u8(u8); serialize_u16(u16); serialize_u32(u32); serialize_u64(u64); serialize_f32(f32);
        serialize_f64(f64); serialize_char(char); serialize_str(&str); serialize_bytes(&[u8]); serialize_none();
        serialize_unit(); serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str); }
    fn serialize_some<T: ?Sized + ser::Serialize>(self, _: &T) -> Result<(), Error> { no() }
    fn serialize_newtype_struct<T: ?Sized + ser::Serialize>(self, _: &'static str, _: &T) -> Result<(), Error> { no() }
    fn serialize_newtype_variant<T: ?Sized + ser::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Error> { no() }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Error> { no() }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Error> { no() }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Error> { no() }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Error> { no() }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Error> { no() }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Error> { no() }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Error> { no() }
}
