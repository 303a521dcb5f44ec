//! Any serialisable value as a tree, so that a harness can look into answers whose types are private.
use serde::ser::*;
use std::fmt;
#[derive(Clone, Debug)]
pub enum Val { Null, Bool(bool), Int(u64), Neg(i64), Num(f64), Str(String), Seq(Vec<Val>), Map(Vec<(String, Val)>) }
impl Val {
    pub fn get(&self, k: &str) -> &Val { match self { Val::Map(m) => { for (n, v) in m { if n == k { return v; } } &Val::Null } _ => &Val::Null } }
    pub fn len(&self) -> usize { match self { Val::Map(m) => m.len(), Val::Seq(s) => s.len(), _ => 0 } }
    pub fn at(&self, i: usize) -> &Val { match self { Val::Seq(s) => &s[i], _ => &Val::Null } }
    pub fn int(&self) -> u64 { match self { Val::Int(x) => *x, _ => u64::MAX } }
    pub fn num(&self) -> f64 { match self { Val::Num(x) => *x, _ => f64::NAN } }
    pub fn str(&self) -> &str { match self { Val::Str(x) => x, _ => "" } }
}
pub fn ser<T: Serialize + ?Sized>(v: &T) -> Val { match v.serialize(S) { Ok(v) => v, Err(_) => panic!() } }
#[derive(Debug)] pub struct E;
impl fmt::Display for E { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
impl std::error::Error for E {}
impl serde::ser::Error for E { fn custom<T: fmt::Display>(_: T) -> Self { E } }
struct S;
pub struct SeqS(Vec<Val>, Option<&'static str>);
pub struct MapS(Vec<(String, Val)>, Option<String>, Option<&'static str>);
fn tag(t: Option<&'static str>, v: Val) -> Val { match t { Some(t) => Val::Map(vec![(t.to_string(), v)]), None => v } }
impl Serializer for S {
    type Ok = Val; type Error = E;
    type SerializeSeq = SeqS; type SerializeTuple = SeqS; type SerializeTupleStruct = SeqS; type SerializeTupleVariant = SeqS;
    type SerializeMap = MapS; type SerializeStruct = MapS; type SerializeStructVariant = MapS;
    fn serialize_bool(self, v: bool) -> Result<Val, E> { Ok(Val::Bool(v)) }
    fn serialize_i8(self, v: i8) -> Result<Val, E> { self.serialize_i64(v as i64) }
    fn serialize_i16(self, v: i16) -> Result<Val, E> { self.serialize_i64(v as i64) }
    fn serialize_i32(self, v: i32) -> Result<Val, E> { self.serialize_i64(v as i64) }
    fn serialize_i64(self, v: i64) -> Result<Val, E> { Ok(if v >= 0 { Val::Int(v as u64) } else { Val::Neg(v) }) }
    fn serialize_u8(self, v: u8) -> Result<Val, E> { Ok(Val::Int(v as u64)) }
    fn serialize_u16(self, v: u16) -> Result<Val, E> { Ok(Val::Int(v as u64)) }
    fn serialize_u32(self, v: u32) -> Result<Val, E> { Ok(Val::Int(v as u64)) }
    fn serialize_u64(self, v: u64) -> Result<Val, E> { Ok(Val::Int(v)) }
    fn serialize_f32(self, v: f32) -> Result<Val, E> { Ok(Val::Num(v as f64)) }
    fn serialize_f64(self, v: f64) -> Result<Val, E> { Ok(Val::Num(v)) }
    fn serialize_char(self, v: char) -> Result<Val, E> { Ok(Val::Str(v.to_string())) }
    fn serialize_str(self, v: &str) -> Result<Val, E> { Ok(Val::Str(v.to_string())) }
    fn serialize_bytes(self, v: &[u8]) -> Result<Val, E> { Ok(Val::Seq(v.iter().map(|b| Val::Int(*b as u64)).collect())) }
    fn serialize_none(self) -> Result<Val, E> { Ok(Val::Null) }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Val, E> { v.serialize(S) }
    fn serialize_unit(self) -> Result<Val, E> { Ok(Val::Null) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Val, E> { Ok(Val::Null) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<Val, E> { Ok(Val::Str(v.to_string())) }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<Val, E> { v.serialize(S) }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result<Val, E> { Ok(tag(Some(n), v.serialize(S)?)) }
    fn serialize_seq(self, _: Option<usize>) -> Result<SeqS, E> { Ok(SeqS(vec![], None)) }
    fn serialize_tuple(self, _: usize) -> Result<SeqS, E> { Ok(SeqS(vec![], None)) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<SeqS, E> { Ok(SeqS(vec![], None)) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<SeqS, E> { Ok(SeqS(vec![], Some(n))) }
    fn serialize_map(self, _: Option<usize>) -> Result<MapS, E> { Ok(MapS(vec![], None, None)) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<MapS, E> { Ok(MapS(vec![], None, None)) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<MapS, E> { Ok(MapS(vec![], None, Some(n))) }
}
macro_rules! seq { ($t:ident, $f:ident) => { impl $t for SeqS { type Ok = Val; type Error = E;
    fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> { self.0.push(v.serialize(S)?); Ok(()) }
    fn end(self) -> Result<Val, E> { Ok(tag(self.1, Val::Seq(self.0))) } } } }
seq!(SerializeSeq, serialize_element); seq!(SerializeTuple, serialize_element); seq!(SerializeTupleStruct, serialize_field); seq!(SerializeTupleVariant, serialize_field);
macro_rules! strukt { ($t:ident) => { impl $t for MapS { type Ok = Val; type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), E> { self.0.push((k.to_string(), v.serialize(S)?)); Ok(()) }
    fn end(self) -> Result<Val, E> { Ok(tag(self.2, Val::Map(self.0))) } } } }
strukt!(SerializeStruct); strukt!(SerializeStructVariant);
impl SerializeMap for MapS { type Ok = Val; type Error = E;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), E> { match k.serialize(S)? { Val::Str(s) => self.1 = Some(s), Val::Int(i) => self.1 = Some(i.to_string()), _ => return Err(E) } Ok(()) }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> { let k = self.1.take().unwrap(); self.0.push((k, v.serialize(S)?)); Ok(()) }
    fn end(self) -> Result<Val, E> { Ok(Val::Map(self.0)) } }
