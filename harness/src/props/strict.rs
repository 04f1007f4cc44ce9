//! A serializer that holds what it is given to the contract of serde: the lengths that are
//! announced are those that come, a name of a structure is its type, no field comes twice.
use super::json::J;
use serde::ser::{self, Serialize};
use std::borrow::Cow;
use std::fmt;

#[derive(Debug)]
pub struct Fault(pub String);
impl fmt::Display for Fault { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Fault {}
impl ser::Error for Fault { fn custom<T: fmt::Display>(m: T) -> Fault { Fault(m.to_string()) } }

type R<'a> = Result<J<'a>, Fault>;
fn fault<T>(m: String) -> Result<T, Fault> { Err(Fault(m)) }

pub fn value<T: Serialize + ?Sized>(t: &T) -> R<'static> { t.serialize(Strict) }

struct Strict;
struct Seq { len: Option<usize>, out: Vec<J<'static>> }
struct Map { name: &'static str, len: Option<usize>, key: Option<String>, out: Vec<(Cow<'static, str>, J<'static>)> }

impl ser::Serializer for Strict {
    type Ok = J<'static>;
    type Error = Fault;
    type SerializeSeq = Seq;
    type SerializeTuple = Seq;
    type SerializeTupleStruct = Seq;
    type SerializeTupleVariant = ser::Impossible<J<'static>, Fault>;
    type SerializeMap = Map;
    type SerializeStruct = Map;
    type SerializeStructVariant = ser::Impossible<J<'static>, Fault>;

    fn serialize_bool(self, v: bool) -> R<'static> { Ok(J::Bool(v)) }
    fn serialize_i8(self, v: i8) -> R<'static> { Ok(J::Num(v as f64)) }
    fn serialize_i16(self, v: i16) -> R<'static> { Ok(J::Num(v as f64)) }
    fn serialize_i32(self, v: i32) -> R<'static> { Ok(J::Num(v as f64)) }
    fn serialize_i64(self, v: i64) -> R<'static> { Ok(J::Num(v as f64)) }
    fn serialize_u8(self, v: u8) -> R<'static> { Ok(J::Num(v as f64)) }
    fn serialize_u16(self, v: u16) -> R<'static> { Ok(J::Num(v as f64)) }
    fn serialize_u32(self, v: u32) -> R<'static> { Ok(J::Num(v as f64)) }
    fn serialize_u64(self, v: u64) -> R<'static> { Ok(J::Num(v as f64)) }
    fn serialize_f32(self, v: f32) -> R<'static> { self.serialize_f64(v as f64) }
    fn serialize_f64(self, v: f64) -> R<'static> { Ok(if v.is_finite() { J::Num(v) } else { J::Null }) }
    fn serialize_char(self, v: char) -> R<'static> { Ok(J::Str(v.to_string().into())) }
    fn serialize_str(self, v: &str) -> R<'static> { Ok(J::Str(v.to_string().into())) }
    fn serialize_bytes(self, _: &[u8]) -> R<'static> { fault("bytes are serialized".into()) }
    fn serialize_none(self) -> R<'static> { Ok(J::Null) }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> R<'static> { v.serialize(Strict) }
    fn serialize_unit(self) -> R<'static> { Ok(J::Null) }
    fn serialize_unit_struct(self, _: &'static str) -> R<'static> { Ok(J::Null) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> R<'static> { Ok(J::Str(v.into())) }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> R<'static> { v.serialize(Strict) }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> R<'static> {
        Ok(J::Obj(vec![(n.into(), v.serialize(Strict)?)]))
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<Seq, Fault> { Ok(Seq { len, out: Vec::new() }) }
    fn serialize_tuple(self, len: usize) -> Result<Seq, Fault> { Ok(Seq { len: Some(len), out: Vec::new() }) }
    fn serialize_tuple_struct(self, _: &'static str, len: usize) -> Result<Seq, Fault> { Ok(Seq { len: Some(len), out: Vec::new() }) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Fault> { fault(format!("variant {} is serialized", n)) }
    fn serialize_map(self, len: Option<usize>) -> Result<Map, Fault> { Ok(Map { name: "", len, key: None, out: Vec::new() }) }
    fn serialize_struct(self, name: &'static str, len: usize) -> Result<Map, Fault> { Ok(Map { name, len: Some(len), key: None, out: Vec::new() }) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Fault> { fault(format!("variant {} is serialized", n)) }
}

impl Seq {
    fn push<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Fault> { self.out.push(v.serialize(Strict)?); Ok(()) }
    fn done(self) -> R<'static> {
        match self.len {
            Some(n) if n != self.out.len() => fault(format!("a list announced with {} elements has {}", n, self.out.len())),
            _ => Ok(J::Arr(self.out)),
        }
    }
}
impl ser::SerializeSeq for Seq {
    type Ok = J<'static>;
    type Error = Fault;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Fault> { self.push(v) }
    fn end(self) -> R<'static> { self.done() }
}
impl ser::SerializeTuple for Seq {
    type Ok = J<'static>;
    type Error = Fault;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Fault> { self.push(v) }
    fn end(self) -> R<'static> { self.done() }
}
impl ser::SerializeTupleStruct for Seq {
    type Ok = J<'static>;
    type Error = Fault;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Fault> { self.push(v) }
    fn end(self) -> R<'static> { self.done() }
}

impl Map {
    fn done(self) -> R<'static> {
        match self.len {
            Some(n) if n != self.out.len() => fault(format!("{:?} is announced with {} members and has {}", self.name, n, self.out.len())),
            _ => Ok(J::Obj(self.out)),
        }
    }
}
impl ser::SerializeMap for Map {
    type Ok = J<'static>;
    type Error = Fault;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), Fault> {
        match k.serialize(Strict)? { J::Str(s) => { self.key = Some(s.into_owned()); Ok(()) } _ => fault("a key that is no string".into()) }
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Fault> {
        match self.key.take() { Some(k) => { self.out.push((k.into(), v.serialize(Strict)?)); Ok(()) } None => fault("a value without a key".into()) }
    }
    fn end(self) -> R<'static> { self.done() }
}
impl ser::SerializeStruct for Map {
    type Ok = J<'static>;
    type Error = Fault;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Fault> {
        self.out.push((k.into(), v.serialize(Strict)?));
        Ok(())
    }
    fn skip_field(&mut self, _: &'static str) -> Result<(), Fault> { Ok(()) }
    fn end(self) -> R<'static> { self.done() }
}
