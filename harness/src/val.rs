//! Building the crate's serde types out of values directly, so that any of their fields can be symbolic.
use serde::de::{self, DeserializeOwned, DeserializeSeed, Deserializer, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, VariantAccess, Visitor};
use std::fmt;

#[derive(Clone)]
pub enum Val { U(u64), None, Some(Box<Val>), Seq(Vec<Val>), Map(Vec<(&'static str, Val)>), Unit(&'static str), New(&'static str, Box<Val>), Tup(&'static str, Vec<Val>) }

#[derive(Debug)]
pub struct E;
impl fmt::Display for E { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("value") } }
impl std::error::Error for E {}
impl de::Error for E { fn custom<T: fmt::Display>(_: T) -> E { E } }

struct Seq(std::vec::IntoIter<Val>);
impl<'de> SeqAccess<'de> for Seq {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> { match self.0.next() { None => Ok(None), Some(v) => s.deserialize(v).map(Some) } }
}
struct Map(std::vec::IntoIter<(&'static str, Val)>, Option<Val>);
impl<'de> MapAccess<'de> for Map {
    type Error = E;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, E> {
        match self.0.next() { None => Ok(None), Some((k, v)) => { self.1 = Some(v); s.deserialize(k.into_deserializer()).map(Some) } }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, E> { s.deserialize(self.1.take().unwrap()) }
}
struct En(&'static str, Val);
impl<'de> EnumAccess<'de> for En {
    type Error = E; type Variant = Var;
    fn variant_seed<V: DeserializeSeed<'de>>(self, s: V) -> Result<(V::Value, Var), E> { let v = s.deserialize(self.0.into_deserializer())?; Ok((v, Var(self.1))) }
}
struct Var(Val);
impl<'de> VariantAccess<'de> for Var {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> { Ok(()) }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<T::Value, E> { s.deserialize(self.0) }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, E> { match self.0 { Val::Seq(x) => v.visit_seq(Seq(x.into_iter())), _ => Err(E) } }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], _: V) -> Result<V::Value, E> { Err(E) }
}
impl<'de> Deserializer<'de> for Val {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self {
            Val::U(x) => v.visit_u64(x), Val::None => v.visit_none(), Val::Some(x) => v.visit_some(*x),
            Val::Seq(x) => v.visit_seq(Seq(x.into_iter())), Val::Map(x) => v.visit_map(Map(x.into_iter(), None)),
            Val::Unit(n) => v.visit_enum(En(n, Val::None)), Val::New(n, x) => v.visit_enum(En(n, *x)), Val::Tup(n, x) => v.visit_enum(En(n, Val::Seq(x))),
        }
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit unit_struct newtype_struct seq tuple tuple_struct map struct identifier ignored_any }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { self.deserialize_any(v) }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> { self.deserialize_any(v) }
}

pub fn build<T: DeserializeOwned>(v: Val) -> Option<T> { T::deserialize(v).ok() }

pub fn opt(x: Option<u8>) -> Val { match x { None => Val::None, Some(x) => Val::Some(Box::new(Val::U(x as u64))) } }
/// One command of a song with its optional length, velocity and gate.
pub fn cmd(d: Option<u8>, v: Option<u8>, s: Option<u8>, c: Val) -> Val { Val::Map(vec![("duration", opt(d)), ("velocity", opt(v)), ("sustain", opt(s)), ("command", c)]) }
pub fn one(n: &'static str, a: u64) -> Val { Val::New(n, Box::new(Val::U(a))) }
pub fn tup(n: &'static str, a: &[u64]) -> Val { Val::Tup(n, a.iter().map(|x| Val::U(*x)).collect()) }
/// The song with one part that plays the given tracks first; all tracks are lists of commands.
pub fn song(part: &[u64], tracks: Vec<Vec<Val>>) -> Val {
    Val::Map(vec![
        ("parts", Val::Seq(vec![Val::Map(vec![("tracks", Val::Seq(part.iter().map(|x| Val::U(*x)).collect()))])])),
        ("tracks", Val::Seq(tracks.into_iter().map(|t| Val::Map(vec![("commands", Val::Seq(t))])).collect())),
    ])
}
