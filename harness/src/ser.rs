//! Serialising with serde (feature serde_support) and deserialising again, in
//! three formats over an in-memory value:
//! 0 names and maps, self-describing, numbers of one type (as JSON)
//! 1 positions, tags and typed numbers, driven by the type (as bincode)
//! 2 as 0 with the entries of every map reversed and bytes where given
use crate::gen::{self, Lens};
use crate::sym::{self, *};
use mqtt_packet_3_5::*;
use serde::de::{self, DeserializeSeed, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;

#[derive(Clone)]
pub enum V {
    Unit,
    Bool(bool),
    N(u64),
    I(i64),
    F(f64),
    S(String),
    B(Vec<u8>),
    None,
    Some(Box<V>),
    Seq(Vec<V>),
    Map(Vec<(V, V)>),
    Var(u32, Box<V>),
}
#[derive(Debug)]
pub struct E;
impl fmt::Display for E {
    fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
        Ok(())
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: fmt::Display>(_: T) -> E {
        E
    }
}
impl de::Error for E {
    fn custom<T: fmt::Display>(_: T) -> E {
        E
    }
    fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> E {
        E
    }
    fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> E {
        E
    }
    fn invalid_length(_: usize, _: &dyn de::Expected) -> E {
        E
    }
    fn unknown_variant(_: &str, _: &'static [&'static str]) -> E {
        E
    }
    fn unknown_field(_: &str, _: &'static [&'static str]) -> E {
        E
    }
    fn missing_field(_: &'static str) -> E {
        E
    }
    fn duplicate_field(_: &'static str) -> E {
        E
    }
}

// ---------------------------------------------------------------- out

#[derive(Clone, Copy)]
pub struct W {
    pub named: bool,
}
pub struct Many {
    w: W,
    name: Option<(u32, &'static str)>,
    seq: Vec<V>,
    map: Vec<(V, V)>,
    key: Option<V>,
}
impl W {
    fn many(self, name: Option<(u32, &'static str)>) -> Result<Many, E> {
        Ok(Many { w: self, name, seq: vec![], map: vec![], key: None })
    }
    fn variant(self, i: u32, name: &'static str, v: V) -> V {
        if self.named {
            V::Map(vec![(V::S(name.to_string()), v)])
        } else {
            V::Var(i, Box::new(v))
        }
    }
}
impl Many {
    fn done(self, map: bool) -> Result<V, E> {
        let v = if map { V::Map(self.map) } else { V::Seq(self.seq) };
        Ok(match self.name {
            Some((i, n)) => self.w.variant(i, n, v),
            None => v,
        })
    }
    fn field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
        let v = v.serialize(self.w)?;
        if self.w.named {
            self.map.push((V::S(k.to_string()), v))
        } else {
            self.seq.push(v)
        }
        Ok(())
    }
}
impl ser::Serializer for W {
    type Ok = V;
    type Error = E;
    type SerializeSeq = Many;
    type SerializeTuple = Many;
    type SerializeTupleStruct = Many;
    type SerializeTupleVariant = Many;
    type SerializeMap = Many;
    type SerializeStruct = Many;
    type SerializeStructVariant = Many;
    fn is_human_readable(&self) -> bool {
        self.named
    }
    fn serialize_bool(self, v: bool) -> Result<V, E> {
        Ok(V::Bool(v))
    }
    fn serialize_i8(self, v: i8) -> Result<V, E> {
        Ok(V::I(v as i64))
    }
    fn serialize_i16(self, v: i16) -> Result<V, E> {
        Ok(V::I(v as i64))
    }
    fn serialize_i32(self, v: i32) -> Result<V, E> {
        Ok(V::I(v as i64))
    }
    fn serialize_i64(self, v: i64) -> Result<V, E> {
        Ok(V::I(v))
    }
    fn serialize_u8(self, v: u8) -> Result<V, E> {
        Ok(V::N(v as u64))
    }
    fn serialize_u16(self, v: u16) -> Result<V, E> {
        Ok(V::N(v as u64))
    }
    fn serialize_u32(self, v: u32) -> Result<V, E> {
        Ok(V::N(v as u64))
    }
    fn serialize_u64(self, v: u64) -> Result<V, E> {
        Ok(V::N(v))
    }
    fn serialize_f32(self, v: f32) -> Result<V, E> {
        Ok(V::F(v as f64))
    }
    fn serialize_f64(self, v: f64) -> Result<V, E> {
        Ok(V::F(v))
    }
    fn serialize_char(self, v: char) -> Result<V, E> {
        Ok(V::S(v.to_string()))
    }
    fn serialize_str(self, v: &str) -> Result<V, E> {
        Ok(V::S(v.to_string()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<V, E> {
        Ok(V::B(v.to_vec()))
    }
    fn serialize_none(self) -> Result<V, E> {
        Ok(if self.named { V::Unit } else { V::None })
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<V, E> {
        let v = v.serialize(self)?;
        Ok(if self.named { v } else { V::Some(Box::new(v)) })
    }
    fn serialize_unit(self) -> Result<V, E> {
        Ok(V::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<V, E> {
        Ok(V::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, n: &'static str) -> Result<V, E> {
        Ok(if self.named { V::S(n.to_string()) } else { V::Var(i, Box::new(V::Unit)) })
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<V, E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, i: u32, n: &'static str, v: &T) -> Result<V, E> {
        let v = v.serialize(self)?;
        Ok(self.variant(i, n, v))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Many, E> {
        self.many(None)
    }
    fn serialize_tuple(self, _: usize) -> Result<Many, E> {
        self.many(None)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Many, E> {
        self.many(None)
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, n: &'static str, _: usize) -> Result<Many, E> {
        self.many(Some((i, n)))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Many, E> {
        self.many(None)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Many, E> {
        self.many(None)
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, n: &'static str, _: usize) -> Result<Many, E> {
        self.many(Some((i, n)))
    }
    fn collect_str<T: fmt::Display + ?Sized>(self, v: &T) -> Result<V, E> {
        Ok(V::S(v.to_string()))
    }
}
macro_rules! elements {
    ($($t:ident $f:ident),*) => {
        $(impl ser::$t for Many {
            type Ok = V;
            type Error = E;
            fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
                let v = v.serialize(self.w)?;
                self.seq.push(v);
                Ok(())
            }
            fn end(self) -> Result<V, E> {
                self.done(false)
            }
        })*
    };
}
elements!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! fields {
    ($($t:ident),*) => {
        $(impl ser::$t for Many {
            type Ok = V;
            type Error = E;
            fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
                self.field(k, v)
            }
            fn end(self) -> Result<V, E> {
                let named = self.w.named;
                self.done(named)
            }
        })*
    };
}
fields!(SerializeStruct, SerializeStructVariant);
impl ser::SerializeMap for Many {
    type Ok = V;
    type Error = E;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), E> {
        self.key = Some(k.serialize(self.w)?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        let v = v.serialize(self.w)?;
        let k = self.key.take().ok_or(E)?;
        self.map.push((k, v));
        Ok(())
    }
    fn end(self) -> Result<V, E> {
        self.done(true)
    }
}

// ---------------------------------------------------------------- in

pub struct R {
    v: V,
    /// see the top
    format: u64,
}
struct Seq(std::vec::IntoIter<V>, u64);
struct Map(Vec<(V, V)>, Option<V>, u64);
struct Var(V, u64);
impl<'de> SeqAccess<'de> for Seq {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        match self.0.next() {
            None => Ok(None),
            Some(v) => s.deserialize(R { v, format: self.1 }).map(Some),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.0.len())
    }
}
impl<'de> MapAccess<'de> for Map {
    type Error = E;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        // held back to front where the order is to be kept
        match self.0.pop() {
            None => Ok(None),
            Some((k, v)) => {
                self.1 = Some(v);
                s.deserialize(R { v: k, format: self.2 }).map(Some)
            }
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, E> {
        s.deserialize(R { v: self.1.take().ok_or(E)?, format: self.2 })
    }
}
impl<'de> VariantAccess<'de> for Var {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        match self.0 {
            V::Unit => Ok(()),
            _ => Err(E),
        }
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<T::Value, E> {
        s.deserialize(R { v: self.0, format: self.1 })
    }
    fn tuple_variant<T: Visitor<'de>>(self, _: usize, t: T) -> Result<T::Value, E> {
        R { v: self.0, format: self.1 }.any(t)
    }
    fn struct_variant<T: Visitor<'de>>(self, _: &'static [&'static str], t: T) -> Result<T::Value, E> {
        R { v: self.0, format: self.1 }.any(t)
    }
}
struct Enum(V, V, u64);
impl<'de> EnumAccess<'de> for Enum {
    type Error = E;
    type Variant = Var;
    fn variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<(T::Value, Var), E> {
        let k = match self.0 {
            V::N(i) => s.deserialize((i as u32).into_deserializer())?,
            k => s.deserialize(R { v: k, format: self.2 })?,
        };
        Ok((k, Var(self.1, self.2)))
    }
}
impl R {
    fn any<'de, T: Visitor<'de>>(self, t: T) -> Result<T::Value, E> {
        let f = self.format;
        match self.v {
            V::Unit => t.visit_unit(),
            V::Bool(b) => t.visit_bool(b),
            V::N(n) => t.visit_u64(n),
            V::I(n) => t.visit_i64(n),
            V::F(n) => t.visit_f64(n),
            V::S(s) => t.visit_string(s),
            V::B(b) if f == 0 => t.visit_seq(Seq(b.into_iter().map(|x| V::N(x as u64)).collect::<Vec<_>>().into_iter(), f)),
            V::B(b) => t.visit_byte_buf(b),
            V::None => t.visit_none(),
            V::Some(v) => t.visit_some(R { v: *v, format: f }),
            V::Seq(v) => t.visit_seq(Seq(v.into_iter(), f)),
            V::Map(mut v) => {
                if f != 2 {
                    v.reverse()
                }
                t.visit_map(Map(v, None, f))
            }
            V::Var(i, v) => t.visit_enum(Enum(V::N(i as u64), *v, f)),
        }
    }
    fn number(&self) -> Result<u64, E> {
        match &self.v {
            V::N(n) => Ok(*n),
            V::I(n) => Ok(*n as u64),
            _ => Err(E),
        }
    }
}
macro_rules! typed {
    ($($f:ident $v:ident $t:ty),*) => {
        $(fn $f<T: Visitor<'de>>(self, t: T) -> Result<T::Value, E> {
            if self.format == 1 {
                t.$v(self.number()? as $t)
            } else {
                self.any(t)
            }
        })*
    };
}
macro_rules! anys {
    ($($f:ident),*) => {
        $(fn $f<T: Visitor<'de>>(self, t: T) -> Result<T::Value, E> {
            self.any(t)
        })*
    };
}
impl<'de> de::Deserializer<'de> for R {
    type Error = E;
    fn is_human_readable(&self) -> bool {
        self.format != 1
    }
    /// not possible where the format does not describe itself
    fn deserialize_any<T: Visitor<'de>>(self, t: T) -> Result<T::Value, E> {
        if self.format == 1 {
            return Err(E);
        }
        self.any(t)
    }
    fn deserialize_ignored_any<T: Visitor<'de>>(self, t: T) -> Result<T::Value, E> {
        if self.format == 1 {
            return Err(E);
        }
        self.any(t)
    }
    typed!(deserialize_i8 visit_i8 i8, deserialize_i16 visit_i16 i16, deserialize_i32 visit_i32 i32, deserialize_i64 visit_i64 i64,
        deserialize_u8 visit_u8 u8, deserialize_u16 visit_u16 u16, deserialize_u32 visit_u32 u32, deserialize_u64 visit_u64 u64);
    anys!(deserialize_bool, deserialize_f32, deserialize_f64, deserialize_char, deserialize_str, deserialize_string, deserialize_bytes, deserialize_byte_buf, deserialize_unit, deserialize_seq, deserialize_map, deserialize_identifier);
    fn deserialize_option<T: Visitor<'de>>(self, t: T) -> Result<T::Value, E> {
        match self.v {
            V::Unit | V::None => t.visit_none(),
            V::Some(v) => t.visit_some(R { v: *v, format: self.format }),
            _ if self.format == 1 => Err(E),
            _ => t.visit_some(self),
        }
    }
    fn deserialize_unit_struct<T: Visitor<'de>>(self, _: &'static str, t: T) -> Result<T::Value, E> {
        self.any(t)
    }
    fn deserialize_newtype_struct<T: Visitor<'de>>(self, _: &'static str, t: T) -> Result<T::Value, E> {
        t.visit_newtype_struct(self)
    }
    fn deserialize_tuple<T: Visitor<'de>>(self, n: usize, t: T) -> Result<T::Value, E> {
        self.some_of(n, t)
    }
    fn deserialize_tuple_struct<T: Visitor<'de>>(self, _: &'static str, n: usize, t: T) -> Result<T::Value, E> {
        self.some_of(n, t)
    }
    fn deserialize_struct<T: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], t: T) -> Result<T::Value, E> {
        self.some_of(f.len(), t)
    }
    fn deserialize_enum<T: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], t: T) -> Result<T::Value, E> {
        let f = self.format;
        match self.v {
            V::Var(i, v) => t.visit_enum(Enum(V::N(i as u64), *v, f)),
            V::S(s) => t.visit_enum(Enum(V::S(s), V::Unit, f)),
            V::Map(mut m) if m.len() == 1 => {
                let (k, v) = m.pop().ok_or(E)?;
                t.visit_enum(Enum(k, v, f))
            }
            _ => Err(E),
        }
    }
}
impl R {
    /// where the format has no lengths, what is written and what is read have to
    /// have as many parts
    fn some_of<'de, T: Visitor<'de>>(self, n: usize, t: T) -> Result<T::Value, E> {
        if let (1, V::Seq(s)) = (self.format, &self.v) {
            if s.len() != n {
                return Err(E);
            }
        }
        self.any(t)
    }
}

fn back<T: Serialize + de::DeserializeOwned + PartialEq>(p: &T, format: u64) {
    let v = match p.serialize(W { named: format != 1 }) {
        Ok(v) => v,
        Err(_) => return check(false, "a packet cannot be serialised"),
    };
    cover(1);
    match T::deserialize(R { v, format }) {
        Ok(q) => check(q == *p, "deserialising the serialised packet gives another packet"),
        Err(_) => check(false, "the serialised packet cannot be deserialised"),
    }
}

/// p0 type, p1 version (0: any value of the Rust type), p2 entries, p3 user
/// property shape, p4.. string lengths, p8 presence mode, p9 format: serialise and
/// deserialise
pub fn ser() {
    let (k, ver, n, shape) = (param(0) as u8, param(1) as u8, param(2) as usize, param(3));
    let mut l = Lens::params(4);
    sym::set_mode(param(8));
    let p = match ver {
        0 => gen::any_packet(k, n, &mut l),
        _ => gen::packet(k, ver, n, shape, &mut l),
    };
    back(&p, param(9));
}

/// p0 kind, p1 format: the parts that are serialisable by themselves, every value
pub fn serpart() {
    let f = param(1);
    match param(0) {
        0 => {
            let h = FixedHeader { cmd: PacketType::from_bits(conc(sym::u8() as u64 & 15) as u8), dup: sym::bool(), qos: sym::u8(), retain: sym::bool() };
            back(&h, f);
            back(&connect::ConnectFlags { user_name: sym::bool(), password: sym::bool(), will_retain: sym::bool(), will_qos: sym::u8(), will: sym::bool(), clean_session: sym::bool() }, f);
            back(&ReasonCode {}, f)
        }
        1 => {
            back(&PingreqPacket, f);
            back(&PingrespPacket, f);
            back(&Protocol::Mqtt, f);
            back(&Protocol::MQIsdp, f);
            for q in [QoS::QoS0, QoS::QoS1, QoS::QoS2] {
                back(&q, f)
            }
            for b in [0, 1, 2, 0x80] {
                back(&Granted::from_byte(b).unwrap(), f)
            }
        }
        n => {
            let b = conc(sym::u8() as u64) as u8;
            macro_rules! code {
                ($t:ty) => {
                    match <$t as MqttCode<$t>>::from_byte(b) {
                        Ok(c) => back(&c, f),
                        Err(_) => cover(2),
                    }
                };
            }
            match n {
                2 => code!(SubscriptionReasonCode),
                3 => code!(DisconnectCode),
                4 => code!(UnsubackCode),
                5 => code!(AuthCode),
                6 => code!(PubcompPubrelCode),
                _ => code!(PubackPubrecCode),
            }
        }
    }
}
