//! A format whose input is a value tree, types that ask for a scripted request
//! and keep what they are given, and errors that say what kind they are.

use crate::node::{leak, S};
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, Unexpected, VariantAccess, Visitor};
use std::cell::{Cell, RefCell};
use std::fmt;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Own {
    Borrowed,
    Transient,
    Owned,
}

#[derive(Clone, Debug, PartialEq)]
pub enum In {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    F32(u32),
    F64(u64),
    Char(char),
    Str(Own, String),
    Bytes(Own, Vec<u8>),
    None,
    Some(Box<In>),
    Unit,
    Newtype(Box<In>),
    Seq(Vec<In>),
    Map(Vec<(In, In)>),
    /// a format with enums of its own
    Enum(Box<In>, Option<Box<In>>),
    /// reading it fails
    Bad,
    /// answers every request with a string that names the request
    Echo,
    /// a string if asked for as one, else the number 9
    StrIfAsked(String),
}

pub fn echo(h: &Hint) -> String {
    format!("{h:?}")
}

pub fn s(x: &str) -> In {
    In::Str(Own::Transient, x.to_owned())
}

#[derive(Clone, Debug, PartialEq)]
pub enum Hint {
    Any,
    Bool,
    I8,
    I16,
    I32,
    I64,
    I128,
    U8,
    U16,
    U32,
    U64,
    U128,
    F32,
    F64,
    Char,
    Str,
    String,
    Bytes,
    ByteBuf,
    Option,
    Unit,
    UnitStruct(S),
    Newtype(S),
    Seq,
    Tuple(usize),
    TupleStruct(S, usize),
    Map,
    Struct(S, &'static [S]),
    Enum(S, &'static [S]),
    Ident,
    Ignored,
}

#[derive(Clone, Debug, PartialEq)]
pub enum VReq {
    Unit,
    Newtype,
    Tuple(usize),
    Struct(&'static [S]),
}

/// What a type asks for. Compound values are read `take` elements or entries
/// deep; their keys, elements and values are asked for by the sub-requests.
#[derive(Clone, Debug, PartialEq)]
pub struct Req {
    pub hint: Hint,
    pub take: usize,
    pub key: Option<Box<Req>>,
    pub val: Option<Box<Req>>,
    pub variant: VReq,
}

pub const ALL: usize = usize::MAX;

impl Req {
    pub fn new(hint: Hint) -> Req {
        Req { hint, take: ALL, key: None, val: None, variant: VReq::Newtype }
    }
    pub fn take(mut self, n: usize) -> Req {
        self.take = n;
        self
    }
    pub fn val(mut self, r: Req) -> Req {
        self.val = Some(Box::new(r));
        self
    }
    pub fn key(mut self, r: Req) -> Req {
        self.key = Some(Box::new(r));
        self
    }
    pub fn variant(mut self, v: VReq) -> Req {
        self.variant = v;
        self
    }
    pub fn sub(&self) -> Req {
        match &self.val {
            Some(r) => (**r).clone(),
            None => Req::new(Hint::Any),
        }
    }
    pub fn subkey(&self) -> Req {
        match &self.key {
            Some(r) => (**r).clone(),
            None => Req::new(Hint::Any),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Got {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    F32(u32),
    F64(u64),
    Char(char),
    Str(Own, String),
    Bytes(Own, Vec<u8>),
    None,
    Some(Box<Got>),
    Unit,
    Newtype(Box<Got>),
    Seq(Vec<Got>),
    Map(Vec<(Got, Got)>),
    Enum(Box<Got>, Box<Got>),
    UnitVariant,
}

#[derive(Clone, Debug, PartialEq)]
pub enum DErr {
    Custom(String),
    Type(String),
    Value(String),
    Length(usize),
    Variant(String, Vec<String>),
    Field(String, Vec<String>),
    Missing(String),
    Duplicate(String),
}
impl fmt::Display for DErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for DErr {}
impl de::Error for DErr {
    fn custom<T: fmt::Display>(m: T) -> Self {
        DErr::Custom(m.to_string())
    }
    fn invalid_type(u: Unexpected, e: &dyn de::Expected) -> Self {
        DErr::Type(format!("{u}, expected {e}"))
    }
    fn invalid_value(u: Unexpected, e: &dyn de::Expected) -> Self {
        DErr::Value(format!("{u}, expected {e}"))
    }
    fn invalid_length(n: usize, e: &dyn de::Expected) -> Self {
        let _ = e.to_string();
        DErr::Length(n)
    }
    fn unknown_variant(v: &str, e: &'static [S]) -> Self {
        DErr::Variant(v.to_owned(), e.iter().map(|x| x.to_string()).collect())
    }
    fn unknown_field(v: &str, e: &'static [S]) -> Self {
        DErr::Field(v.to_owned(), e.iter().map(|x| x.to_string()).collect())
    }
    fn missing_field(f: S) -> Self {
        DErr::Missing(f.to_owned())
    }
    fn duplicate_field(f: S) -> Self {
        DErr::Duplicate(f.to_owned())
    }
}

/// How many items the format announces for a sequence or map: nothing, the
/// number there is, far too many, too many, too few.
pub static HINTS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub const HINT_KINDS: usize = 5;
pub fn hints(n: usize) -> &'static str {
    HINTS.store(n % HINT_KINDS, std::sync::atomic::Ordering::Relaxed);
    ["no size", "the size", "size usize::MAX", "size 4194304", "size 0"][n % HINT_KINDS]
}
fn hint(left: usize) -> Option<usize> {
    match HINTS.load(std::sync::atomic::Ordering::Relaxed) {
        0 => None,
        1 => Some(left),
        2 => Some(usize::MAX),
        3 => Some(4194304),
        _ => Some(0),
    }
}

pub struct Fmt {
    /// refuse to leave elements or entries of a compound value unread
    pub strict: bool,
    pub count: Cell<usize>,
    pub fail_at: usize,
    pub asked: RefCell<Vec<String>>,
}
impl Fmt {
    pub fn new(strict: bool) -> Fmt {
        Fmt { strict, count: Cell::new(0), fail_at: usize::MAX, asked: RefCell::new(vec![]) }
    }
    fn tick(&self) -> Result<(), DErr> {
        let n = self.count.get();
        self.count.set(n + 1);
        if n == self.fail_at {
            Err(DErr::Custom(format!("injected-{n}")))
        } else {
            Ok(())
        }
    }
}

#[derive(Copy, Clone)]
pub struct D<'de> {
    pub f: &'de Fmt,
    pub n: &'de In,
    pub top: bool,
}

fn bad<T>(n: &In, v: &dyn de::Expected) -> Result<T, DErr> {
    Err(DErr::Type(format!("{n:?}, expected {v}")))
}

impl<'de> D<'de> {
    fn at(self, n: &'de In) -> D<'de> {
        D { n, top: false, ..self }
    }
    fn asked(&self, what: impl FnOnce() -> String) {
        if self.top {
            self.f.asked.borrow_mut().push(what());
        }
    }
    fn seq<V: Visitor<'de>>(self, v: &'de [In], visitor: V) -> Result<V::Value, DErr> {
        let mut a = Acc { d: self, seq: v, map: &[], val: None };
        let r = visitor.visit_seq(&mut a)?;
        if self.f.strict && !a.seq.is_empty() {
            return Err(DErr::Length(v.len()));
        }
        Ok(r)
    }
    fn map<V: Visitor<'de>>(self, v: &'de [(In, In)], visitor: V) -> Result<V::Value, DErr> {
        let mut a = Acc { d: self, seq: &[], map: v, val: None };
        let r = visitor.visit_map(&mut a)?;
        if self.f.strict && (!a.map.is_empty() || a.val.is_some()) {
            return Err(DErr::Length(v.len()));
        }
        Ok(r)
    }
    fn natural<V: Visitor<'de>>(self, h: Hint, v: V) -> Result<V::Value, DErr> {
        self.f.tick()?;
        match self.n {
            In::Echo => v.visit_string(echo(&h)),
            In::StrIfAsked(s) => match h {
                Hint::Str | Hint::String => v.visit_str(s),
                _ => v.visit_u8(9),
            },
            In::Bool(x) => v.visit_bool(*x),
            In::I8(x) => v.visit_i8(*x),
            In::I16(x) => v.visit_i16(*x),
            In::I32(x) => v.visit_i32(*x),
            In::I64(x) => v.visit_i64(*x),
            In::I128(x) => v.visit_i128(*x),
            In::U8(x) => v.visit_u8(*x),
            In::U16(x) => v.visit_u16(*x),
            In::U32(x) => v.visit_u32(*x),
            In::U64(x) => v.visit_u64(*x),
            In::U128(x) => v.visit_u128(*x),
            In::F32(x) => v.visit_f32(f32::from_bits(*x)),
            In::F64(x) => v.visit_f64(f64::from_bits(*x)),
            In::Char(x) => v.visit_char(*x),
            In::Str(Own::Borrowed, x) => v.visit_borrowed_str(x),
            In::Str(Own::Transient, x) => v.visit_str(x),
            In::Str(Own::Owned, x) => v.visit_string(x.clone()),
            In::Bytes(Own::Borrowed, x) => v.visit_borrowed_bytes(x),
            In::Bytes(Own::Transient, x) => v.visit_bytes(x),
            In::Bytes(Own::Owned, x) => v.visit_byte_buf(x.clone()),
            In::None => v.visit_none(),
            In::Some(x) => v.visit_some(self.at(x)),
            In::Unit => v.visit_unit(),
            In::Newtype(x) => v.visit_newtype_struct(self.at(x)),
            In::Seq(x) => self.seq(x, v),
            In::Map(x) => self.map(x, v),
            In::Enum(k, x) => v.visit_enum(EAcc { d: self, k, x: x.as_deref() }),
            In::Bad => Err(DErr::Custom("bad input".into())),
        }
    }
}

macro_rules! plain {
    ($($m:ident $h:ident)*) => {$(
        fn $m<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DErr> {
            self.asked(|| stringify!($m).into());
            self.natural(Hint::$h, v)
        }
    )*};
}

impl<'de> Deserializer<'de> for D<'de> {
    type Error = DErr;
    plain! {
        deserialize_any Any
        deserialize_bool Bool
        deserialize_i8 I8
        deserialize_i16 I16
        deserialize_i32 I32
        deserialize_i64 I64
        deserialize_i128 I128
        deserialize_u8 U8
        deserialize_u16 U16
        deserialize_u32 U32
        deserialize_u64 U64
        deserialize_u128 U128
        deserialize_f32 F32
        deserialize_f64 F64
        deserialize_char Char
        deserialize_str Str
        deserialize_string String
        deserialize_bytes Bytes
        deserialize_byte_buf ByteBuf
        deserialize_unit Unit
        deserialize_seq Seq
        deserialize_map Map
        deserialize_identifier Ident
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, name: S, v: V) -> Result<V::Value, DErr> {
        self.asked(|| format!("unit_struct {name}"));
        self.natural(Hint::UnitStruct(name), v)
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, DErr> {
        self.asked(|| format!("tuple {n}"));
        self.natural(Hint::Tuple(n), v)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, name: S, n: usize, v: V) -> Result<V::Value, DErr> {
        self.asked(|| format!("tuple_struct {name} {n}"));
        self.natural(Hint::TupleStruct(name, n), v)
    }
    fn deserialize_struct<V: Visitor<'de>>(self, name: S, f: &'static [S], v: V) -> Result<V::Value, DErr> {
        self.asked(|| format!("struct {name} {f:?}"));
        self.natural(Hint::Struct(name, f), v)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DErr> {
        self.asked(|| "deserialize_option".into());
        if *self.n == In::Echo {
            return self.natural(Hint::Option, v);
        }
        self.f.tick()?;
        match self.n {
            In::None | In::Unit => v.visit_none(),
            In::Some(x) => v.visit_some(self.at(x)),
            _ => v.visit_some(self),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, name: S, v: V) -> Result<V::Value, DErr> {
        self.asked(|| format!("newtype_struct {name}"));
        if *self.n == In::Echo {
            return self.natural(Hint::Newtype(name), v);
        }
        self.f.tick()?;
        match self.n {
            In::Newtype(x) => v.visit_newtype_struct(self.at(x)),
            _ => v.visit_newtype_struct(self),
        }
    }
    fn deserialize_enum<V: Visitor<'de>>(self, name: S, vs: &'static [S], v: V) -> Result<V::Value, DErr> {
        self.asked(|| format!("enum {name} {vs:?}"));
        if *self.n == In::Echo {
            return self.natural(Hint::Enum(name, vs), v);
        }
        self.f.tick()?;
        match self.n {
            In::Str(..) => v.visit_enum(EAcc { d: self, k: self.n, x: None }),
            In::Map(m) if m.len() == 1 => v.visit_enum(EAcc { d: self, k: &m[0].0, x: Some(&m[0].1) }),
            In::Enum(k, x) => v.visit_enum(EAcc { d: self, k, x: x.as_deref() }),
            n => bad(n, &"enum"),
        }
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DErr> {
        self.asked(|| "deserialize_ignored_any".into());
        if *self.n == In::Echo {
            return self.natural(Hint::Ignored, v);
        }
        self.f.tick()?;
        if *self.n == In::Bad {
            return Err(DErr::Custom("bad input".into()));
        }
        v.visit_unit()
    }
}

pub struct Acc<'de> {
    d: D<'de>,
    seq: &'de [In],
    map: &'de [(In, In)],
    val: Option<&'de In>,
}
impl<'de> SeqAccess<'de> for Acc<'de> {
    type Error = DErr;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, t: T) -> Result<Option<T::Value>, DErr> {
        self.d.f.tick()?;
        match self.seq.split_first() {
            Some((x, r)) => {
                self.seq = r;
                t.deserialize(self.d.at(x)).map(Some)
            }
            None => Ok(None),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        hint(self.seq.len())
    }
}
impl<'de> MapAccess<'de> for Acc<'de> {
    type Error = DErr;
    fn size_hint(&self) -> Option<usize> {
        hint(self.map.len())
    }
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, t: T) -> Result<Option<T::Value>, DErr> {
        self.d.f.tick()?;
        if self.val.is_some() {
            return Err(DErr::Custom("harness: the value of an entry was not read".into()));
        }
        match self.map.split_first() {
            Some(((k, x), r)) => {
                self.map = r;
                self.val = Some(x);
                t.deserialize(self.d.at(k)).map(Some)
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, t: T) -> Result<T::Value, DErr> {
        self.d.f.tick()?;
        match self.val.take() {
            Some(x) => t.deserialize(self.d.at(x)),
            None => Err(DErr::Custom("harness: no key was read".into())),
        }
    }
}
pub struct EAcc<'de> {
    d: D<'de>,
    k: &'de In,
    x: Option<&'de In>,
}
impl<'de> EnumAccess<'de> for EAcc<'de> {
    type Error = DErr;
    type Variant = Self;
    fn variant_seed<T: DeserializeSeed<'de>>(self, t: T) -> Result<(T::Value, Self), DErr> {
        self.d.f.tick()?;
        Ok((t.deserialize(self.d.at(self.k))?, self))
    }
}
impl<'de> VariantAccess<'de> for EAcc<'de> {
    type Error = DErr;
    fn unit_variant(self) -> Result<(), DErr> {
        self.d.f.tick()?;
        match self.x {
            None => Ok(()),
            Some(x) => de::Deserialize::deserialize(self.d.at(x)),
        }
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, t: T) -> Result<T::Value, DErr> {
        self.d.f.tick()?;
        match self.x {
            None => bad(&In::None, &"newtype variant"),
            Some(x) => t.deserialize(self.d.at(x)),
        }
    }
    fn tuple_variant<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, DErr> {
        self.d.f.tick()?;
        match self.x {
            None => bad(&In::None, &"tuple variant"),
            Some(x) => self.d.at(x).deserialize_tuple(n, v),
        }
    }
    fn struct_variant<V: Visitor<'de>>(self, f: &'static [S], v: V) -> Result<V::Value, DErr> {
        self.d.f.tick()?;
        match self.x {
            None => bad(&In::None, &"struct variant"),
            Some(x) => self.d.at(x).deserialize_struct("", f, v),
        }
    }
}

// -------------------------------------------------------- the asking type

thread_local!(pub static REQ: RefCell<Req> = RefCell::new(Req::new(Hint::Any)));

/// Types ask for what REQ says at the time they are read.
impl<'de> de::Deserialize<'de> for Got {
    fn deserialize<Z: Deserializer<'de>>(d: Z) -> Result<Got, Z::Error> {
        let r = REQ.with(|r| r.borrow().clone());
        (&r).deserialize(d)
    }
}

impl<'r, 'de> DeserializeSeed<'de> for &'r Req {
    type Value = Got;
    fn deserialize<Z: Deserializer<'de>>(self, d: Z) -> Result<Got, Z::Error> {
        let v = Vis { r: self };
        match self.hint {
            Hint::Any => d.deserialize_any(v),
            Hint::Bool => d.deserialize_bool(v),
            Hint::I8 => d.deserialize_i8(v),
            Hint::I16 => d.deserialize_i16(v),
            Hint::I32 => d.deserialize_i32(v),
            Hint::I64 => d.deserialize_i64(v),
            Hint::I128 => d.deserialize_i128(v),
            Hint::U8 => d.deserialize_u8(v),
            Hint::U16 => d.deserialize_u16(v),
            Hint::U32 => d.deserialize_u32(v),
            Hint::U64 => d.deserialize_u64(v),
            Hint::U128 => d.deserialize_u128(v),
            Hint::F32 => d.deserialize_f32(v),
            Hint::F64 => d.deserialize_f64(v),
            Hint::Char => d.deserialize_char(v),
            Hint::Str => d.deserialize_str(v),
            Hint::String => d.deserialize_string(v),
            Hint::Bytes => d.deserialize_bytes(v),
            Hint::ByteBuf => d.deserialize_byte_buf(v),
            Hint::Option => d.deserialize_option(v),
            Hint::Unit => d.deserialize_unit(v),
            Hint::UnitStruct(n) => d.deserialize_unit_struct(n, v),
            Hint::Newtype(n) => d.deserialize_newtype_struct(n, v),
            Hint::Seq => d.deserialize_seq(v),
            Hint::Tuple(n) => d.deserialize_tuple(n, v),
            Hint::TupleStruct(s, n) => d.deserialize_tuple_struct(s, n, v),
            Hint::Map => d.deserialize_map(v),
            Hint::Struct(s, f) => d.deserialize_struct(s, f, v),
            Hint::Enum(s, f) => d.deserialize_enum(s, f, v),
            Hint::Ident => d.deserialize_identifier(v),
            Hint::Ignored => d.deserialize_ignored_any(v),
        }
    }
}

struct Vis<'r> {
    r: &'r Req,
}
macro_rules! keep {
    ($($m:ident $t:ty => |$x:ident| $e:expr;)*) => {$(
        fn $m<E: de::Error>(self, $x: $t) -> Result<Got, E> { Ok($e) }
    )*};
}
impl<'r, 'de> Visitor<'de> for Vis<'r> {
    type Value = Got;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.r.hint)
    }
    keep! {
        visit_bool bool => |v| Got::Bool(v);
        visit_i8 i8 => |v| Got::I8(v);
        visit_i16 i16 => |v| Got::I16(v);
        visit_i32 i32 => |v| Got::I32(v);
        visit_i64 i64 => |v| Got::I64(v);
        visit_i128 i128 => |v| Got::I128(v);
        visit_u8 u8 => |v| Got::U8(v);
        visit_u16 u16 => |v| Got::U16(v);
        visit_u32 u32 => |v| Got::U32(v);
        visit_u64 u64 => |v| Got::U64(v);
        visit_u128 u128 => |v| Got::U128(v);
        visit_f32 f32 => |v| Got::F32(v.to_bits());
        visit_f64 f64 => |v| Got::F64(v.to_bits());
        visit_char char => |v| Got::Char(v);
        visit_str &str => |v| Got::Str(Own::Transient, v.to_owned());
        visit_borrowed_str &'de str => |v| Got::Str(Own::Borrowed, v.to_owned());
        visit_string String => |v| Got::Str(Own::Owned, v);
        visit_bytes &[u8] => |v| Got::Bytes(Own::Transient, v.to_owned());
        visit_borrowed_bytes &'de [u8] => |v| Got::Bytes(Own::Borrowed, v.to_owned());
        visit_byte_buf Vec<u8> => |v| Got::Bytes(Own::Owned, v);
    }
    fn visit_unit<E>(self) -> Result<Got, E> {
        Ok(Got::Unit)
    }
    fn visit_none<E>(self) -> Result<Got, E> {
        Ok(Got::None)
    }
    fn visit_some<Z: Deserializer<'de>>(self, d: Z) -> Result<Got, Z::Error> {
        Ok(Got::Some(Box::new((&self.r.sub()).deserialize(d)?)))
    }
    fn visit_newtype_struct<Z: Deserializer<'de>>(self, d: Z) -> Result<Got, Z::Error> {
        Ok(Got::Newtype(Box::new((&self.r.sub()).deserialize(d)?)))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Got, A::Error> {
        let mut v = vec![];
        while v.len() < self.r.take {
            match a.next_element_seed(&self.r.sub())? {
                Some(x) => v.push(x),
                None => break,
            }
        }
        Ok(Got::Seq(v))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Got, A::Error> {
        let mut v = vec![];
        while v.len() < self.r.take {
            match a.next_key_seed(&self.r.subkey())? {
                Some(k) => {
                    let x = a.next_value_seed(&self.r.sub())?;
                    v.push((k, x));
                }
                None => break,
            }
        }
        Ok(Got::Map(v))
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Got, A::Error> {
        let (k, va) = a.variant_seed(&self.r.subkey())?;
        let x = match &self.r.variant {
            VReq::Unit => {
                va.unit_variant()?;
                Got::UnitVariant
            }
            VReq::Newtype => va.newtype_variant_seed(&self.r.sub())?,
            VReq::Tuple(n) => va.tuple_variant(*n, Vis { r: self.r })?,
            VReq::Struct(f) => va.struct_variant(f, Vis { r: self.r })?,
        };
        Ok(Got::Enum(Box::new(k), Box::new(x)))
    }
}

#[allow(unused)]
fn _unused() {
    let _ = leak;
    let _: value::UnitDeserializer<DErr> = ().into_deserializer();
}
use serde::de::value;
