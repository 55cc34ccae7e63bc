//! A value of the serde data model that can serialize itself, and a serializer
//! that records what it is told as such a value.

use serde::ser::{self, Error as _, Serialize, Serializer};
use std::cell::{Cell, RefCell};
use std::fmt;

pub type S = &'static str;

pub fn leak(s: &str) -> S {
    use std::collections::HashMap;
    thread_local!(static T: RefCell<HashMap<String, S>> = RefCell::new(HashMap::new()));
    T.with(|t| {
        let mut t = t.borrow_mut();
        if let Some(x) = t.get(s) {
            return *x;
        }
        let l: S = Box::leak(s.to_owned().into_boxed_str());
        t.insert(s.to_owned(), l);
        l
    })
}

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    /// bits
    F32(u32),
    F64(u64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<Node>),
    Unit,
    UnitStruct(S),
    UnitVariant(S, u32, S),
    Newtype(S, Box<Node>),
    NewtypeVariant(S, u32, S, Box<Node>),
    Seq(Option<usize>, Vec<Node>),
    Tuple(usize, Vec<Node>),
    TupleStruct(S, usize, Vec<Node>),
    TupleVariant(S, u32, S, usize, Vec<Node>),
    /// the last flag: write keys and values by separate calls
    Map(Option<usize>, Vec<(Node, Node)>, bool),
    /// a None field is one the value asks to skip
    Struct(S, usize, Vec<(S, Option<Node>)>),
    StructVariant(S, u32, S, usize, Vec<(S, Option<Node>)>),
    CollectStr(String),
    Fail,
}

thread_local! {
    /// The recording format says that it is binary.
    pub static BINARY: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub const BOOM: &str = "boom-47";

impl Serialize for Node {
    fn serialize<Z: Serializer>(&self, s: Z) -> Result<Z::Ok, Z::Error> {
        use ser::*;
        match self {
            Node::Bool(v) => s.serialize_bool(*v),
            Node::I8(v) => s.serialize_i8(*v),
            Node::I16(v) => s.serialize_i16(*v),
            Node::I32(v) => s.serialize_i32(*v),
            Node::I64(v) => s.serialize_i64(*v),
            Node::I128(v) => s.serialize_i128(*v),
            Node::U8(v) => s.serialize_u8(*v),
            Node::U16(v) => s.serialize_u16(*v),
            Node::U32(v) => s.serialize_u32(*v),
            Node::U64(v) => s.serialize_u64(*v),
            Node::U128(v) => s.serialize_u128(*v),
            Node::F32(v) => s.serialize_f32(f32::from_bits(*v)),
            Node::F64(v) => s.serialize_f64(f64::from_bits(*v)),
            Node::Char(v) => s.serialize_char(*v),
            Node::Str(v) => s.serialize_str(v),
            Node::Bytes(v) => s.serialize_bytes(v),
            Node::None => s.serialize_none(),
            Node::Some(v) => s.serialize_some(&**v),
            Node::Unit => s.serialize_unit(),
            Node::UnitStruct(n) => s.serialize_unit_struct(n),
            Node::UnitVariant(n, i, v) => s.serialize_unit_variant(n, *i, v),
            Node::Newtype(n, v) => s.serialize_newtype_struct(n, &**v),
            Node::NewtypeVariant(n, i, k, v) => s.serialize_newtype_variant(n, *i, k, &**v),
            Node::Seq(l, v) => {
                let mut s = s.serialize_seq(*l)?;
                for x in v {
                    s.serialize_element(x)?;
                }
                s.end()
            }
            Node::Tuple(l, v) => {
                let mut s = s.serialize_tuple(*l)?;
                for x in v {
                    s.serialize_element(x)?;
                }
                s.end()
            }
            Node::TupleStruct(n, l, v) => {
                let mut s = s.serialize_tuple_struct(n, *l)?;
                for x in v {
                    s.serialize_field(x)?;
                }
                s.end()
            }
            Node::TupleVariant(n, i, k, l, v) => {
                let mut s = s.serialize_tuple_variant(n, *i, k, *l)?;
                for x in v {
                    s.serialize_field(x)?;
                }
                s.end()
            }
            Node::Map(l, v, split) => {
                let mut s = s.serialize_map(*l)?;
                for (k, x) in v {
                    if *split {
                        s.serialize_key(k)?;
                        s.serialize_value(x)?;
                    } else {
                        s.serialize_entry(k, x)?;
                    }
                }
                s.end()
            }
            Node::Struct(n, l, v) => {
                let mut s = s.serialize_struct(n, *l)?;
                for (k, x) in v {
                    match x {
                        Some(x) => s.serialize_field(k, x)?,
                        None => s.skip_field(k)?,
                    }
                }
                s.end()
            }
            Node::StructVariant(n, i, k, l, v) => {
                let mut s = s.serialize_struct_variant(n, *i, k, *l)?;
                for (k, x) in v {
                    match x {
                        Some(x) => s.serialize_field(k, x)?,
                        None => s.skip_field(k)?,
                    }
                }
                s.end()
            }
            // like an IP address: text, or bytes for a binary format
            Node::CollectStr(v) if BINARY.get() && !s.is_human_readable() => s.serialize_bytes(v.as_bytes()),
            Node::CollectStr(v) => s.collect_str(v),
            Node::Fail => Err(Z::Error::custom(BOOM)),
        }
    }
}

impl Node {
    pub fn kids(&self) -> Vec<&Node> {
        match self {
            Node::Some(x) | Node::Newtype(_, x) | Node::NewtypeVariant(_, _, _, x) => vec![x],
            Node::Seq(_, v) | Node::Tuple(_, v) | Node::TupleStruct(_, _, v) | Node::TupleVariant(_, _, _, _, v) => v.iter().collect(),
            Node::Map(_, v, _) => v.iter().flat_map(|(a, b)| [a, b]).collect(),
            Node::Struct(_, _, v) | Node::StructVariant(_, _, _, _, v) => v.iter().filter_map(|(_, x)| x.as_ref()).collect(),
            _ => vec![],
        }
    }
    pub fn has_fail(&self) -> bool {
        *self == Node::Fail || self.kids().iter().any(|x| x.has_fail())
    }
    /// What a serializer that was told everything about this value has heard.
    pub fn heard(&self) -> Node {
        self.map(false)
    }
    /// What it hears when the value has been held back: lengths known, skipped fields gone.
    pub fn held(&self) -> Node {
        self.map(true)
    }
    fn map(&self, held: bool) -> Node {
        let all = |v: &Vec<Node>| v.iter().map(|x| x.map(held)).collect::<Vec<_>>();
        let flds = |v: &Vec<(S, Option<Node>)>| {
            v.iter()
                .filter(|(_, x)| x.is_some() || !held)
                .map(|(k, x)| (*k, x.as_ref().map(|x| x.map(held))))
                .collect::<Vec<_>>()
        };
        let n = |l: usize, m: usize| if held { m } else { l };
        match self {
            Node::Some(x) => Node::Some(Box::new(x.map(held))),
            Node::Newtype(s, x) => Node::Newtype(s, Box::new(x.map(held))),
            Node::NewtypeVariant(s, i, k, x) => Node::NewtypeVariant(s, *i, k, Box::new(x.map(held))),
            Node::Seq(l, v) => Node::Seq(if held { Some(v.len()) } else { *l }, all(v)),
            Node::Tuple(l, v) => Node::Tuple(n(*l, v.len()), all(v)),
            Node::TupleStruct(s, l, v) => Node::TupleStruct(s, n(*l, v.len()), all(v)),
            Node::TupleVariant(s, i, k, l, v) => Node::TupleVariant(s, *i, k, n(*l, v.len()), all(v)),
            Node::Map(l, v, _) => Node::Map(
                if held { Some(v.len()) } else { *l },
                v.iter().map(|(a, b)| (a.map(held), b.map(held))).collect(),
                false,
            ),
            Node::Struct(s, l, v) => {
                let f = flds(v);
                Node::Struct(s, n(*l, f.len()), f)
            }
            Node::StructVariant(s, i, k, l, v) => {
                let f = flds(v);
                Node::StructVariant(s, *i, k, n(*l, f.len()), f)
            }
            Node::CollectStr(s) => Node::Str(s.clone()),
            x => x.clone(),
        }
    }
}

// ------------------------------------------------------------ the recorder

pub struct Ctl {
    pub count: Cell<usize>,
    pub fail_at: usize,
    /// broken promises: announced lengths, dangling keys
    pub broken: RefCell<Vec<String>>,
}

impl Ctl {
    pub fn new(fail_at: usize) -> Ctl {
        Ctl { count: Cell::new(0), fail_at, broken: RefCell::new(vec![]) }
    }
    fn tick(&self) -> Result<(), RecErr> {
        let n = self.count.get();
        self.count.set(n + 1);
        if n == self.fail_at {
            Err(RecErr { msg: format!("injected at call {n}"), injected: Some(n) })
        } else {
            Ok(())
        }
    }
    fn promise(&self, what: &str, announced: usize, wrote: usize) {
        if announced != wrote {
            self.broken.borrow_mut().push(format!("{what}: announced {announced}, wrote {wrote}"));
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct RecErr {
    pub msg: String,
    pub injected: Option<usize>,
}
impl fmt::Display for RecErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.msg)
    }
}
impl std::error::Error for RecErr {}
impl ser::Error for RecErr {
    fn custom<T: fmt::Display>(m: T) -> Self {
        RecErr { msg: m.to_string(), injected: None }
    }
}

#[derive(Copy, Clone)]
pub struct R<'a>(pub &'a Ctl);

pub struct RC<'a> {
    ctl: &'a Ctl,
    kind: Node,
    items: Vec<Node>,
    fields: Vec<(S, Option<Node>)>,
    entries: Vec<(Node, Node)>,
    key: Option<Node>,
}

impl<'a> R<'a> {
    fn leaf(self, n: Node) -> Result<Node, RecErr> {
        self.0.tick()?;
        Ok(n)
    }
    fn open(self, kind: Node) -> Result<RC<'a>, RecErr> {
        self.0.tick()?;
        Ok(RC { ctl: self.0, kind, items: vec![], fields: vec![], entries: vec![], key: None })
    }
}

impl<'a> Serializer for R<'a> {
    type Ok = Node;
    type Error = RecErr;
    type SerializeSeq = RC<'a>;
    type SerializeTuple = RC<'a>;
    type SerializeTupleStruct = RC<'a>;
    type SerializeTupleVariant = RC<'a>;
    type SerializeMap = RC<'a>;
    type SerializeStruct = RC<'a>;
    type SerializeStructVariant = RC<'a>;

    fn is_human_readable(&self) -> bool {
        !BINARY.get()
    }
    fn serialize_bool(self, v: bool) -> Result<Node, RecErr> {
        self.leaf(Node::Bool(v))
    }
    fn serialize_i8(self, v: i8) -> Result<Node, RecErr> {
        self.leaf(Node::I8(v))
    }
    fn serialize_i16(self, v: i16) -> Result<Node, RecErr> {
        self.leaf(Node::I16(v))
    }
    fn serialize_i32(self, v: i32) -> Result<Node, RecErr> {
        self.leaf(Node::I32(v))
    }
    fn serialize_i64(self, v: i64) -> Result<Node, RecErr> {
        self.leaf(Node::I64(v))
    }
    fn serialize_i128(self, v: i128) -> Result<Node, RecErr> {
        self.leaf(Node::I128(v))
    }
    fn serialize_u8(self, v: u8) -> Result<Node, RecErr> {
        self.leaf(Node::U8(v))
    }
    fn serialize_u16(self, v: u16) -> Result<Node, RecErr> {
        self.leaf(Node::U16(v))
    }
    fn serialize_u32(self, v: u32) -> Result<Node, RecErr> {
        self.leaf(Node::U32(v))
    }
    fn serialize_u64(self, v: u64) -> Result<Node, RecErr> {
        self.leaf(Node::U64(v))
    }
    fn serialize_u128(self, v: u128) -> Result<Node, RecErr> {
        self.leaf(Node::U128(v))
    }
    fn serialize_f32(self, v: f32) -> Result<Node, RecErr> {
        self.leaf(Node::F32(v.to_bits()))
    }
    fn serialize_f64(self, v: f64) -> Result<Node, RecErr> {
        self.leaf(Node::F64(v.to_bits()))
    }
    fn serialize_char(self, v: char) -> Result<Node, RecErr> {
        self.leaf(Node::Char(v))
    }
    fn serialize_str(self, v: &str) -> Result<Node, RecErr> {
        self.leaf(Node::Str(v.to_owned()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Node, RecErr> {
        self.leaf(Node::Bytes(v.to_owned()))
    }
    fn serialize_none(self) -> Result<Node, RecErr> {
        self.leaf(Node::None)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Node, RecErr> {
        self.0.tick()?;
        Ok(Node::Some(Box::new(v.serialize(self)?)))
    }
    fn serialize_unit(self) -> Result<Node, RecErr> {
        self.leaf(Node::Unit)
    }
    fn serialize_unit_struct(self, n: S) -> Result<Node, RecErr> {
        self.leaf(Node::UnitStruct(n))
    }
    fn serialize_unit_variant(self, n: S, i: u32, v: S) -> Result<Node, RecErr> {
        self.leaf(Node::UnitVariant(n, i, v))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, n: S, v: &T) -> Result<Node, RecErr> {
        self.0.tick()?;
        Ok(Node::Newtype(n, Box::new(v.serialize(self)?)))
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, n: S, i: u32, k: S, v: &T) -> Result<Node, RecErr> {
        self.0.tick()?;
        Ok(Node::NewtypeVariant(n, i, k, Box::new(v.serialize(self)?)))
    }
    fn serialize_seq(self, l: Option<usize>) -> Result<RC<'a>, RecErr> {
        self.open(Node::Seq(l, vec![]))
    }
    fn serialize_tuple(self, l: usize) -> Result<RC<'a>, RecErr> {
        self.open(Node::Tuple(l, vec![]))
    }
    fn serialize_tuple_struct(self, n: S, l: usize) -> Result<RC<'a>, RecErr> {
        self.open(Node::TupleStruct(n, l, vec![]))
    }
    fn serialize_tuple_variant(self, n: S, i: u32, k: S, l: usize) -> Result<RC<'a>, RecErr> {
        self.open(Node::TupleVariant(n, i, k, l, vec![]))
    }
    fn serialize_map(self, l: Option<usize>) -> Result<RC<'a>, RecErr> {
        self.open(Node::Map(l, vec![], false))
    }
    fn serialize_struct(self, n: S, l: usize) -> Result<RC<'a>, RecErr> {
        self.open(Node::Struct(n, l, vec![]))
    }
    fn serialize_struct_variant(self, n: S, i: u32, k: S, l: usize) -> Result<RC<'a>, RecErr> {
        self.open(Node::StructVariant(n, i, k, l, vec![]))
    }
}

impl<'a> RC<'a> {
    fn item<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), RecErr> {
        self.ctl.tick()?;
        let x = v.serialize(R(self.ctl))?;
        self.items.push(x);
        Ok(())
    }
    fn field<T: ?Sized + Serialize>(&mut self, k: S, v: &T) -> Result<(), RecErr> {
        self.ctl.tick()?;
        let x = v.serialize(R(self.ctl))?;
        self.fields.push((k, Some(x)));
        Ok(())
    }
    fn key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), RecErr> {
        self.ctl.tick()?;
        if self.key.is_some() {
            self.ctl.broken.borrow_mut().push("a key without a value".into());
        }
        self.key = Some(v.serialize(R(self.ctl))?);
        Ok(())
    }
    fn value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), RecErr> {
        self.ctl.tick()?;
        let x = v.serialize(R(self.ctl))?;
        match self.key.take() {
            Some(k) => self.entries.push((k, x)),
            None => self.ctl.broken.borrow_mut().push("a value without a key".into()),
        }
        Ok(())
    }
    fn finish(self) -> Result<Node, RecErr> {
        self.ctl.tick()?;
        if self.key.is_some() {
            self.ctl.broken.borrow_mut().push("a key without a value".into());
        }
        let wrote = self.fields.iter().filter(|x| x.1.is_some()).count();
        Ok(match self.kind {
            Node::Seq(l, _) => {
                if let Some(l) = l {
                    self.ctl.promise("seq", l, self.items.len());
                }
                Node::Seq(l, self.items)
            }
            Node::Tuple(l, _) => {
                self.ctl.promise("tuple", l, self.items.len());
                Node::Tuple(l, self.items)
            }
            Node::TupleStruct(n, l, _) => {
                self.ctl.promise("tuple struct", l, self.items.len());
                Node::TupleStruct(n, l, self.items)
            }
            Node::TupleVariant(n, i, k, l, _) => {
                self.ctl.promise("tuple variant", l, self.items.len());
                Node::TupleVariant(n, i, k, l, self.items)
            }
            Node::Map(l, _, _) => {
                if let Some(l) = l {
                    self.ctl.promise("map", l, self.entries.len());
                }
                Node::Map(l, self.entries, false)
            }
            Node::Struct(n, l, _) => {
                self.ctl.promise("struct", l, wrote);
                Node::Struct(n, l, self.fields)
            }
            Node::StructVariant(n, i, k, l, _) => {
                self.ctl.promise("struct variant", l, wrote);
                Node::StructVariant(n, i, k, l, self.fields)
            }
            _ => unreachable!(),
        })
    }
}

macro_rules! compound {
    ($t:ident, $f:ident, $g:ident) => {
        impl<'a> ser::$t for RC<'a> {
            type Ok = Node;
            type Error = RecErr;
            fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), RecErr> {
                self.$g(v)
            }
            fn end(self) -> Result<Node, RecErr> {
                self.finish()
            }
        }
    };
}
compound!(SerializeSeq, serialize_element, item);
compound!(SerializeTuple, serialize_element, item);
compound!(SerializeTupleStruct, serialize_field, item);
compound!(SerializeTupleVariant, serialize_field, item);
impl<'a> ser::SerializeMap for RC<'a> {
    type Ok = Node;
    type Error = RecErr;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), RecErr> {
        self.key(v)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), RecErr> {
        self.value(v)
    }
    fn end(self) -> Result<Node, RecErr> {
        self.finish()
    }
}
macro_rules! structs {
    ($t:ident) => {
        impl<'a> ser::$t for RC<'a> {
            type Ok = Node;
            type Error = RecErr;
            fn serialize_field<T: ?Sized + Serialize>(&mut self, k: S, v: &T) -> Result<(), RecErr> {
                self.field(k, v)
            }
            fn skip_field(&mut self, k: S) -> Result<(), RecErr> {
                self.ctl.tick()?;
                self.fields.push((k, None));
                Ok(())
            }
            fn end(self) -> Result<Node, RecErr> {
                self.finish()
            }
        }
    };
}
structs!(SerializeStruct);
structs!(SerializeStructVariant);
