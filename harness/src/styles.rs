//! Traits in every tag style, with implementations whose written value and
//! reading request are scripted.

use crate::input::{DErr, Got, D};
use crate::node::{Node, RecErr, R, S};
use crate::oracle::Names;
use serde::{Deserialize, Serialize};

pub trait Extra {}
impl<T> Extra for T {}

/// What a trait object writes, or what it was given when read.
#[derive(Debug, Clone, PartialEq)]
pub enum Body {
    Write(Node),
    Read(Got),
}
impl Serialize for Body {
    fn serialize<Z: serde::Serializer>(&self, s: Z) -> Result<Z::Ok, Z::Error> {
        match self {
            Body::Write(n) => n.serialize(s),
            Body::Read(_) => unreachable!(),
        }
    }
}
impl<'de> Deserialize<'de> for Body {
    fn deserialize<Z: serde::Deserializer<'de>>(d: Z) -> Result<Body, Z::Error> {
        Got::deserialize(d).map(Body::Read)
    }
}

/// An implementation that takes no memory: what it holds stands in [NIL].
pub struct Nil;
thread_local! {
    static NIL: std::cell::RefCell<Option<Body>> = const { std::cell::RefCell::new(None) };
}
fn nil_body() -> &'static Body {
    Box::leak(Box::new(NIL.with(|c| c.borrow().clone().unwrap())))
}
impl Serialize for Nil {
    fn serialize<Z: serde::Serializer>(&self, s: Z) -> Result<Z::Ok, Z::Error> {
        NIL.with(|c| c.borrow().clone()).unwrap().serialize(s)
    }
}
impl<'de> Deserialize<'de> for Nil {
    fn deserialize<Z: serde::Deserializer<'de>>(d: Z) -> Result<Nil, Z::Error> {
        let b = Body::deserialize(d)?;
        NIL.with(|c| *c.borrow_mut() = Some(b));
        Ok(Nil)
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Kind {
    External,
    Internal { tag: S, default: Option<S> },
    Adjacent { tag: S, content: S, default: Option<S>, deny: bool },
}

pub struct Style {
    pub trait_name: S,
    pub kind: Kind,
    pub names: Names,
    /// implementation by name, which view of the object (plain, Send, Sync, both)
    pub write: fn(usize, Node, usize, R) -> Result<Node, RecErr>,
    /// which view of the object
    pub read: for<'a> fn(usize, D<'a>) -> Result<(S, Got), DErr>,
    pub writable: &'static [S],
    pub read_views: usize,
}

pub const LONG: S = "Long name \u{e9}, longer than any that a buffer of some fixed size would take: 0123456789 0123456789 0123456789 0123456789";

macro_rules! style {
    ($m:ident, $t:ident, ($($sup:tt)*), ($($attr:tt)*), $kind:expr, [$($view:ty),*]) => {
        pub mod $m {
            use super::*;
            #[allow(non_camel_case_types)]
            #[typetag::serde($($attr)*)]
            pub trait $t: $($sup)* {
                fn who(&self) -> S;
                fn body(&self) -> &Body;
            }
            macro_rules! imp {
                ($i:ident, $who:expr, $a:meta) => {
                    #[derive(Serialize, Deserialize)]
                    #[serde(transparent)]
                    pub struct $i(pub Body);
                    #[$a]
                    impl $t for $i {
                        fn who(&self) -> S { $who }
                        fn body(&self) -> &Body { &self.0 }
                    }
                };
            }
            const CONST_NAME: &str = "from const";
            imp!(Zeta, "Zeta", typetag::serde);
            imp!(A1, "A", typetag::serde(name = "A"));
            imp!(A2, "a", typetag::serde(name = "a"));
            imp!(A3, "AB", typetag::serde(name = "AB"));
            imp!(A4, "", typetag::serde(name = ""));
            imp!(A5, "q\"\u{e9}", typetag::serde(name = "q\"\u{e9}"));
            imp!(A6, "from const", typetag::serde(name = CONST_NAME));
            imp!(A7, "x", typetag::serde(name = "x"));
            imp!(A8, "type", typetag::serde(name = "type"));
            imp!(D1, "Dup", typetag::serde(name = "Dup"));
            imp!(D2, "Dup", typetag::serde(name = "Dup"));
            imp!(T1, "Triple", typetag::serde(name = "Triple"));
            imp!(T2, "Triple", typetag::serde(name = "Triple"));
            imp!(T3, "Triple", typetag::serde(name = "Triple"));
            imp!(Q1, "Four", typetag::serde(name = "Four"));
            imp!(Q2, "Four", typetag::serde(name = "Four"));
            imp!(Q3, "Four", typetag::serde(name = "Four"));
            imp!(Q4, "Four", typetag::serde(name = "Four"));
            imp!(Mid, "Mid", typetag::serde);
            imp!(P1, "m::Path", typetag::serde(name = "m::Path"));
            imp!(P2, "Path", typetag::serde(name = "Path"));
            imp!(P3, "value", typetag::serde(name = "value"));
            imp!(P4, "Uv", typetag::serde(name = "Uv"));
            imp!(P5, " A", typetag::serde(name = " A"));
            imp!(P6, "1", typetag::serde(name = "1"));
            imp!(P7, LONG, typetag::serde(name = LONG));
            imp!(P8, "odd-name_x", typetag::serde(name = "odd-name_x"));
            imp!(PA, "odd_x", typetag::serde(name = "odd_x"));
            imp!(PB, "odd-y", typetag::serde(name = "odd-y"));
            imp!(P9, "r#y<z>", typetag::serde(name = "r#y<z>"));
            pub mod first {
                pub mod second {
                    use super::super::*;
                    #[derive(Serialize, Deserialize)]
                    #[serde(transparent)]
                    pub struct Deep(pub Body);
                }
            }
            #[typetag::serde]
            impl $t for first::second::Deep {
                fn who(&self) -> S { "Deep" }
                fn body(&self) -> &Body { &self.0 }
            }
            #[typetag::serde(name = "sized 0")]
            impl $t for Nil {
                fn who(&self) -> S { "sized 0" }
                fn body(&self) -> &Body { nil_body() }
            }

            fn write(which: usize, n: Node, view: usize, r: R) -> Result<Node, RecErr> {
                macro_rules! w {
                    ($i:ident) => {
                        match view {
                            0 => (&$i(Body::Write(n)) as &dyn $t).serialize(r),
                            1 => (&$i(Body::Write(n)) as &(dyn $t + Send)).serialize(r),
                            2 => (&$i(Body::Write(n)) as &(dyn $t + Sync)).serialize(r),
                            _ => (&$i(Body::Write(n)) as &(dyn $t + Send + Sync)).serialize(r),
                        }
                    };
                }
                match which {
                    0 => w!(Zeta),
                    1 => w!(A1),
                    2 => w!(A2),
                    3 => w!(A3),
                    4 => w!(A4),
                    5 => w!(A5),
                    6 => w!(A6),
                    7 => w!(A7),
                    8 => w!(A8),
                    10 => w!(P1),
                    11 => {
                        NIL.with(|c| *c.borrow_mut() = Some(Body::Write(n)));
                        match view {
                            0 => (&Nil as &dyn $t).serialize(r),
                            1 => (&Nil as &(dyn $t + Send)).serialize(r),
                            2 => (&Nil as &(dyn $t + Sync)).serialize(r),
                            _ => (&Nil as &(dyn $t + Send + Sync)).serialize(r),
                        }
                    }
                    12 => match view {
                        0 => (&first::second::Deep(Body::Write(n)) as &dyn $t).serialize(r),
                        _ => (&first::second::Deep(Body::Write(n)) as &(dyn $t + Send + Sync)).serialize(r),
                    },
                    13 => w!(P4),
                    14 => w!(P3),
                    15 => w!(P7),
                    16 => w!(P8),
                    17 => w!(P9),
                    _ => w!(Mid),
                }
            }
            fn read<'a>(view: usize, d: D<'a>) -> Result<(S, Got), DErr> {
                #[allow(unused_assignments, unused_mut)]
                let mut i = 0;
                $(
                    if view == i {
                        let b: Box<$view> = Deserialize::deserialize(d)?;
                        let Body::Read(g) = b.body() else { unreachable!() };
                        return Ok((b.who(), g.clone()));
                    }
                    i += 1;
                )*
                let b: Box<dyn $t> = Deserialize::deserialize(d)?;
                let Body::Read(g) = b.body() else { unreachable!() };
                Ok((b.who(), g.clone()))
            }
            pub const STYLE: Style = Style {
                trait_name: stringify!($t),
                kind: $kind,
                names: &[
                    ("Zeta", 1), ("A", 1), ("a", 1), ("AB", 1), ("", 1), ("q\"\u{e9}", 1), ("from const", 1),
                    ("x", 1), ("type", 1), ("Dup", 2), ("Triple", 3), ("Four", 4), ("Mid", 1),
                    ("m::Path", 1), ("Path", 1), ("value", 1), ("Uv", 1), (" A", 1), ("1", 1), ("Deep", 1), ("sized 0", 1),
                    (LONG, 1), ("odd-name_x", 1), ("r#y<z>", 1), ("odd_x", 1), ("odd-y", 1),
                ],
                write,
                read,
                writable: &["Zeta", "A", "a", "AB", "", "q\"\u{e9}", "from const", "x", "type", "Mid", "m::Path", "sized 0", "Deep", "Uv", "value", LONG, "odd-name_x", "r#y<z>"],
                read_views: 1 $(+ { let _ = stringify!($view); 1 })*,
            };
        }
    };
}

style!(ext, Ext, (), (), Kind::External, []);
style!(ext_send, ExtSend, (Send), (), Kind::External, [dyn ExtSend + Send]);
style!(ext_sync, ExtSync, (Sync), (), Kind::External, [dyn ExtSync + Sync]);
style!(ext_both, ExtBoth, (Send + Sync), (), Kind::External, [dyn ExtBoth + Send + Sync, dyn ExtBoth + Send, dyn ExtBoth + Sync]);
style!(ext_both2, ExtBoth2, (Sync + Extra + Send), (), Kind::External, [dyn ExtBoth2 + Send + Sync, dyn ExtBoth2 + Send, dyn ExtBoth2 + Sync]);
style!(int, Int, (), (tag = "type"), Kind::Internal { tag: "type", default: None }, []);
style!(int_c, IntC, (Send), (tag = "t a\"g",), Kind::Internal { tag: "t a\"g", default: None }, [dyn IntC + Send]);
style!(int_def, IntDef, (), (tag = "type", default_variant = "A"), Kind::Internal { tag: "type", default: Some("A") }, []);
style!(int_def_dup, IntDefDup, (), (tag = "type", default_variant = "Dup",), Kind::Internal { tag: "type", default: Some("Dup") }, []);
style!(int_def_none, IntDefNone, (), (tag = "type", default_variant = "Nope"), Kind::Internal { tag: "type", default: Some("Nope") }, []);
style!(int_value, IntValue, (), (tag = "value"), Kind::Internal { tag: "value", default: None }, []);
style!(int_empty, IntEmpty, (), (tag = ""), Kind::Internal { tag: "", default: None }, []);
style!(int_odd, IntOdd, (), (tag = "@t-y_\u{c9}", default_variant = "odd-name_x"), Kind::Internal { tag: "@t-y_\u{c9}", default: Some("odd-name_x") }, []);
style!(adj_odd, AdjOdd, (), (tag = "$k", content = "$k-k", default_variant = "odd-name_x"), Kind::Adjacent { tag: "$k", content: "$k-k", default: Some("odd-name_x"), deny: false }, []);
style!(adj, Adj, (), (tag = "type", content = "content"), Kind::Adjacent { tag: "type", content: "content", default: None, deny: false }, []);
style!(adj2, Adj2, (Send + Sync), (tag = "content", content = "value",), Kind::Adjacent { tag: "content", content: "value", default: None, deny: false }, [dyn Adj2 + Send, dyn Adj2 + Sync, dyn Adj2 + Send + Sync]);
style!(adj_deny, AdjDeny, (), (tag = "type", content = "content", deny_unknown_fields), Kind::Adjacent { tag: "type", content: "content", default: None, deny: true }, []);
style!(adj_def, AdjDef, (), (tag = "type", content = "content", default_variant = "A",), Kind::Adjacent { tag: "type", content: "content", default: Some("A"), deny: false }, []);
style!(adj_def_deny, AdjDefDeny, (), (tag = "type", content = "content", default_variant = "A", deny_unknown_fields), Kind::Adjacent { tag: "type", content: "content", default: Some("A"), deny: true }, []);
style!(adj_deny_def, AdjDenyDef, (), (tag = "type", content = "content", deny_unknown_fields, default_variant = "x"), Kind::Adjacent { tag: "type", content: "content", default: Some("x"), deny: true }, []);
style!(adj_def_none, AdjDefNone, (), (tag = "type", content = "content", default_variant = "Nope"), Kind::Adjacent { tag: "type", content: "content", default: Some("Nope"), deny: false }, []);

pub static ALL: &[&Style] = &[
    &ext::STYLE, &ext_send::STYLE, &ext_sync::STYLE, &ext_both::STYLE, &ext_both2::STYLE,
    &int::STYLE, &int_c::STYLE, &int_def::STYLE, &int_def_dup::STYLE, &int_def_none::STYLE, &int_value::STYLE,
    &int_empty::STYLE, &int_odd::STYLE, &adj_odd::STYLE, &adj::STYLE, &adj2::STYLE, &adj_deny::STYLE, &adj_def::STYLE, &adj_def_deny::STYLE, &adj_deny_def::STYLE, &adj_def_none::STYLE,
];
