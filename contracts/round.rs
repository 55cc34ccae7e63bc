// C18: what was written reads back. Composition of the writers' and the
// readers' contracts, for a format that presents what was written.
use vstd::prelude::*;
use crate::spec::*;
use crate::shim::*;
use crate::private::*;
use crate::de::FnApply;
use crate::serde::de::*;
use crate::internally_lemmas::*;
use crate::adjacently_lemmas::*;
verus! {
broadcast use {crate::spec::lemma_cons, crate::spec::lemma_len0};

// ---- what an event says
pub open spec fn int_of(e: Ev) -> Option<int> {
    match e {
        Ev::I8(x) => Some(x as int), Ev::I16(x) => Some(x as int), Ev::I32(x) => Some(x as int), Ev::I64(x) => Some(x as int), Ev::I128(x) => Some(x as int),
        Ev::U8(x) => Some(x as int), Ev::U16(x) => Some(x as int), Ev::U32(x) => Some(x as int), Ev::U64(x) => Some(x as int), Ev::U128(x) => Some(x as int),
        _ => None,
    }
}
/// A number that a float's visitor takes for `x`.
pub uninterp spec fn f32_like(e: Ev, x: f32) -> bool;
pub uninterp spec fn f64_like(e: Ev, x: f64) -> bool;
pub open spec fn number(e: Ev) -> bool {
    e is F32 || e is F64 || e is I8 || e is I16 || e is I32 || e is I64 || e is U8 || e is U16 || e is U32 || e is U64
}
pub open spec fn f32_of(e: Ev, x: f32) -> bool { e == Ev::F32(x) || (number(e) && f32_like(e, x)) }
pub open spec fn f64_of(e: Ev, x: f64) -> bool { e == Ev::F64(x) || (number(e) && f64_like(e, x)) }
pub open spec fn is_str(e: Ev, s: Seq<char>) -> bool { e matches Ev::Str(t, _) && t == s }
pub open spec fn bytes_of(e: Ev, b: Seq<u8>) -> bool {
    match e {
        Ev::Bytes(c, _) => c == b,
        // formats without bytes present numbers
        Ev::Seq(y) => y.len() == b.len() && forall|i: int| 0 <= i < b.len() ==> int_of(ev(#[trigger] y[i], Hint::U8)) == Some(b[i] as int),
        _ => false,
    }
}
pub open spec fn any_bytes(e: Ev, b: Seq<u8>) -> bool {
    match e {
        Ev::Bytes(c, _) => c == b,
        Ev::Seq(y) => y.len() == b.len() && forall|i: int| 0 <= i < b.len() ==> #[trigger] int_any(y[i]) == Some(b[i] as int),
        _ => false,
    }
}
pub open spec fn int_any(s: Src) -> Option<int> { int_of(ev(s, Hint::Any)) }

// ---- what a type that wrote `v` is given when it asks for its own kind
pub open spec fn ident(s: Src, k: Seq<char>) -> bool { str_of(ev(s, Hint::Identifier)) == Some(k) }
/// `s`, asked by a type that wrote `v`, presents `v`.
pub open spec fn shown(s: Src, v: SVal) -> bool
    decreases v
{
    match v {
        SVal::Fail => false,
        SVal::Bool(x) => ev(s, Hint::Bool) == Ev::Bool(x),
        SVal::I8(x) => int_of(ev(s, Hint::I8)) == Some(x as int),
        SVal::I16(x) => int_of(ev(s, Hint::I16)) == Some(x as int),
        SVal::I32(x) => int_of(ev(s, Hint::I32)) == Some(x as int),
        SVal::I64(x) => int_of(ev(s, Hint::I64)) == Some(x as int),
        SVal::I128(x) => int_of(ev(s, Hint::I128)) == Some(x as int),
        SVal::U8(x) => int_of(ev(s, Hint::U8)) == Some(x as int),
        SVal::U16(x) => int_of(ev(s, Hint::U16)) == Some(x as int),
        SVal::U32(x) => int_of(ev(s, Hint::U32)) == Some(x as int),
        SVal::U64(x) => int_of(ev(s, Hint::U64)) == Some(x as int),
        SVal::U128(x) => int_of(ev(s, Hint::U128)) == Some(x as int),
        SVal::F32(x) => f32_of(ev(s, Hint::F32), x),
        SVal::F64(x) => f64_of(ev(s, Hint::F64), x),
        SVal::Char(c) => str_of(ev(s, Hint::Char)) == Some(Seq::<char>::empty().push(c)),
        SVal::Str(t) => str_of(ev(s, Hint::Str)) == Some(t) && str_of(ev(s, Hint::String)) == Some(t) && ident(s, t),
        SVal::Bytes(b) => bytes_of(ev(s, Hint::Bytes), b) && bytes_of(ev(s, Hint::ByteBuf), b),
        SVal::None => ev(s, Hint::Option) is None || ev(s, Hint::Option) is Unit,
        SVal::Some(x) => ev(s, Hint::Option) matches Ev::Some(y) && shown(y, *x),
        SVal::Unit => ev(s, Hint::Unit) is Unit,
        SVal::UnitStruct(n) => ev(s, Hint::UnitStruct(n)) is Unit,
        SVal::NewtypeStruct(n, x) => ev(s, Hint::NewtypeStruct(n)) matches Ev::Newtype(y) && shown(y, *x),
        SVal::Seq(xs) => shown_seq(ev(s, Hint::Seq), xs),
        SVal::Tuple(xs) => forall|n: usize| n == xs.len() ==> shown_seq(#[trigger] ev(s, Hint::Tuple(n)), xs),
        SVal::TupleStruct(k, xs) => forall|n: usize| n == xs.len() ==> shown_seq(#[trigger] ev(s, Hint::TupleStruct(k, n)), xs),
        SVal::Map(es) => shown_map(ev(s, Hint::Map), es),
        SVal::Struct(n, fs) => forall|names: Seq<Seq<char>>| shown_struct(#[trigger] ev(s, Hint::Struct(n, names)), fs),
        SVal::UnitVariant(n, _, k) => forall|names: Seq<Seq<char>>| match #[trigger] ev(s, Hint::Enum(n, names)) {
            Ev::Enum(e) => e.variant is Some && ident(e.variant->0, k) && match e.payload {
                Payload::Opaque(id) => opaque_shows(id, v),
                Payload::Val(o, _) => o is Some && ev(o->0, Hint::Unit) is Unit,
                Payload::Buf(o) => o is None || o->0 is Unit,
            },
            _ => false,
        },
        SVal::NewtypeVariant(n, _, k, x) => forall|names: Seq<Seq<char>>| match #[trigger] ev(s, Hint::Enum(n, names)) {
            Ev::Enum(e) => e.variant is Some && ident(e.variant->0, k) && match e.payload {
                Payload::Opaque(id) => opaque_shows(id, v),
                Payload::Val(o, _) => o is Some && shown(o->0, *x),
                Payload::Buf(o) => o is Some && shown(Src::Buf(o->0), *x),
            },
            _ => false,
        },
        SVal::TupleVariant(n, _, k, xs) => forall|names: Seq<Seq<char>>| match #[trigger] ev(s, Hint::Enum(n, names)) {
            Ev::Enum(e) => e.variant is Some && ident(e.variant->0, k) && match e.payload {
                Payload::Opaque(id) => opaque_shows(id, v),
                Payload::Val(o, _) => o is Some && forall|m: usize| m == xs.len() ==> shown_seq(#[trigger] ev(o->0, Hint::Tuple(m)), xs),
                Payload::Buf(o) => match o {
                    Some(GC::Seq(g)) => shown_seq(Ev::Seq(bufs(g)), xs),
                    _ => false,
                },
            },
            _ => false,
        },
        SVal::StructVariant(n, _, k, fs) => forall|names: Seq<Seq<char>>| match #[trigger] ev(s, Hint::Enum(n, names)) {
            Ev::Enum(e) => e.variant is Some && ident(e.variant->0, k) && match e.payload {
                Payload::Opaque(id) => opaque_shows(id, v),
                Payload::Val(o, en) => o is Some && forall|fields: Seq<Seq<char>>| shown_struct(#[trigger] ev(o->0, Hint::Struct(en, fields)), fs),
                Payload::Buf(o) => match o {
                    Some(GC::Map(g)) => shown_fields(Ev::Map(bufmap(g)), fs),
                    _ => false,
                },
            },
            _ => false,
        },
    }
}
/// The format's own way of presenting a variant's content (typetag does not come near it).
pub uninterp spec fn opaque_shows(id: int, v: SVal) -> bool;
pub open spec fn shown_seq(e: Ev, xs: Seq<SVal>) -> bool
    decreases xs
{ e matches Ev::Seq(y) && y.len() == xs.len() && forall|i: int| 0 <= i < xs.len() ==> shown(#[trigger] y[i], xs[i]) }
pub open spec fn shown_map(e: Ev, es: Seq<(SVal, SVal)>) -> bool
    decreases es
{ e matches Ev::Map(m) && m.pend is None && m.rest.len() == es.len() && forall|i: int| 0 <= i < es.len() ==> shown((#[trigger] m.rest[i]).0, es[i].0) && shown(m.rest[i].1, es[i].1) }
pub open spec fn shown_fields(e: Ev, fs: Seq<(Seq<char>, SVal)>) -> bool
    decreases fs, 0nat
{ e matches Ev::Map(m) && m.pend is None && m.rest.len() == fs.len() && forall|i: int| 0 <= i < fs.len() ==> ident((#[trigger] m.rest[i]).0, fs[i].0) && shown(m.rest[i].1, fs[i].1) }
/// Formats that know a struct's fields by their order present a sequence.
pub open spec fn shown_struct(e: Ev, fs: Seq<(Seq<char>, SVal)>) -> bool
    decreases fs, 1nat
{ shown_fields(e, fs) || shown_items(e, fs) }
pub open spec fn shown_items(e: Ev, fs: Seq<(Seq<char>, SVal)>) -> bool
    decreases fs, 0nat
{ e matches Ev::Seq(y) && y.len() == fs.len() && forall|i: int| 0 <= i < fs.len() ==> shown(#[trigger] y[i], fs[i].1) }
pub open spec fn faithful_seq(e: Ev, xs: Seq<SVal>) -> bool
    decreases xs, 0nat
{ e matches Ev::Seq(y) && y.len() == xs.len() && forall|i: int| 0 <= i < xs.len() ==> faithful(#[trigger] y[i], xs[i]) }
pub open spec fn faithful_map(e: Ev, es: Seq<(SVal, SVal)>) -> bool
    decreases es, 0nat
{ e matches Ev::Map(m) && m.pend is None && m.rest.len() == es.len() && forall|i: int| 0 <= i < es.len() ==> faithful((#[trigger] m.rest[i]).0, es[i].0) && faithful(m.rest[i].1, es[i].1) }
pub open spec fn faithful_fields(e: Ev, fs: Seq<(Seq<char>, SVal)>) -> bool
    decreases fs, 0nat
{ e matches Ev::Map(m) && m.pend is None && m.rest.len() == fs.len() && forall|i: int| 0 <= i < fs.len() ==> name_src((#[trigger] m.rest[i]).0, fs[i].0) && faithful(m.rest[i].1, fs[i].1) }

// ---- a self-describing format's presentation of `v`
/// Asked for whatever is there.
pub open spec fn natural_ev(e: Ev, v: SVal) -> bool
    decreases v, 0nat
{
    match v {
        SVal::Fail => false,
        SVal::Bool(x) => e == Ev::Bool(x),
        SVal::I8(x) => int_of(e) == Some(x as int), SVal::I16(x) => int_of(e) == Some(x as int), SVal::I32(x) => int_of(e) == Some(x as int),
        SVal::I64(x) => int_of(e) == Some(x as int), SVal::I128(x) => int_of(e) == Some(x as int),
        SVal::U8(x) => int_of(e) == Some(x as int), SVal::U16(x) => int_of(e) == Some(x as int), SVal::U32(x) => int_of(e) == Some(x as int),
        SVal::U64(x) => int_of(e) == Some(x as int), SVal::U128(x) => int_of(e) == Some(x as int),
        SVal::F32(x) => f32_of(e, x),
        SVal::F64(x) => f64_of(e, x),
        SVal::Char(c) => str_of(e) == Some(Seq::<char>::empty().push(c)),
        SVal::Str(t) => is_str(e, t),
        SVal::Bytes(b) => any_bytes(e, b),
        SVal::None => e is None || e is Unit,
        // a format may leave `Some` and newtypes away, but not sometimes
        SVal::Some(x) => (e matches Ev::Some(y) && faithful(y, *x)) || (!(e is Some) && !(e is None) && !(e is Unit) && natural_ev(e, *x)),
        SVal::NewtypeStruct(_, x) => (e matches Ev::Newtype(y) && faithful(y, *x)) || (!(e is Newtype) && natural_ev(e, *x)),
        SVal::Unit => e is Unit,
        SVal::UnitStruct(_) => e is Unit,
        SVal::Seq(xs) => faithful_seq(e, xs),
        SVal::Tuple(xs) => faithful_seq(e, xs),
        SVal::TupleStruct(_, xs) => faithful_seq(e, xs),
        SVal::Map(es) => faithful_map(e, es),
        SVal::Struct(_, fs) => faithful_fields(e, fs),
        SVal::UnitVariant(_, _, k) => is_str(e, k),
        SVal::NewtypeVariant(_, _, k, x) => entry1(e, k) && faithful(value1(e), *x),
        SVal::TupleVariant(_, _, k, xs) => entry1(e, k) && faithful_seq(ev(value1(e), Hint::Any), xs),
        SVal::StructVariant(_, _, k, fs) => entry1(e, k) && faithful_fields(ev(value1(e), Hint::Any), fs),
    }
}
pub open spec fn entry1(e: Ev, k: Seq<char>) -> bool { e matches Ev::Map(m) && m.pend is None && m.rest.len() == 1 && name_src(m.rest[0].0, k) }
pub open spec fn value1(e: Ev) -> Src { match e { Ev::Map(m) => m.rest[0].1, _ => Src::Nothing } }
/// A string, however it is asked for.
pub open spec fn name_src(s: Src, k: Seq<char>) -> bool {
    is_str(ev(s, Hint::Any), k) && is_str(ev(s, Hint::Str), k) && is_str(ev(s, Hint::String), k) && ident(s, k)
}
/// Asked for its own kind, or for a kind that differs in name only.
pub open spec fn faithful(s: Src, v: SVal) -> bool
    decreases v, 1nat
{
    shown(s, v) && natural_ev(ev(s, Hint::Any), v) && match v {
        SVal::Str(t) => name_src(s, t),
        SVal::Tuple(xs) => shown_seq(ev(s, Hint::Seq), xs),
        SVal::TupleStruct(_, xs) => forall|n: usize| n == xs.len() ==> shown_seq(#[trigger] ev(s, Hint::Tuple(n)), xs),
        SVal::Map(es) => faithful_map(ev(s, Hint::Map), es),
        SVal::Struct(_, fs) => forall|n: Seq<char>, names: Seq<Seq<char>>| faithful_fields(#[trigger] ev(s, Hint::Struct(n, names)), fs),
        _ => true,
    }
}

// ---- a buffered value is presented as it was
pub proof fn lemma_buffered(e: Ev, c: GC, v: SVal)
    requires natural_ev(e, v), cap_ev(e, c)
    ensures shown(Src::Buf(c), v)
    decreases v, 0nat
{
    match v {
        SVal::Some(x) => {
            if let Ev::Some(y) = e { lemma_rebuffered(y, *c->Some_0, *x); } else { lemma_buffered(e, c, *x); }
        }
        SVal::NewtypeStruct(n, x) => {
            assert(ev(Src::Buf(c), Hint::NewtypeStruct(n)) == buf_ev(c, Hint::NewtypeStruct(n)));
            if let Ev::Newtype(y) = e { lemma_rebuffered(y, *c->Newtype_0, *x); } else { lemma_buffered(e, c, *x); }
        }
        SVal::Bytes(b) => {
            if let Ev::Seq(y) = e {
                let g = c->Seq_0;
                assert forall|i: int| 0 <= i < b.len() implies int_of(ev(#[trigger] bufs(g)[i], Hint::U8)) == Some(b[i] as int) by {
                    assert(captured(y[i], g[i]));
                    assert(int_any(y[i]) == Some(b[i] as int));
                }
            }
        }
        SVal::Seq(xs) => { lemma_items(e, c, xs); }
        SVal::Tuple(xs) => { lemma_items(e, c, xs); }
        SVal::TupleStruct(k, xs) => { lemma_items(e, c, xs); }
        SVal::Map(es) => { lemma_entries(e, c, es); }
        SVal::Struct(n, fs) => {
            lemma_fields(e, c, fs);
            assert(shown_struct(Ev::Map(bufmap(c->Map_0)), fs));
        }
        SVal::UnitVariant(n, _, k) => {}
        SVal::NewtypeVariant(n, _, k, x) => {
            lemma_entry(e, c, k);
            lemma_rebuffered(value1(e), c->Map_0[0].1, *x);
        }
        SVal::TupleVariant(n, _, k, xs) => {
            lemma_entry(e, c, k);
            lemma_items(ev(value1(e), Hint::Any), c->Map_0[0].1, xs);
        }
        SVal::StructVariant(n, _, k, fs) => {
            lemma_entry(e, c, k);
            lemma_fields(ev(value1(e), Hint::Any), c->Map_0[0].1, fs);
        }
        _ => {}
    }
}
pub proof fn lemma_rebuffered(s: Src, c: GC, v: SVal)
    requires faithful(s, v), captured(s, c)
    ensures shown(Src::Buf(c), v)
    decreases v, 1nat
{
    lemma_captured(s, c);
    lemma_buffered(ev(s, Hint::Any), c, v);
}
/// A buffered string is one.
pub proof fn lemma_name(s: Src, c: GC, k: Seq<char>)
    requires is_str(ev(s, Hint::Any), k), captured(s, c)
    ensures c matches GC::Str(t, _) && t == k, ident(Src::Buf(c), k)
{ }
pub proof fn lemma_entry(e: Ev, c: GC, k: Seq<char>)
    requires entry1(e, k), cap_ev(e, c)
    ensures
        c is Map, c->Map_0.len() == 1, ident(Src::Buf(c->Map_0[0].0), k), captured(value1(e), c->Map_0[0].1),
        cap_ev(ev(value1(e), Hint::Any), c->Map_0[0].1),
{
    let m = e->Map_0; let g = c->Map_0;
    assert(captured_map(m.rest, g));
    assert(captured(m.rest[0].0, g[0].0) && captured(m.rest[0].1, g[0].1));
    lemma_name(m.rest[0].0, g[0].0, k);
    lemma_captured(value1(e), g[0].1);
}
pub proof fn lemma_items(e: Ev, c: GC, xs: Seq<SVal>)
    requires faithful_seq(e, xs), cap_ev(e, c)
    ensures c is Seq, shown_seq(Ev::Seq(bufs(c->Seq_0)), xs)
    decreases xs, 2nat
{
    let y = e->Seq_0; let g = c->Seq_0;
    assert(captured_seq(y, g));
    assert forall|i: int| 0 <= i < xs.len() implies shown(#[trigger] bufs(g)[i], xs[i]) by {
        assert(faithful(y[i], xs[i]));
        lemma_rebuffered(y[i], g[i], xs[i]);
    }
}
pub proof fn lemma_entries(e: Ev, c: GC, es: Seq<(SVal, SVal)>)
    requires faithful_map(e, es), cap_ev(e, c)
    ensures c is Map, shown_map(Ev::Map(bufmap(c->Map_0)), es)
    decreases es, 2nat
{
    let m = e->Map_0; let g = c->Map_0;
    assert(captured_map(m.rest, g));
    assert forall|i: int| 0 <= i < es.len() implies shown((#[trigger] bufmap(g).rest[i]).0, es[i].0) && shown(bufmap(g).rest[i].1, es[i].1) by {
        assert(faithful(m.rest[i].0, es[i].0) && faithful(m.rest[i].1, es[i].1));
        lemma_rebuffered(m.rest[i].0, g[i].0, es[i].0);
        lemma_rebuffered(m.rest[i].1, g[i].1, es[i].1);
    }
}
pub proof fn lemma_fields(e: Ev, c: GC, fs: Seq<(Seq<char>, SVal)>)
    requires faithful_fields(e, fs), cap_ev(e, c)
    ensures c is Map, shown_fields(Ev::Map(bufmap(c->Map_0)), fs)
    decreases fs, 2nat
{
    let m = e->Map_0; let g = c->Map_0;
    assert(captured_map(m.rest, g));
    assert forall|i: int| 0 <= i < fs.len() implies ident((#[trigger] bufmap(g).rest[i]).0, fs[i].0) && shown(bufmap(g).rest[i].1, fs[i].1) by {
        assert(name_src(m.rest[i].0, fs[i].0) && faithful(m.rest[i].1, fs[i].1));
        lemma_name(m.rest[i].0, g[i].0, fs[i].0);
        lemma_rebuffered(m.rest[i].1, g[i].1, fs[i].1);
    }
}

// ---- and buffering it does not fail
pub open spec fn uncap_ev_n(e: Ev, n: nat) -> bool {
    match e {
        Ev::Refuse(_) => true,
        Ev::Enum(_) => true,
        Ev::Some(x) => uncap_n(x, n),
        Ev::Newtype(x) => uncap_n(x, n),
        Ev::Seq(x) => exists|i: int| 0 <= i < x.len() && uncap_n(#[trigger] x[i], n),
        Ev::Map(x) => exists|i: int| 0 <= i < x.rest.len() && (uncap_n((#[trigger] x.rest[i]).0, n) || uncap_n(x.rest[i].1, n)),
        _ => false,
    }
}
pub proof fn lemma_bufferable_ev(e: Ev, v: SVal, n: nat)
    requires natural_ev(e, v)
    ensures !uncap_ev_n(e, n)
    decreases v, 0nat
{
    match v {
        SVal::Some(x) => { if let Ev::Some(y) = e { lemma_bufferable(y, *x, n); } else { lemma_bufferable_ev(e, *x, n); } }
        SVal::NewtypeStruct(_, x) => { if let Ev::Newtype(y) = e { lemma_bufferable(y, *x, n); } else { lemma_bufferable_ev(e, *x, n); } }
        SVal::Bytes(b) => {
            if let Ev::Seq(y) = e {
                assert forall|i: int| 0 <= i < y.len() implies !uncap_n(#[trigger] y[i], n) by { assert(int_any(y[i]) == Some(b[i] as int)); }
            }
        }
        SVal::Seq(xs) => { lemma_bufferable_seq(e, xs, n); }
        SVal::Tuple(xs) => { lemma_bufferable_seq(e, xs, n); }
        SVal::TupleStruct(_, xs) => { lemma_bufferable_seq(e, xs, n); }
        SVal::Map(es) => { lemma_bufferable_map(e, es, n); }
        SVal::Struct(_, fs) => { lemma_bufferable_fields(e, fs, n); }
        SVal::NewtypeVariant(_, _, k, x) => { lemma_bufferable_entry(e, k, n); lemma_bufferable(value1(e), *x, n); }
        SVal::TupleVariant(_, _, k, xs) => {
            lemma_bufferable_entry(e, k, n);
            if n > 0 { lemma_bufferable_seq(ev(value1(e), Hint::Any), xs, (n - 1) as nat); }
        }
        SVal::StructVariant(_, _, k, fs) => {
            lemma_bufferable_entry(e, k, n);
            if n > 0 { lemma_bufferable_fields(ev(value1(e), Hint::Any), fs, (n - 1) as nat); }
        }
        _ => {}
    }
}
pub proof fn lemma_bufferable_entry(e: Ev, k: Seq<char>, n: nat)
    requires entry1(e, k)
    ensures uncap_ev_n(e, n) ==> uncap_n(value1(e), n)
{
    let m = e->Map_0;
    assert(!uncap_n(m.rest[0].0, n));
}
pub proof fn lemma_bufferable(s: Src, v: SVal, n: nat)
    requires faithful(s, v)
    ensures !uncap_n(s, n)
    decreases v, 1nat
{
    if n > 0 { lemma_bufferable_ev(ev(s, Hint::Any), v, (n - 1) as nat); }
}
pub proof fn lemma_bufferable_seq(e: Ev, xs: Seq<SVal>, n: nat)
    requires faithful_seq(e, xs)
    ensures !uncap_ev_n(e, n)
    decreases xs, 2nat
{
    let y = e->Seq_0;
    assert forall|i: int| 0 <= i < y.len() implies !uncap_n(#[trigger] y[i], n) by { assert(faithful(y[i], xs[i])); lemma_bufferable(y[i], xs[i], n); }
}
pub proof fn lemma_bufferable_map(e: Ev, es: Seq<(SVal, SVal)>, n: nat)
    requires faithful_map(e, es)
    ensures !uncap_ev_n(e, n)
    decreases es, 2nat
{
    let m = e->Map_0;
    assert forall|i: int| 0 <= i < m.rest.len() implies !uncap_n((#[trigger] m.rest[i]).0, n) && !uncap_n(m.rest[i].1, n) by {
        assert(faithful(m.rest[i].0, es[i].0) && faithful(m.rest[i].1, es[i].1));
        lemma_bufferable(m.rest[i].0, es[i].0, n);
        lemma_bufferable(m.rest[i].1, es[i].1, n);
    }
}
pub proof fn lemma_bufferable_fields(e: Ev, fs: Seq<(Seq<char>, SVal)>, n: nat)
    requires faithful_fields(e, fs)
    ensures !uncap_ev_n(e, n)
    decreases fs, 2nat
{
    let m = e->Map_0;
    assert forall|i: int| 0 <= i < m.rest.len() implies !uncap_n((#[trigger] m.rest[i]).0, n) && !uncap_n(m.rest[i].1, n) by {
        assert(name_src(m.rest[i].0, fs[i].0) && faithful(m.rest[i].1, fs[i].1));
        lemma_bufferable(m.rest[i].1, fs[i].1, n);
    }
}
pub proof fn lemma_no_uncap(s: Src, v: SVal)
    requires faithful(s, v)
    ensures !uncap(s)
{
    if uncap(s) { let n = choose|n: nat| uncap_n(s, n); lemma_bufferable(s, v, n); }
}

// ---- seen through the wrappers of typetag
/// As `shown`, also when asked for a tuple, or a struct of another name.
pub open spec fn akin(s: Src, v: SVal) -> bool {
    shown(s, v) && match v {
        SVal::TupleStruct(_, xs) => forall|n: usize| n == xs.len() ==> shown_seq(#[trigger] ev(s, Hint::Tuple(n)), xs),
        SVal::Struct(_, fs) => forall|n: Seq<char>, names: Seq<Seq<char>>| shown_struct(#[trigger] ev(s, Hint::Struct(n, names)), fs),
        _ => true,
    }
}
pub proof fn lemma_faithful_fields(e: Ev, fs: Seq<(Seq<char>, SVal)>)
    requires faithful_fields(e, fs)
    ensures shown_struct(e, fs)
{
    assert forall|i: int| 0 <= i < fs.len() implies ident((#[trigger] e->Map_0.rest[i]).0, fs[i].0) && shown(e->Map_0.rest[i].1, fs[i].1) by {
        assert(name_src(e->Map_0.rest[i].0, fs[i].0) && faithful(e->Map_0.rest[i].1, fs[i].1));
    }
}
pub proof fn lemma_akin(s: Src, v: SVal)
    requires faithful(s, v)
    ensures akin(s, v)
{
    if let SVal::Struct(_, fs) = v {
        assert forall|n: Seq<char>, names: Seq<Seq<char>>| shown_struct(#[trigger] ev(s, Hint::Struct(n, names)), fs) by {
            lemma_faithful_fields(ev(s, Hint::Struct(n, names)), fs);
        }
    }
}
pub proof fn lemma_akin_buffered(s: Src, c: GC, v: SVal)
    requires faithful(s, v), captured(s, c)
    ensures akin(Src::Buf(c), v)
{
    lemma_rebuffered(s, c, v);
    lemma_captured(s, c);
    match v {
        SVal::TupleStruct(_, xs) => { lemma_items(ev(s, Hint::Any), c, xs); }
        SVal::Struct(_, fs) => { lemma_fields(ev(s, Hint::Any), c, fs); }
        _ => {}
    }
}
pub proof fn lemma_val(s: Src, v: SVal)
    requires shown(s, v)
    ensures shown(Src::Val(Box::new(s)), v)
{
    let w = Src::Val(Box::new(s));
    assert forall|h: Hint| #[trigger] ev(w, h) == ev(s, h) by {}
}

/// The entries besides the tag that an internally tagged value is written as.
pub open spec fn entries(tag: Seq<char>, v: SVal) -> Seq<(SVal, SVal)>
    decreases v
{
    match v {
        SVal::Map(es) => es,
        SVal::Struct(_, fs) => strip(fs, tag),
        SVal::None => Seq::empty(),
        SVal::Unit => Seq::empty(),
        SVal::UnitStruct(_) => Seq::empty(),
        SVal::UnitVariant(_, _, k) => one((SVal::Str(k), SVal::Unit)),
        SVal::NewtypeVariant(_, _, k, x) => one((SVal::Str(k), *x)),
        SVal::TupleVariant(_, _, k, s) => one((SVal::Str(k), SVal::TupleStruct(k, s))),
        SVal::StructVariant(_, _, k, s) => one((SVal::Str(k), SVal::Struct(k, s))),
        SVal::Some(x) => one((SVal::Str("value"@), *x)),
        SVal::NewtypeStruct(_, x) => entries(tag, *x),
        _ => one((SVal::Str("value"@), v)),
    }
}
pub proof fn lemma_shape(tag: Seq<char>, name: Seq<char>, v: SVal)
    ensures its_shape(tag, name, v) == SVal::Map(cons(tag_entry(tag, name), entries(tag, v)))
    decreases v
{
    if let SVal::NewtypeStruct(_, x) = v { lemma_shape(tag, name, *x); }
}
/// Keys are strings, and none is the tag's (documented limits of internal tagging).
pub open spec fn apart(tag: Seq<char>, v: SVal) -> bool
    decreases v
{
    match v {
        SVal::Map(es) => forall|i: int| 0 <= i < es.len() ==> ((#[trigger] es[i]).0 matches SVal::Str(k) && k != tag),
        SVal::Struct(_, fs) => forall|i: int| 0 <= i < fs.len() ==> (#[trigger] fs[i]).0 != tag,
        SVal::NewtypeStruct(_, x) => apart(tag, *x),
        SVal::None => true,
        SVal::Unit => true,
        SVal::UnitStruct(_) => true,
        SVal::UnitVariant(_, _, k) => k != tag,
        SVal::NewtypeVariant(_, _, k, _) => k != tag,
        SVal::TupleVariant(_, _, k, _) => k != tag,
        SVal::StructVariant(_, _, k, _) => k != tag,
        _ => "value"@ != tag,
    }
}
pub open spec fn entry_of(f: (Seq<char>, SVal)) -> (SVal, SVal) { (SVal::Str(f.0), f.1) }
pub proof fn lemma_strip(fs: Seq<(Seq<char>, SVal)>, tag: Seq<char>)
    requires forall|i: int| 0 <= i < fs.len() ==> (#[trigger] fs[i]).0 != tag
    ensures strip(fs, tag).len() == fs.len(), forall|i: int| 0 <= i < fs.len() ==> #[trigger] strip(fs, tag)[i] == entry_of(fs[i])
    decreases fs.len()
{
    if fs.len() > 0 {
        let t = fs.drop_first();
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).0 != tag by { assert(t[i] == fs[i + 1]); }
        lemma_strip(t, tag);
        lemma_cons((SVal::Str(fs[0].0), fs[0].1), strip(t, tag));
        assert forall|i: int| 0 <= i < fs.len() implies #[trigger] strip(fs, tag)[i] == entry_of(fs[i]) by {
            if i > 0 { assert(strip(fs, tag)[i] == strip(t, tag)[i - 1]); assert(t[i - 1] == fs[i]); }
        }
    }
}
/// Entries are keyed by strings, none of them the tag.
pub proof fn lemma_keys(tag: Seq<char>, v: SVal, i: int)
    requires apart(tag, v), 0 <= i < entries(tag, v).len()
    ensures entries(tag, v)[i].0 matches SVal::Str(k) && k != tag
    decreases v
{
    match v {
        SVal::NewtypeStruct(_, x) => { lemma_keys(tag, *x, i); }
        SVal::Struct(_, fs) => { lemma_strip(fs, tag); assert(strip(fs, tag)[i] == entry_of(fs[i])); }
        SVal::Map(es) => { assert(es[i].0 is Str); }
        _ => {}
    }
}
/// These entries present those, keys being asked for as strings.
pub open spec fn akin_entries(m: Seq<(Src, Src)>, es: Seq<(SVal, SVal)>) -> bool {
    m.len() == es.len() && forall|i: int| 0 <= i < es.len() ==> akin((#[trigger] m[i]).0, es[i].0) && akin(m[i].1, es[i].1)
}
/// The rest of an internally tagged object, handed to the concrete type.
pub open spec fn rest_of(m: Seq<(Src, Src)>) -> Src { Src::Keyed(Box::new(MapSrc { pend: None, rest: m })) }
pub proof fn lemma_keyed_shows(m: Seq<(Src, Src)>, tag: Seq<char>, v: SVal)
    requires akin_entries(m, entries(tag, v)), apart(tag, v), shape_ok(v)
    ensures shown(rest_of(m), v)
    decreases v
{
    match v {
        SVal::NewtypeStruct(n, x) => { lemma_keyed_shows(m, tag, *x); }
        SVal::Map(es) => { lemma_map_shows(m, tag, es); }
        SVal::Struct(n, fs) => { lemma_struct_shows(m, tag, n, fs); }
        SVal::None => {}
        SVal::Unit => {}
        SVal::UnitStruct(n) => {}
        SVal::UnitVariant(_, _, _) => { lemma_variant_shows(m, tag, v); }
        SVal::NewtypeVariant(_, _, _, _) => { lemma_variant_shows(m, tag, v); }
        SVal::TupleVariant(_, _, _, _) => { lemma_variant_shows(m, tag, v); }
        SVal::StructVariant(_, _, _, _) => { lemma_variant_shows(m, tag, v); }
        _ => { lemma_value_shows(m, tag, v); }
    }
}
/// Not a failure to begin with.
pub open spec fn shape_ok(v: SVal) -> bool
    decreases v
{ match v { SVal::Fail => false, SVal::NewtypeStruct(_, x) => shape_ok(*x), _ => true } }
proof fn lemma_map_shows(m: Seq<(Src, Src)>, tag: Seq<char>, es: Seq<(SVal, SVal)>)
    requires akin_entries(m, es), apart(tag, SVal::Map(es))
    ensures shown(rest_of(m), SVal::Map(es))
{
    let k = keyed(MapSrc { pend: None, rest: m });
    let s = rest_of(m);
    assert forall|i: int| 0 <= i < es.len() implies shown((#[trigger] k.rest[i]).0, es[i].0) && shown(k.rest[i].1, es[i].1) by {
        assert(akin(m[i].0, es[i].0) && akin(m[i].1, es[i].1));
        assert(k.rest[i] == (Src::StrKey(Box::new(m[i].0)), m[i].1));
        lemma_str_key(m[i].0, es[i].0->Str_0);
    }
    assert(shown_map(Ev::Map(k), es));
}
proof fn lemma_str_key(s: Src, t: Seq<char>)
    requires shown(s, SVal::Str(t))
    ensures shown(Src::StrKey(Box::new(s)), SVal::Str(t))
{ }
proof fn lemma_struct_shows(m: Seq<(Src, Src)>, tag: Seq<char>, n: Seq<char>, fs: Seq<(Seq<char>, SVal)>)
    requires akin_entries(m, strip(fs, tag)), apart(tag, SVal::Struct(n, fs))
    ensures shown(rest_of(m), SVal::Struct(n, fs))
{
    let k = keyed(MapSrc { pend: None, rest: m });
    let s = rest_of(m);
    lemma_strip(fs, tag);
    assert forall|i: int| 0 <= i < fs.len() implies ident((#[trigger] k.rest[i]).0, fs[i].0) && shown(k.rest[i].1, fs[i].1) by {
        assert(strip(fs, tag)[i] == entry_of(fs[i]));
        assert(akin(m[i].0, SVal::Str(fs[i].0)) && akin(m[i].1, fs[i].1));
        assert(k.rest[i] == (Src::StrKey(Box::new(m[i].0)), m[i].1));
        lemma_str_key(m[i].0, fs[i].0);
    }
    assert(shown_fields(Ev::Map(k), fs));
    assert(shown_struct(Ev::Map(k), fs));
}
pub open spec fn is_variant(v: SVal) -> bool { v is UnitVariant || v is NewtypeVariant || v is TupleVariant || v is StructVariant }
pub open spec fn is_plain(v: SVal) -> bool {
    !is_variant(v) && !(v is NewtypeStruct) && !(v is Map) && !(v is Struct) && !(v is None) && !(v is Unit) && !(v is UnitStruct) && !(v is Fail)
}
pub proof fn lemma_variant_shows(m: Seq<(Src, Src)>, tag: Seq<char>, v: SVal)
    requires akin_entries(m, entries(tag, v)), is_variant(v)
    ensures shown(rest_of(m), v)
{
    let es = entries(tag, v);
    assert(es.len() == 1 && m.len() == 1);
    assert(akin(m[0].0, es[0].0) && akin(m[0].1, es[0].1));
    let s = rest_of(m);
    assert(es[0].0 is Str);
    assert(ident(m[0].0, es[0].0->Str_0));
    assert forall|n: Seq<char>, names: Seq<Seq<char>>| #[trigger] ev(s, Hint::Enum(n, names)) == Ev::Enum(EnumSrc { variant: Some(m[0].0), payload: Payload::Val(Some(m[0].1), n) }) by {}
    match v {
        SVal::TupleVariant(n, _, k, xs) => {
            assert(es[0].1 == SVal::TupleStruct(k, xs));
        }
        SVal::StructVariant(n, _, k, fs) => {
            assert(es[0].1 == SVal::Struct(k, fs));
            assert forall|fields: Seq<Seq<char>>| shown_struct(#[trigger] ev(m[0].1, Hint::Struct(n, fields)), fs) by {}
        }
        _ => {}
    }
}
pub proof fn lemma_value_shows(m: Seq<(Src, Src)>, tag: Seq<char>, v: SVal)
    requires akin_entries(m, entries(tag, v)), is_plain(v)
    ensures shown(rest_of(m), v)
{
    let es = entries(tag, v);
    assert(es.len() == 1 && m.len() == 1);
    assert(akin(m[0].0, es[0].0) && akin(m[0].1, es[0].1));
    let s = rest_of(m);
    assert(not_value(ev(m[0].0, Hint::Str)) is None);
    assert forall|h: Hint| !by_itself(h) implies #[trigger] ev(s, h) == ev(m[0].1, h) by {}
    if let SVal::Some(x) = v { lemma_val(m[0].1, *x); }
}
/// Requests that the rest of an object does not pass on to "value".
pub open spec fn by_itself(h: Hint) -> bool {
    h is Any || h is Map || h is Struct || h is Unit || h is UnitStruct || h is NewtypeStruct || h is Enum || h is Option || h is IgnoredAny
}

// ---- the three styles
/// What `f` makes of a source that presents `v` to it (an error if it does not use it up).
pub open spec fn remade<T: ?Sized>(f: DeserializeFn<T>, v: SVal, r: Res<Box<T>>) -> bool {
    exists|s: Src, left: int, q: Res<Box<T>>| shown(s, v) && #[trigger] applied(f, s, left, q) && (r == q || (left != 0 && used_up(left, q, r)))
}
/// `name` is registered, for this trait, as `f`.
pub open spec fn registered<T: ?Sized>(reg: Registry<T>, name: Seq<char>, f: DeserializeFn<T>) -> bool {
    reg.map.map().contains_key(name) && reg.map.map()[name] == Some(f)
}
/// `vis` was given `e` and made `r` of it; where the event must be used up,
/// entries it left are an error.
pub open spec fn met<'de, V: Visitor<'de>>(vis: V, e: Ev, r: Res<V::Value>) -> bool {
    exists|l: int, q: Res<V::Value>| #[trigger] vis.visited(e, l, q) && (r == q || used_up(l, q, r))
}
/// Whatever the source is: the format's, a part of it, or of a value typetag has buffered.
pub proof fn lemma_met<'de, V: Visitor<'de>>(vis: V, s: Src, h: Hint, left: int, r: Res<V::Value>)
    requires delivered(vis, s, h, left, r), !(ev(s, h) is Refuse)
    ensures met(vis, ev(s, h), r)
{
    let e = ev(s, h);
    if own(s, h) {
        assert(vis.visited(e, left, r));
    } else if strict(s, h) && leaves(e) {
        let (d, l2, q) = choose|d: Ev, l2: int, q: Res<V::Value>| #[trigger] vis.visited(d, l2, q) && used_up(l2, q, r) && ev_same(d, e);
        assert(d == e);
        assert(vis.visited(e, l2, q) && used_up(l2, q, r));
    } else {
        let l2 = choose|l2: int| #[trigger] vis.visited(e, l2, r);
        assert(vis.visited(e, l2, r));
    }
}

pub proof fn external<T: ?Sized>(vis: crate::externally::TaggedVisitor<T>, name: Seq<char>, v: SVal, f: DeserializeFn<T>, s: Src, left: int, r: Res<Box<T>>)
    requires
        registered(*vis.registry, name, f),
        shown(s, SVal::Map(one((SVal::Str(name), v)))),
        delivered(vis, s, Hint::Map, left, r),
    ensures remade(f, v, r)
{
    let m = ev(s, Hint::Map)->Map_0;
    let w = one((SVal::Str(name), v));
    assert(w.len() == 1 && w[0] == (SVal::Str(name), v));
    assert(shown_map(ev(s, Hint::Map), w));
    assert(shown(m.rest[0].0, w[0].0) && shown(m.rest[0].1, w[0].1));
    assert(shown(m.rest[0].0, SVal::Str(name)) && shown(m.rest[0].1, v));
    lemma_met(vis, s, Hint::Map, left, r);
    let (l2, q2) = choose|l2: int, q2: Res<Box<T>>| #[trigger] vis.visited(ev(s, Hint::Map), l2, q2) && (r == q2 || used_up(l2, q2, r));
    assert(looked_up(*vis.registry, m.rest[0].0) == Found::Fun(f));
    assert(r == q2);
    assert(reads(FnApply { deserialize_fn: f }, m.rest[0].1, r));
    let l3 = choose|l3: int| (FnApply { deserialize_fn: f }).seeded(m.rest[0].1, l3, r);
    assert(applied(f, m.rest[0].1, l3, r));
}

/// Tag and content in either order; with the tag first, any format that keeps
/// the order will do.
pub open spec fn adjacent_written(s: Src, trait_object: Seq<char>, names: Seq<Seq<char>>, name: Seq<char>, v: SVal) -> bool {
    let w = cons((names[0], SVal::Str(name)), cons((names[1], v), Seq::empty()));
    shown(s, SVal::Struct(trait_object, w)) || match ev(s, Hint::Struct(trait_object, names)) {
        Ev::Map(m) => m.rest.len() == 2 && name_src(m.rest[0].0, names[1]) && faithful(m.rest[0].1, v) && name_src(m.rest[1].0, names[0]) && name_src(m.rest[1].1, name),
        _ => false,
    }
}
pub proof fn adjacent<T: ?Sized>(vis: crate::adjacently::TaggedVisitor<T>, trait_object: Seq<char>, name: Seq<char>, v: SVal, f: DeserializeFn<T>, s: Src, left: int, r: Res<Box<T>>)
    requires
        registered(*vis.registry, name, f),
        names_of(vis.field_names@)[0] != names_of(vis.field_names@)[1],
        // struct fields are asked for as strings
        keys_are_strings(s, Hint::Struct(trait_object, names_of(vis.field_names@))),
        adjacent_written(s, trait_object, names_of(vis.field_names@), name, v),
        delivered(vis, s, Hint::Struct(trait_object, names_of(vis.field_names@)), left, r),
    ensures remade(f, v, r)
{
    let names = names_of(vis.field_names@);
    let deny = vis.deny_unknown_fields;
    let h = Hint::Struct(trait_object, names);
    let e = ev(s, h);
    let tag = (names[0], SVal::Str(name));
    let content = (names[1], v);
    let w = cons(tag, cons(content, Seq::empty()));
    assert(w.len() == 2 && w[0] == tag && w[1] == content);
    if shown(s, SVal::Struct(trait_object, w)) { assert(shown_struct(e, w)); }
    assert(e is Map || e is Seq);
    lemma_met(vis, s, h, left, r);
    let (l2, q2) = choose|l2: int, q2: Res<Box<T>>| #[trigger] vis.visited(e, l2, q2) && (r == q2 || used_up(l2, q2, r));
    adjacent_met(vis, trait_object, name, v, f, s, l2, q2);
    assert(r == q2);
}
proof fn adjacent_met<T: ?Sized>(vis: crate::adjacently::TaggedVisitor<T>, trait_object: Seq<char>, name: Seq<char>, v: SVal, f: DeserializeFn<T>, s: Src, left: int, r: Res<Box<T>>)
    requires
        registered(*vis.registry, name, f),
        names_of(vis.field_names@)[0] != names_of(vis.field_names@)[1],
        keys_are_strings(s, Hint::Struct(trait_object, names_of(vis.field_names@))),
        adjacent_written(s, trait_object, names_of(vis.field_names@), name, v),
        vis.visited(ev(s, Hint::Struct(trait_object, names_of(vis.field_names@))), left, r),
    ensures remade(f, v, r), r is Ok ==> left == 0
{
    let names = names_of(vis.field_names@);
    let deny = vis.deny_unknown_fields;
    let h = Hint::Struct(trait_object, names);
    let e = ev(s, h);
    let tag = (names[0], SVal::Str(name));
    let content = (names[1], v);
    let w = cons(tag, cons(content, Seq::empty()));
    assert(w.len() == 2 && w[0] == tag && w[1] == content);
    if shown(s, SVal::Struct(trait_object, w)) { assert(shown_struct(e, w)); }
    if let Ev::Map(m) = e {
        if shown(s, SVal::Struct(trait_object, w)) { assert(shown_fields(e, w)); }
        lemma_skip2(m.rest);
        let rest = m.rest.drop_first();
        let rest2 = rest.drop_first();
        assert(scan(rest2, names, deny) == Scan::End);
        if shown(s, SVal::Struct(trait_object, w)) {
            assert(shown_fields(e, w));
            assert(ident(m.rest[0].0, names[0]) && shown(m.rest[0].1, w[0].1));
            assert(ident(m.rest[1].0, names[1]) && shown(m.rest[1].1, w[1].1));
            assert(scan(m.rest, names, deny) == Scan::Tag(m.rest[0].1, rest));
            assert(scan(rest, names, deny) == Scan::Content(m.rest[1].1, rest2));
            assert(looked_up(*vis.registry, m.rest[0].1) == Found::Fun(f));
            assert(reads_fin(f, m.rest[1].1, rest2, names, deny, r));
            let (l3, q) = choose|l3: int, q: Res<Box<T>>| #[trigger] applied(f, m.rest[1].1, l3, q) && fin(rest2, names, deny, q, r);
            assert(applied(f, m.rest[1].1, l3, q) && r == q);
        } else {
            assert(scan(m.rest, names, deny) == Scan::Content(m.rest[0].1, rest));
            assert(scan(rest, names, deny) == Scan::Tag(m.rest[1].1, rest2));
            assert(looked_up(*vis.registry, m.rest[1].1) == Found::Fun(f));
            lemma_no_uncap(m.rest[0].1, v);
            assert(buffers_fin(f, m.rest[0].1, rest2, names, deny, r));
            let (g, q) = choose|g: GC, q: Res<Box<T>>| captured(m.rest[0].1, g) && #[trigger] applied(f, Src::Buf(g), 0, q) && fin(rest2, names, deny, q, r);
            assert(applied(f, Src::Buf(g), 0, q) && r == q);
            lemma_rebuffered(m.rest[0].1, g, v);
        }
    } else {
        let y = e->Seq_0;
        assert(shown_items(e, w));
        assert(shown(y[0], w[0].1) && shown(y[1], w[1].1));
        assert(looked_up(*vis.registry, y[0]) == Found::Fun(f));
        assert(reads(FnApply { deserialize_fn: f }, y[1], r));
        let l3 = choose|l3: int| (FnApply { deserialize_fn: f }).seeded(y[1], l3, r);
        assert(applied(f, y[1], l3, r));
    }
}
/// A struct's keys answer a request for a string as one for an identifier.
pub open spec fn keys_are_strings(s: Src, h: Hint) -> bool {
    match ev(s, h) {
        Ev::Map(m) => forall|i: int| 0 <= i < m.rest.len() ==> str_of(ev((#[trigger] m.rest[i]).0, Hint::Str)) == str_of(ev(m.rest[i].0, Hint::Identifier)),
        _ => true,
    }
}
pub proof fn lemma_skip2(s: Seq<(Src, Src)>)
    requires s.len() == 2
    ensures s.drop_first().len() == 1, s.drop_first()[0] == s[1], s.drop_first().drop_first().len() == 0
{ }

/// The written entries, the tag's at position `p`.
pub open spec fn internal_written(s: Src, tag: Seq<char>, name: Seq<char>, v: SVal, p: int) -> bool {
    match ev(s, Hint::Map) { Ev::Map(m) => entries_written(m.rest, tag, name, v, p), _ => false }
}
pub open spec fn entries_written(m: Seq<(Src, Src)>, tag: Seq<char>, name: Seq<char>, v: SVal, p: int) -> bool {
    let es = entries(tag, v);
    &&& m.len() == es.len() + 1 && 0 <= p <= es.len()
    &&& name_src(m[p].0, tag) && name_src(m[p].1, name)
    &&& forall|j: int| 0 <= j < es.len() ==> faithful((#[trigger] m[stands_at(p, j)]).0, es[j].0) && faithful(m[stands_at(p, j)].1, es[j].1)
}
proof fn lemma_tag_position(m: Seq<(Src, Src)>, tag: Seq<char>, name: Seq<char>, v: SVal, p: int)
    requires apart(tag, v), entries_written(m, tag, name, v, p)
    ensures tag_at(m, tag) == p
{
    let es = entries(tag, v);
    lemma_tag_at(m, tag);
    assert(key_of(m[p]) == Some(tag));
    assert forall|j: int| 0 <= j < p implies key_of(#[trigger] m[j]) != Some(tag) by {
        assert(stands_at(p, j) == j);
        lemma_keys(tag, v, j);
        assert(faithful(m[stands_at(p, j)].0, es[j].0));
    }
}
proof fn lemma_none_bad(m: Seq<(Src, Src)>, tag: Seq<char>, name: Seq<char>, v: SVal, p: int)
    requires apart(tag, v), entries_written(m, tag, name, v, p)
    ensures !some_bad(m, p)
{
    let es = entries(tag, v);
    assert forall|j: int| 0 <= j < m.len() && j != p implies !(#[trigger] bad_at(m, p, j)) by {
        let i = if j < p { j } else { j - 1 };
        assert(stands_at(p, i) == j);
        lemma_keys(tag, v, i);
        assert(faithful(m[stands_at(p, i)].0, es[i].0) && faithful(m[stands_at(p, i)].1, es[i].1));
        lemma_no_uncap(m[j].1, es[i].1);
    }
}
proof fn lemma_rest_first(m: Seq<(Src, Src)>, tag: Seq<char>, name: Seq<char>, v: SVal)
    requires entries_written(m, tag, name, v, 0)
    ensures akin_entries(m.skip(1), entries(tag, v))
{
    let es = entries(tag, v);
    let rest = m.skip(1);
    assert forall|i: int| 0 <= i < es.len() implies akin((#[trigger] rest[i]).0, es[i].0) && akin(rest[i].1, es[i].1) by {
        assert(rest[i] == m[stands_at(0, i)]);
        lemma_akin(rest[i].0, es[i].0);
        lemma_akin(rest[i].1, es[i].1);
    }
}
proof fn lemma_rest_later(m: Seq<(Src, Src)>, tag: Seq<char>, name: Seq<char>, v: SVal, p: int, gs: Seq<(GC, GC)>)
    requires apart(tag, v), entries_written(m, tag, name, v, p), buffered(m, p, gs), gs.len() == besides(m, p)
    ensures akin_entries(buf_entries(gs), entries(tag, v))
{
    let es = entries(tag, v);
    let rest = buf_entries(gs);
    assert forall|i: int| 0 <= i < es.len() implies akin((#[trigger] rest[i]).0, es[i].0) && akin(rest[i].1, es[i].1) by {
        let kv = m[stands_at(p, i)];
        assert(entry_cap(kv, gs[i], i >= p));
        assert(faithful(kv.0, es[i].0) && faithful(kv.1, es[i].1));
        lemma_keys(tag, v, i);
        lemma_buffered_key(kv.0, gs[i].0, es[i].0->Str_0, i >= p);
        lemma_akin_buffered(kv.1, gs[i].1, es[i].1);
    }
}
proof fn lemma_buffered_key(s: Src, g: GC, t: Seq<char>, after: bool)
    requires name_src(s, t), (if after { string_of(ev(s, Hint::String)) } else { str_of(ev(s, Hint::Str)) }) matches Some(k) && g == GC::Str(k, false)
    ensures akin(Src::Buf(g), SVal::Str(t))
{ }
pub proof fn internal<T: ?Sized>(vis: crate::internally::TaggedVisitor<T>, name: Seq<char>, v: SVal, f: DeserializeFn<T>, p: int, s: Src, left: int, r: Res<Box<T>>)
    requires
        registered(*vis.registry, name, f),
        apart(vis.tag@, v), shape_ok(v),
        internal_written(s, vis.tag@, name, v, p),
        delivered(vis, s, Hint::Map, left, r),
    ensures remade(f, v, r)
{
    let tag = vis.tag@;
    let m = ev(s, Hint::Map)->Map_0.rest;
    lemma_met(vis, s, Hint::Map, left, r);
    let (l2, q2) = choose|l2: int, q2: Res<Box<T>>| #[trigger] vis.visited(ev(s, Hint::Map), l2, q2) && (r == q2 || used_up(l2, q2, r));
    lemma_tag_position(m, tag, name, v, p);
    assert(looked_up(*vis.registry, m[p].1) == Found::Fun(f));
    if p == 0 {
        let rest = m.skip(1);
        lemma_rest_first(m, tag, name, v);
        lemma_keyed_shows(rest, tag, v);
        assert(applied(f, rest_of(rest), l2, q2));
    } else {
        lemma_none_bad(m, tag, name, v, p);
        assert(r == q2);
        assert(given_buffered(f, m, p, r));
        let (gs, l3, q) = choose|gs: Seq<(GC, GC)>, l3: int, q: Res<Box<T>>| buffered(m, p, gs) && gs.len() == besides(m, p)
            && #[trigger] applied(f, Src::Keyed(Box::new(MapSrc { pend: None, rest: buf_entries(gs) })), l3, q) && used_up(l3, q, r);
        let rest = buf_entries(gs);
        lemma_rest_later(m, tag, name, v, p, gs);
        lemma_keyed_shows(rest, tag, v);
        assert(applied(f, rest_of(rest), l3, q) && used_up(l3, q, r));
    }
}

} // verus!
