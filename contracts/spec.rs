use vstd::prelude::*;
verus! {

/// Where an error came from / what it says.
pub ghost enum EK {
    /// handed up by the format or by a concrete value's own code
    Foreign,
    Custom,
    InvalidType,
    InvalidValue,
    InvalidLength(int),
    UnknownVariant(Seq<char>, Seq<Seq<char>>),
    UnknownField(Seq<char>, Seq<Seq<char>>),
    MissingField(Seq<char>),
    DuplicateField(Seq<char>),
    ProbeOk,
    ProbeStr(Seq<char>),
    ProbeKind,
}

pub ghost enum Res<V> { Ok(V), Err(EK) }

pub open spec fn foreign<V>(r: Res<V>) -> bool { r matches Res::Err(EK::Foreign) }
pub open spec fn is_custom(k: EK) -> bool { k is Custom || k is ProbeKind }

pub open spec fn cons<T>(x: T, s: Seq<T>) -> Seq<T> { Seq::empty().push(x) + s }

/// A value of the serde data model, as a Serialize implementation writes it.
/// `Fail` is the point where it reports an error.
pub ghost enum SVal {
    Fail,
    Bool(bool),
    I8(i8), I16(i16), I32(i32), I64(i64), I128(i128),
    U8(u8), U16(u16), U32(u32), U64(u64), U128(u128),
    F32(f32), F64(f64),
    Char(char),
    Str(Seq<char>),
    Bytes(Seq<u8>),
    None,
    Some(Box<SVal>),
    Unit,
    UnitStruct(Seq<char>),
    UnitVariant(Seq<char>, u32, Seq<char>),
    NewtypeStruct(Seq<char>, Box<SVal>),
    NewtypeVariant(Seq<char>, u32, Seq<char>, Box<SVal>),
    Seq(Seq<SVal>),
    Tuple(Seq<SVal>),
    TupleStruct(Seq<char>, Seq<SVal>),
    TupleVariant(Seq<char>, u32, Seq<char>, Seq<SVal>),
    Map(Seq<(SVal, SVal)>),
    Struct(Seq<char>, Seq<(Seq<char>, SVal)>),
    StructVariant(Seq<char>, u32, Seq<char>, Seq<(Seq<char>, SVal)>),
}

/// Some part of the value reports an error.
pub open spec fn has_fail(v: SVal) -> bool
    decreases v
{
    match v {
        SVal::Fail => true,
        SVal::Some(x) => has_fail(*x),
        SVal::NewtypeStruct(_, x) => has_fail(*x),
        SVal::NewtypeVariant(_, _, _, x) => has_fail(*x),
        SVal::Seq(s) => exists|i: int| 0 <= i < s.len() && has_fail(#[trigger] s[i]),
        SVal::Tuple(s) => exists|i: int| 0 <= i < s.len() && has_fail(#[trigger] s[i]),
        SVal::TupleStruct(_, s) => exists|i: int| 0 <= i < s.len() && has_fail(#[trigger] s[i]),
        SVal::TupleVariant(_, _, _, s) => exists|i: int| 0 <= i < s.len() && has_fail(#[trigger] s[i]),
        SVal::Map(s) => exists|i: int| 0 <= i < s.len() && (has_fail((#[trigger] s[i]).0) || has_fail(s[i].1)),
        SVal::Struct(_, s) => exists|i: int| 0 <= i < s.len() && has_fail((#[trigger] s[i]).1),
        SVal::StructVariant(_, _, _, s) => exists|i: int| 0 <= i < s.len() && has_fail((#[trigger] s[i]).1),
        _ => false,
    }
}
pub open spec fn any_fail(s: Seq<SVal>) -> bool { exists|i: int| 0 <= i < s.len() && has_fail(#[trigger] s[i]) }
pub open spec fn any_fail2(s: Seq<(SVal, SVal)>) -> bool { exists|i: int| 0 <= i < s.len() && (has_fail((#[trigger] s[i]).0) || has_fail(s[i].1)) }
pub open spec fn any_fail1(s: Seq<(Seq<char>, SVal)>) -> bool { exists|i: int| 0 <= i < s.len() && has_fail((#[trigger] s[i]).1) }

// ---- C04: the value of a field named like the tag
/// The string a value is, looking through some and newtype structs.
pub open spec fn str_like(v: SVal) -> Option<Seq<char>>
    decreases v
{
    match v {
        SVal::Str(s) => Some(s),
        SVal::Char(c) => Some(Seq::empty().push(c)),
        SVal::Some(x) => str_like(*x),
        SVal::NewtypeStruct(_, x) => str_like(*x),
        _ => None,
    }
}
pub open spec fn probe_kind(v: SVal, expected: Seq<char>) -> EK {
    match str_like(v) {
        Some(s) => if s == expected { EK::ProbeOk } else { EK::ProbeStr(s) },
        None => EK::ProbeKind,
    }
}

// ---- C02: shape of internally tagged output
pub open spec fn tag_entry(tag: Seq<char>, variant: Seq<char>) -> (SVal, SVal) { (SVal::Str(tag), SVal::Str(variant)) }
/// Fields as map entries, the tag's own field left out.
pub open spec fn strip(fs: Seq<(Seq<char>, SVal)>, tag: Seq<char>) -> Seq<(SVal, SVal)>
    decreases fs.len()
{
    if fs.len() == 0 { Seq::empty() }
    else {
        let t = strip(fs.drop_first(), tag);
        if fs[0].0 == tag { t } else { cons((SVal::Str(fs[0].0), fs[0].1), t) }
    }
}
pub open spec fn disagrees(fs: Seq<(Seq<char>, SVal)>, tag: Seq<char>, variant: Seq<char>) -> bool {
    exists|i: int| 0 <= i < fs.len() && (#[trigger] fs[i]).0 == tag && str_like(fs[i].1) != Some(variant)
}
pub open spec fn its_rejects(tag: Seq<char>, variant: Seq<char>, v: SVal) -> bool
    decreases v
{
    match v {
        SVal::Struct(_, fs) => disagrees(fs, tag, variant),
        SVal::NewtypeStruct(_, x) => its_rejects(tag, variant, *x),
        _ => false,
    }
}
pub open spec fn one(x: (SVal, SVal)) -> Seq<(SVal, SVal)> { cons(x, Seq::empty()) }
pub open spec fn two(x: (SVal, SVal), y: (SVal, SVal)) -> Seq<(SVal, SVal)> { cons(x, cons(y, Seq::empty())) }
pub open spec fn its_shape(tag: Seq<char>, variant: Seq<char>, v: SVal) -> SVal
    decreases v
{
    let t = tag_entry(tag, variant);
    match v {
        SVal::Map(es) => SVal::Map(cons(t, es)),
        SVal::Struct(_, fs) => SVal::Map(cons(t, strip(fs, tag))),
        SVal::None => SVal::Map(one(t)),
        SVal::Unit => SVal::Map(one(t)),
        SVal::UnitStruct(_) => SVal::Map(one(t)),
        SVal::UnitVariant(_, _, k) => SVal::Map(two(t, (SVal::Str(k), SVal::Unit))),
        SVal::NewtypeVariant(_, _, k, x) => SVal::Map(two(t, (SVal::Str(k), *x))),
        SVal::TupleVariant(_, _, k, s) => SVal::Map(two(t, (SVal::Str(k), SVal::TupleStruct(k, s)))),
        SVal::StructVariant(_, _, k, s) => SVal::Map(two(t, (SVal::Str(k), SVal::Struct(k, s)))),
        SVal::Some(x) => SVal::Map(two(t, (SVal::Str("value"@), *x))),
        SVal::NewtypeStruct(_, x) => its_shape(tag, variant, *x),
        _ => SVal::Map(two(t, (SVal::Str("value"@), v))),
    }
}
pub open spec fn its_out_err(tag: Seq<char>, variant: Seq<char>, v: SVal) -> bool {
    has_fail(v) || its_rejects(tag, variant, v)
}

pub open spec fn dec(r: Option<int>) -> Option<int> {
    match r { Some(n) => Some(n - 1), None => None }
}
pub open spec fn room_ok(r: Option<int>) -> bool { match r { Some(n) => n > 0, None => true } }
pub open spec fn room_end(r: Option<int>) -> bool { match r { Some(n) => n == 0, None => true } }
pub open spec fn room_is(r: Option<int>, n: int) -> bool { match r { Some(m) => m == n, None => true } }
pub open spec fn room_hint(r: Option<int>, n: Option<usize>) -> bool {
    match n { Some(n) => room_is(r, n as int), None => r is None }
}

// ---------------------------------------------------------------- reading

/// What a type asks its deserializer for.
pub ghost enum Hint {
    Any, Bool, I8, I16, I32, I64, I128, U8, U16, U32, U64, U128, F32, F64, Char, Str, String,
    Bytes, ByteBuf, Option, Unit, UnitStruct(Seq<char>), NewtypeStruct(Seq<char>), Seq, Tuple(usize),
    TupleStruct(Seq<char>, usize), Map, Struct(Seq<char>, Seq<Seq<char>>), Enum(Seq<char>, Seq<Seq<char>>),
    Identifier, IgnoredAny,
}

pub ghost enum Own { Transient, Borrowed, Owned }

/// One visitor call: what a deserializer presents.
pub ghost enum Ev {
    /// the request cannot be answered: an error (of this kind), no visitor call
    Refuse(Option<EK>),
    Bool(bool), I8(i8), I16(i16), I32(i32), I64(i64), I128(i128), U8(u8), U16(u16), U32(u32), U64(u64), U128(u128),
    F32(f32), F64(f64), Char(char),
    Str(Seq<char>, Own), Bytes(Seq<u8>, Own),
    None, Some(Src), Unit, Newtype(Src), Seq(Seq<Src>), Map(MapSrc), Enum(EnumSrc),
}

/// A buffered value.
pub ghost enum GC {
    Bool(bool), I8(i8), I16(i16), I32(i32), I64(i64), I128(i128), U8(u8), U16(u16), U32(u32), U64(u64), U128(u128),
    F32(f32), F64(f64), Char(char), Str(Seq<char>, bool), Bytes(Seq<u8>, bool),
    None, Some(Box<GC>), Unit, Newtype(Box<GC>), Seq(Seq<GC>), Map(Seq<(GC, GC)>),
}

/// An input value, identified by how it can be read.
pub ghost enum Src {
    /// a value of the format (or of any other deserializer typetag knows nothing about)
    Opaque(int),
    /// a map key, always asked for as a string
    StrKey(Box<Src>),
    /// the remaining entries of an internally tagged object
    Keyed(Box<MapSrc>),
    /// the value of the entry whose key was just read
    Val(Box<Src>),
    /// a buffered value
    Buf(GC),
    /// the content of a buffered tuple or struct variant
    BufSeq(Seq<GC>),
    BufMap(Box<MapSrc>),
    /// `()` as a deserializer
    UnitVal,
    /// the value of an entry that is not there
    Nothing,
}
pub ghost struct MapSrc { pub pend: Option<Box<Src>>, pub rest: Seq<(Src, Src)> }
pub ghost struct EnumSrc { pub variant: Option<Src>, pub payload: Payload }
pub ghost enum Payload { Opaque(int), Val(Option<Src>, Seq<char>), Buf(Option<GC>) }

pub uninterp spec fn ev_opaque(id: int, hint: Hint) -> Ev;

/// `Opaque` numbers stand for what an unknown deserializer answers.
pub open spec fn str_of(e: Ev) -> Option<Seq<char>> {
    match e { Ev::Str(s, _) => Some(s), Ev::Char(c) => Some(Seq::empty().push(c)), _ => None }
}
pub uninterp spec fn utf8(b: Seq<u8>) -> Option<Seq<char>>;
/// What serde's String makes of an event.
pub open spec fn string_of(e: Ev) -> Option<Seq<char>> {
    match e { Ev::Bytes(b, _) => utf8(b), _ => str_of(e) }
}

pub open spec fn bufs(s: Seq<GC>) -> Seq<Src> { Seq::new(s.len(), |i: int| Src::Buf(s[i])) }
pub open spec fn buf_entries(s: Seq<(GC, GC)>) -> Seq<(Src, Src)> { Seq::new(s.len(), |i: int| (Src::Buf(s[i].0), Src::Buf(s[i].1))) }
pub open spec fn bufmap(s: Seq<(GC, GC)>) -> MapSrc { MapSrc { pend: None, rest: buf_entries(s) } }
pub open spec fn keyed(m: MapSrc) -> MapSrc {
    MapSrc { pend: m.pend, rest: Seq::new(m.rest.len(), |i: int| (Src::StrKey(Box::new(m.rest[i].0)), m.rest[i].1)) }
}

/// The buffered value as it stands.
pub open spec fn natural(c: GC) -> Ev {
    match c {
        GC::Bool(x) => Ev::Bool(x),
        GC::I8(x) => Ev::I8(x), GC::I16(x) => Ev::I16(x), GC::I32(x) => Ev::I32(x), GC::I64(x) => Ev::I64(x), GC::I128(x) => Ev::I128(x),
        GC::U8(x) => Ev::U8(x), GC::U16(x) => Ev::U16(x), GC::U32(x) => Ev::U32(x), GC::U64(x) => Ev::U64(x), GC::U128(x) => Ev::U128(x),
        GC::F32(x) => Ev::F32(x), GC::F64(x) => Ev::F64(x),
        GC::Char(x) => Ev::Char(x),
        GC::Str(s, b) => Ev::Str(s, if b { Own::Borrowed } else { Own::Owned }),
        GC::Bytes(s, b) => Ev::Bytes(s, if b { Own::Borrowed } else { Own::Owned }),
        GC::None => Ev::None,
        GC::Some(x) => Ev::Some(Src::Buf(*x)),
        GC::Unit => Ev::Unit,
        GC::Newtype(x) => Ev::Newtype(Src::Buf(*x)),
        GC::Seq(s) => Ev::Seq(bufs(s)),
        GC::Map(s) => Ev::Map(bufmap(s)),
    }
}
pub open spec fn is_int64(c: GC) -> bool {
    c is I8 || c is I16 || c is I32 || c is I64 || c is U8 || c is U16 || c is U32 || c is U64
}
/// How a buffered value answers a request: its own kind, or a type error.
pub open spec fn buf_ev(c: GC, hint: Hint) -> Ev {
    match hint {
        Hint::Any => natural(c),
        Hint::Bool => if c is Bool { natural(c) } else { Ev::Refuse(Some(EK::InvalidType)) },
        Hint::I8 | Hint::I16 | Hint::I32 | Hint::I64 | Hint::I128 | Hint::U8 | Hint::U16 | Hint::U32 | Hint::U64 | Hint::U128 =>
            if is_int64(c) || c is I128 || c is U128 { natural(c) } else { Ev::Refuse(Some(EK::InvalidType)) },
        Hint::F32 | Hint::F64 => if is_int64(c) || c is F32 || c is F64 { natural(c) } else { Ev::Refuse(Some(EK::InvalidType)) },
        Hint::Char => if c is Char || c is Str { natural(c) } else { Ev::Refuse(Some(EK::InvalidType)) },
        Hint::Str | Hint::String => if c is Str || c is Bytes { natural(c) } else { Ev::Refuse(Some(EK::InvalidType)) },
        Hint::Bytes | Hint::ByteBuf => if c is Str || c is Bytes || c is Seq { natural(c) } else { Ev::Refuse(Some(EK::InvalidType)) },
        Hint::Option => if c is None || c is Some || c is Unit { natural(c) } else { Ev::Some(Src::Buf(c)) },
        Hint::Unit => if c is Unit { natural(c) } else { Ev::Refuse(Some(EK::InvalidType)) },
        Hint::UnitStruct(_) => match c { GC::Map(s) if s.len() == 0 => Ev::Unit, _ => natural(c) },
        Hint::NewtypeStruct(_) => if c is Newtype { natural(c) } else { Ev::Newtype(Src::Buf(c)) },
        Hint::Seq | Hint::Tuple(_) | Hint::TupleStruct(_, _) => if c is Seq { natural(c) } else { Ev::Refuse(Some(EK::InvalidType)) },
        Hint::Map => if c is Map { natural(c) } else { Ev::Refuse(Some(EK::InvalidType)) },
        Hint::Struct(_, _) => if c is Seq || c is Map { natural(c) } else { Ev::Refuse(Some(EK::InvalidType)) },
        Hint::Enum(_, _) => match c {
            GC::Map(s) => if s.len() == 1 {
                Ev::Enum(EnumSrc { variant: Some(Src::Buf(s[0].0)), payload: Payload::Buf(Some(s[0].1)) })
            } else { Ev::Refuse(None) },
            GC::Str(_, _) => Ev::Enum(EnumSrc { variant: Some(Src::Buf(c)), payload: Payload::Buf(None) }),
            _ => Ev::Refuse(Some(EK::InvalidType)),
        },
        Hint::Identifier => if c is Str || c is Bytes || c is U8 || c is U64 { natural(c) } else { Ev::Refuse(Some(EK::InvalidType)) },
        Hint::IgnoredAny => Ev::Unit,
    }
}

/// Skipping this value fails.
pub uninterp spec fn unskippable(src: Src) -> bool;
/// What reading the rest of an internally tagged object does on each request.
pub open spec fn wants_entries(h: Hint) -> bool { h is Any || h is Map || h is Struct }
pub open spec fn value_key() -> Seq<char> { "value"@ }
/// The answer when the next key, presented as `e`, is not "value".
pub open spec fn not_value(e: Ev) -> Option<Ev> {
    match str_of(e) {
        Some(s) => if s == value_key() { None } else { Some(Ev::Refuse(Some(EK::UnknownField(s, one_name(value_key()))))) },
        None => Some(Ev::Refuse(None)),
    }
}
pub open spec fn one_name(s: Seq<char>) -> Seq<Seq<char>> { Seq::empty().push(s) }
pub open spec fn after_key(m: MapSrc) -> MapSrc { MapSrc { pend: Some(Box::new(m.rest[0].1)), rest: m.rest.drop_first() } }
pub open spec fn after_value(m: MapSrc) -> MapSrc { MapSrc { pend: None, rest: m.rest } }
/// A whole entry was read: with no value outstanding before, none is outstanding after.
pub open spec fn after_entry(m: MapSrc, n: MapSrc) -> bool { n.rest == m.rest.drop_first() && (m.pend is None ==> n.pend is None) }

/// The event a source presents on a request.
pub open spec fn ev(s: Src, hint: Hint) -> Ev
    decreases s
{
    match s {
        Src::Opaque(id) => ev_opaque(id, hint),
        Src::StrKey(k) => ev(*k, Hint::Str),
        Src::Val(v) => ev(*v, hint),
        Src::Buf(c) => buf_ev(c, hint),
        Src::BufSeq(s) => Ev::Seq(bufs(s)),
        Src::BufMap(m) => Ev::Map(*m),
        Src::UnitVal => if hint is Option { Ev::None } else { Ev::Unit },
        Src::Nothing => Ev::Refuse(None),
        Src::Keyed(m) => match hint {
            Hint::Any | Hint::Map | Hint::Struct(_, _) => Ev::Map(keyed(*m)),
            Hint::Unit | Hint::UnitStruct(_) => Ev::Unit,
            Hint::NewtypeStruct(_) => Ev::Newtype(s),
            Hint::Enum(n, _) => Ev::Enum(EnumSrc {
                variant: if m.rest.len() > 0 { Some(m.rest[0].0) } else { None },
                payload: Payload::Val(if m.rest.len() > 0 { Some(m.rest[0].1) } else { None }, n),
            }),
            Hint::Option => if m.rest.len() == 0 { Ev::None } else {
                match not_value(ev(m.rest[0].0, Hint::Str)) { None => Ev::Some(Src::Val(Box::new(m.rest[0].1))), Some(e) => e }
            },
            Hint::IgnoredAny => if m.rest.len() == 0 { Ev::Unit } else {
                match not_value(ev(m.rest[0].0, Hint::Str)) { None => if unskippable(m.rest[0].1) { Ev::Refuse(None) } else { Ev::Unit }, Some(e) => e }
            },
            _ => if m.rest.len() == 0 { Ev::Refuse(Some(EK::MissingField(value_key()))) } else {
                match not_value(ev(m.rest[0].0, Hint::Str)) { None => ev(m.rest[0].1, hint), Some(e) => e }
            },
        },
    }
}
/// There is a value to be read: asking for one out of turn is a panic in serde's own accesses.
pub open spec fn there(s: Src) -> bool
    decreases s
{ match s { Src::Nothing => false, Src::StrKey(k) => there(*k), _ => true } }
pub open spec fn holds(p: Payload) -> bool { match p { Payload::Val(o, _) => o is Some, _ => true } }
/// The reader of this event must use it up: what it leaves is an error.
pub open spec fn strict(s: Src, hint: Hint) -> bool
    decreases s
{
    match s {
        Src::StrKey(k) => strict(*k, Hint::Str),
        Src::Val(v) => strict(*v, hint) && !own(*v, hint),
        Src::Buf(_) => true,
        Src::BufSeq(_) => true,
        Src::BufMap(_) => true,
        Src::Keyed(m) => match hint {
            Hint::Any | Hint::Map | Hint::Struct(_, _) | Hint::Unit | Hint::UnitStruct(_) | Hint::NewtypeStruct(_) | Hint::Enum(_, _) | Hint::Option | Hint::IgnoredAny => false,
            _ => m.rest.len() > 0 && strict(m.rest[0].1, hint) && !own(m.rest[0].1, hint),
        },
        _ => false,
    }
}
/// What the reader leaves of this event is what is left of the source.
pub open spec fn own(s: Src, hint: Hint) -> bool
    decreases s
{
    match s {
        Src::StrKey(k) => own(*k, Hint::Str),
        Src::Keyed(m) => match hint {
            Hint::Any | Hint::Map | Hint::Struct(_, _) | Hint::NewtypeStruct(_) => true,
            _ => false,
        },
        _ => false,
    }
}
pub open spec fn leaves(e: Ev) -> bool { e is Seq || e is Map }

// ---- buffering
pub open spec fn cap_own(o: Own, b: bool) -> bool { b == (o is Borrowed) }
/// Reading `s` as any value and buffering it gives `c`.
pub open spec fn captured(s: Src, c: GC) -> bool
    decreases c
{
    match (ev(s, Hint::Any), c) {
        (Ev::Bool(x), GC::Bool(y)) => x == y,
        (Ev::I8(x), GC::I8(y)) => x == y,
        (Ev::I16(x), GC::I16(y)) => x == y,
        (Ev::I32(x), GC::I32(y)) => x == y,
        (Ev::I64(x), GC::I64(y)) => x == y,
        (Ev::I128(x), GC::I128(y)) => x == y,
        (Ev::U8(x), GC::U8(y)) => x == y,
        (Ev::U16(x), GC::U16(y)) => x == y,
        (Ev::U32(x), GC::U32(y)) => x == y,
        (Ev::U64(x), GC::U64(y)) => x == y,
        (Ev::U128(x), GC::U128(y)) => x == y,
        (Ev::F32(x), GC::F32(y)) => x == y,
        (Ev::F64(x), GC::F64(y)) => x == y,
        (Ev::Char(x), GC::Char(y)) => x == y,
        (Ev::Str(x, o), GC::Str(y, b)) => x == y && cap_own(o, b),
        (Ev::Bytes(x, o), GC::Bytes(y, b)) => x == y && cap_own(o, b),
        (Ev::None, GC::None) => true,
        (Ev::Some(x), GC::Some(y)) => captured(x, *y),
        (Ev::Unit, GC::Unit) => true,
        (Ev::Newtype(x), GC::Newtype(y)) => captured(x, *y),
        (Ev::Seq(x), GC::Seq(y)) => x.len() == y.len() && forall|i: int| 0 <= i < y.len() ==> captured(x[i], #[trigger] y[i]),
        (Ev::Map(x), GC::Map(y)) => x.rest.len() == y.len() && forall|i: int| 0 <= i < y.len() ==>
            captured(x.rest[i].0, (#[trigger] y[i]).0) && captured(x.rest[i].1, y[i].1),
        _ => false,
    }
}
/// Event `e` buffers as `c`.
pub open spec fn cap_ev(e: Ev, c: GC) -> bool {
    match (e, c) {
        (Ev::Bool(x), GC::Bool(y)) => x == y,
        (Ev::I8(x), GC::I8(y)) => x == y,
        (Ev::I16(x), GC::I16(y)) => x == y,
        (Ev::I32(x), GC::I32(y)) => x == y,
        (Ev::I64(x), GC::I64(y)) => x == y,
        (Ev::I128(x), GC::I128(y)) => x == y,
        (Ev::U8(x), GC::U8(y)) => x == y,
        (Ev::U16(x), GC::U16(y)) => x == y,
        (Ev::U32(x), GC::U32(y)) => x == y,
        (Ev::U64(x), GC::U64(y)) => x == y,
        (Ev::U128(x), GC::U128(y)) => x == y,
        (Ev::F32(x), GC::F32(y)) => x == y,
        (Ev::F64(x), GC::F64(y)) => x == y,
        (Ev::Char(x), GC::Char(y)) => x == y,
        (Ev::Str(x, o), GC::Str(y, b)) => x == y && cap_own(o, b),
        (Ev::Bytes(x, o), GC::Bytes(y, b)) => x == y && cap_own(o, b),
        (Ev::None, GC::None) => true,
        (Ev::Some(x), GC::Some(y)) => captured(x, *y),
        (Ev::Unit, GC::Unit) => true,
        (Ev::Newtype(x), GC::Newtype(y)) => captured(x, *y),
        (Ev::Seq(x), GC::Seq(y)) => captured_seq(x, y),
        (Ev::Map(x), GC::Map(y)) => captured_map(x.rest, y),
        _ => false,
    }
}
pub open spec fn captured_seq(x: Seq<Src>, y: Seq<GC>) -> bool {
    x.len() == y.len() && forall|i: int| 0 <= i < y.len() ==> captured(x[i], #[trigger] y[i])
}
pub open spec fn captured_map(x: Seq<(Src, Src)>, y: Seq<(GC, GC)>) -> bool {
    x.len() == y.len() && forall|i: int| 0 <= i < y.len() ==> captured(x[i].0, (#[trigger] y[i]).0) && captured(x[i].1, y[i].1)
}
pub broadcast proof fn lemma_captured(s: Src, c: GC)
    ensures captured(s, c) == #[trigger] cap_ev(ev(s, Hint::Any), c)
{ }
/// Something in `s`, at most `n` levels deep, has no buffered form.
pub open spec fn uncap_n(s: Src, n: nat) -> bool
    decreases n
{
    n > 0 && match ev(s, Hint::Any) {
        Ev::Refuse(_) => true,
        Ev::Enum(_) => true,
        Ev::Some(x) => uncap_n(x, (n - 1) as nat),
        Ev::Newtype(x) => uncap_n(x, (n - 1) as nat),
        Ev::Seq(x) => exists|i: int| 0 <= i < x.len() && uncap_n(#[trigger] x[i], (n - 1) as nat),
        Ev::Map(x) => exists|i: int| 0 <= i < x.rest.len() && (uncap_n((#[trigger] x.rest[i]).0, (n - 1) as nat) || uncap_n(x.rest[i].1, (n - 1) as nat)),
        _ => false,
    }
}
pub open spec fn uncap(s: Src) -> bool { exists|n: nat| #[trigger] uncap_n(s, n) }
pub open spec fn uncap_seq(x: Seq<Src>) -> bool { exists|i: int| 0 <= i < x.len() && uncap(#[trigger] x[i]) }
pub open spec fn uncap_map(x: Seq<(Src, Src)>) -> bool { exists|i: int| 0 <= i < x.len() && (uncap((#[trigger] x[i]).0) || uncap(x[i].1)) }
pub open spec fn uncap_ev(e: Ev) -> bool {
    match e {
        Ev::Refuse(_) => true,
        Ev::Enum(_) => true,
        Ev::Some(x) => uncap(x),
        Ev::Newtype(x) => uncap(x),
        Ev::Seq(x) => uncap_seq(x),
        Ev::Map(x) => uncap_map(x.rest),
        _ => false,
    }
}
pub broadcast proof fn lemma_uncap(s: Src)
    ensures #[trigger] uncap_ev(ev(s, Hint::Any)) ==> uncap(s)
{
    let e = ev(s, Hint::Any);
    if uncap_ev(e) {
        match e {
            Ev::Refuse(_) => { assert(uncap_n(s, 1)); }
            Ev::Enum(_) => { assert(uncap_n(s, 1)); }
            Ev::Some(x) => { let n = choose|n: nat| uncap_n(x, n); assert(uncap_n(s, n + 1)); }
            Ev::Newtype(x) => { let n = choose|n: nat| uncap_n(x, n); assert(uncap_n(s, n + 1)); }
            Ev::Seq(x) => {
                let i = choose|i: int| 0 <= i < x.len() && uncap(#[trigger] x[i]);
                let n = choose|n: nat| uncap_n(x[i], n);
                assert(uncap_n(s, n + 1));
            }
            Ev::Map(x) => {
                let i = choose|i: int| 0 <= i < x.rest.len() && (uncap((#[trigger] x.rest[i]).0) || uncap(x.rest[i].1));
                let n = if uncap(x.rest[i].0) { choose|n: nat| uncap_n(x.rest[i].0, n) } else { choose|n: nat| uncap_n(x.rest[i].1, n) };
                assert(uncap_n(s, n + 1));
            }
            _ => {}
        }
    }
}

pub open spec fn names_of(s: Seq<&'static str>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }

// ---- lemmas
pub broadcast proof fn lemma_one_name(s: Seq<&'static str>)
    requires s.len() == 1
    ensures #[trigger] names_of(s) == one_name(s[0]@)
{ assert(names_of(s) =~= one_name(s[0]@)); }
pub broadcast proof fn lemma_cons<T>(x: T, s: Seq<T>)
    ensures
        (#[trigger] cons(x, s)).len() == s.len() + 1,
        cons(x, s)[0] == x,
        cons(x, s).drop_first() == s,
        forall|i: int| 0 <= i < s.len() ==> cons(x, s)[i + 1] == #[trigger] s[i],
        forall|i: int| 0 < i <= s.len() ==> #[trigger] cons(x, s)[i] == s[i - 1],
{
    assert(cons(x, s).drop_first() =~= s);
    assert forall|i: int| 0 <= i < s.len() implies cons(x, s)[i + 1] == #[trigger] s[i] by {
        assert(cons(x, s)[i + 1] == s[i]);
    }
}
pub broadcast proof fn lemma_push_cons<T>(a: Seq<T>, x: T, s: Seq<T>)
    ensures #[trigger] (a.push(x) + s) == a + cons(x, s)
{
    assert(a.push(x) + s =~= a + cons(x, s));
}
pub broadcast proof fn lemma_add_empty<T>(a: Seq<T>)
    ensures #[trigger] (a + Seq::<T>::empty()) == a
{
    assert(a + Seq::<T>::empty() =~= a);
}
pub broadcast proof fn lemma_empty_add<T>(a: Seq<T>, b: Seq<T>)
    requires a.len() == 0
    ensures #[trigger] (a + b) == b
{
    assert(a + b =~= b);
}
pub broadcast proof fn lemma_disagrees_cons(x: (Seq<char>, SVal), s: Seq<(Seq<char>, SVal)>, tag: Seq<char>, variant: Seq<char>)
    ensures #[trigger] disagrees(cons(x, s), tag, variant) == ((x.0 == tag && str_like(x.1) != Some(variant)) || disagrees(s, tag, variant))
{
    lemma_cons(x, s);
    let c = cons(x, s);
    if disagrees(s, tag, variant) {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == tag && str_like(s[i].1) != Some(variant);
        assert(c[i + 1] == s[i]);
    }
    if x.0 == tag && str_like(x.1) != Some(variant) { assert(c[0] == x); }
    if disagrees(c, tag, variant) {
        let i = choose|i: int| 0 <= i < c.len() && (#[trigger] c[i]).0 == tag && str_like(c[i].1) != Some(variant);
        if i > 0 { assert(c[i] == s[i - 1]); }
    }
}
pub broadcast proof fn lemma_any_fail_cons(x: SVal, s: Seq<SVal>)
    ensures #[trigger] any_fail(cons(x, s)) == (has_fail(x) || any_fail(s))
{
    lemma_cons(x, s);
    let c = cons(x, s);
    if any_fail(s) {
        let i = choose|i: int| 0 <= i < s.len() && has_fail(#[trigger] s[i]);
        assert(c[i + 1] == s[i]);
    }
    if has_fail(x) { assert(c[0] == x); }
    if any_fail(c) {
        let i = choose|i: int| 0 <= i < c.len() && has_fail(#[trigger] c[i]);
        if i > 0 { assert(c[i] == s[i - 1]); }
    }
}
pub broadcast proof fn lemma_any_fail2_cons(x: (SVal, SVal), s: Seq<(SVal, SVal)>)
    ensures #[trigger] any_fail2(cons(x, s)) == (has_fail(x.0) || has_fail(x.1) || any_fail2(s))
{
    lemma_cons(x, s);
    let c = cons(x, s);
    if any_fail2(s) {
        let i = choose|i: int| 0 <= i < s.len() && (has_fail((#[trigger] s[i]).0) || has_fail(s[i].1));
        assert(c[i + 1] == s[i]);
    }
    if has_fail(x.0) || has_fail(x.1) { assert(c[0] == x); }
    if any_fail2(c) {
        let i = choose|i: int| 0 <= i < c.len() && (has_fail((#[trigger] c[i]).0) || has_fail(c[i].1));
        if i > 0 { assert(c[i] == s[i - 1]); }
    }
}
pub broadcast proof fn lemma_any_fail1_cons(x: (Seq<char>, SVal), s: Seq<(Seq<char>, SVal)>)
    ensures #[trigger] any_fail1(cons(x, s)) == (has_fail(x.1) || any_fail1(s))
{
    lemma_cons(x, s);
    let c = cons(x, s);
    if any_fail1(s) {
        let i = choose|i: int| 0 <= i < s.len() && has_fail((#[trigger] s[i]).1);
        assert(c[i + 1] == s[i]);
    }
    if has_fail(x.1) { assert(c[0] == x); }
    if any_fail1(c) {
        let i = choose|i: int| 0 <= i < c.len() && has_fail((#[trigger] c[i]).1);
        if i > 0 { assert(c[i] == s[i - 1]); }
    }
}
pub broadcast proof fn lemma_skip0<T>(s: Seq<T>, n: int)
    requires 0 <= n < s.len()
    ensures #[trigger] s.skip(n).drop_first() == s.skip(n + 1)
{
    assert(s.skip(n).drop_first() =~= s.skip(n + 1));
}
pub broadcast proof fn lemma_keyed(m: MapSrc)
    ensures
        (#[trigger] keyed(m)).pend == m.pend,
        keyed(m).rest.len() == m.rest.len(),
        m.rest.len() > 0 ==> keyed(m).rest[0] == (Src::StrKey(Box::new(m.rest[0].0)), m.rest[0].1),
{
}
pub broadcast proof fn lemma_keyed_key(m: MapSrc)
    requires m.rest.len() > 0
    ensures #[trigger] keyed(after_key(m)) == after_key(keyed(m))
{
    assert(keyed(after_key(m)).rest =~= after_key(keyed(m)).rest);
}
pub broadcast proof fn lemma_keyed_value(m: MapSrc)
    ensures #[trigger] keyed(after_value(m)) == after_value(keyed(m))
{
    assert(keyed(after_value(m)).rest =~= after_value(keyed(m)).rest);
}
pub broadcast proof fn lemma_len0<T>(s: Seq<T>)
    requires #[trigger] s.len() == 0
    ensures s == Seq::<T>::empty()
{
    assert(s =~= Seq::<T>::empty());
}

/// Names a value in a contract, so that its definition is used.
pub open spec fn seen(v: SVal) -> bool { true }

pub broadcast proof fn lemma_hf_Seq(s: Seq<SVal>)
    ensures #[trigger] has_fail(SVal::Seq(s)) == any_fail(s)
{ }
pub broadcast proof fn lemma_hf_Tuple(s: Seq<SVal>)
    ensures #[trigger] has_fail(SVal::Tuple(s)) == any_fail(s)
{ }
pub broadcast proof fn lemma_hf_TupleStruct(n: Seq<char>, s: Seq<SVal>)
    ensures #[trigger] has_fail(SVal::TupleStruct(n, s)) == any_fail(s)
{ }
pub broadcast proof fn lemma_hf_TupleVariant(n: Seq<char>, i: u32, v: Seq<char>, s: Seq<SVal>)
    ensures #[trigger] has_fail(SVal::TupleVariant(n, i, v, s)) == any_fail(s)
{ }
pub broadcast proof fn lemma_hf_Map(s: Seq<(SVal, SVal)>)
    ensures #[trigger] has_fail(SVal::Map(s)) == any_fail2(s)
{ }
pub broadcast proof fn lemma_hf_Struct(n: Seq<char>, s: Seq<(Seq<char>, SVal)>)
    ensures #[trigger] has_fail(SVal::Struct(n, s)) == any_fail1(s)
{ }
pub broadcast proof fn lemma_hf_StructVariant(n: Seq<char>, i: u32, v: Seq<char>, s: Seq<(Seq<char>, SVal)>)
    ensures #[trigger] has_fail(SVal::StructVariant(n, i, v, s)) == any_fail1(s)
{ }

pub broadcast group group_typetag {
    lemma_hf_Seq,
    lemma_hf_Tuple,
    lemma_hf_TupleStruct,
    lemma_hf_TupleVariant,
    lemma_hf_Map,
    lemma_hf_Struct,
    lemma_hf_StructVariant,

    lemma_cons,
    lemma_push_cons,
    lemma_add_empty,
    lemma_empty_add,
    lemma_disagrees_cons,
    lemma_any_fail_cons,
    lemma_any_fail2_cons,
    lemma_any_fail1_cons,
    lemma_len0,
    lemma_keyed,
    lemma_keyed_key,
    lemma_keyed_value,
    lemma_skip0,
}

} // verus!
