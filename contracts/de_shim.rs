pub open spec fn srv<V, E: Error>(r: Result<V, E>) -> Res<V> {
    match r { Ok(v) => Res::Ok(v), Err(e) => Res::Err(e.kind()) }
}
pub trait Expected {}
impl<T> Expected for T {}
pub enum Unexpected<'a> { Bool(bool), Unsigned(u64), Signed(i64), Float(f64), Char(char), Str(&'a str), Bytes(&'a [u8]), Unit, Option, NewtypeStruct, Seq, Map, Enum, UnitVariant, NewtypeVariant, TupleVariant, StructVariant, Other(&'a str) }

/// What a deserializer for `src` makes of a request: the visitor is given the
/// event of that request, and its result is the result. A buffered sequence or
/// map that the visitor leaves entries of is an error.
pub open spec fn delivered<'de, V: Visitor<'de>>(v: V, src: Src, hint: Hint, left: int, r: Res<V::Value>) -> bool {
    match ev(src, hint) {
        Ev::Refuse(k) => match k { Some(k) => r == Res::<V::Value>::Err(k), None => r is Err },
        e => if own(src, hint) { v.visited(e, left, r) }
            else if strict(src, hint) && leaves(e) { gave_all(v, e, r) }
            else { gave(v, e, r) },
    }
}
/// `v` was given `e` and returned `r`.
pub open spec fn gave<'de, V: Visitor<'de>>(v: V, e: Ev, r: Res<V::Value>) -> bool {
    exists|l2: int| #[trigger] v.visited(e, l2, r)
}
/// The same, where leaving entries unread is an error.
pub open spec fn gave_all<'de, V: Visitor<'de>>(v: V, e: Ev, r: Res<V::Value>) -> bool {
    exists|d: Ev, l2: int, q: Res<V::Value>| #[trigger] v.visited(d, l2, q) && used_up(l2, q, r) && ev_same(d, e)
}
/// `==`, spelled out for the prover.
pub open spec fn ev_same(d: Ev, e: Ev) -> bool {
    match (d, e) {
        (Ev::Seq(a), Ev::Seq(b)) => a =~= b,
        (Ev::Map(a), Ev::Map(b)) => a.pend == b.pend && a.rest =~= b.rest,
        _ => d == e,
    }
}
/// `seed` was given a deserializer for `src` and returned `r`.
pub open spec fn reads<'de, S: DeserializeSeed<'de>>(seed: S, src: Src, r: Res<S::Value>) -> bool {
    exists|left: int| #[trigger] seed.seeded(src, left, r)
}
pub open spec fn reads_as<'de, T: Deserialize<'de>>(src: Src, r: Res<T>) -> bool {
    exists|left: int| #[trigger] T::deser(src, left, r)
}
/// `q` with `left` entries unread.
pub open spec fn used_up<T>(left: int, q: Res<T>, r: Res<T>) -> bool {
    if q is Ok && left != 0 { r is Err } else { r == q }
}

impl<'de, T: Deserialize<'de>> DeserializeSeed<'de> for std::marker::PhantomData<T> {
    type Value = T;
    open spec fn seeded(self, src: Src, left: int, r: Res<T>) -> bool { T::deser(src, left, r) }
}
impl<'de> Deserialize<'de> for String {
    open spec fn deser(src: Src, left: int, r: Res<String>) -> bool {
        match string_of(ev(src, Hint::String)) { Some(s) => r matches Res::Ok(x) && x@ == s, None => r is Err }
    }
}
impl<'de> Deserialize<'de> for () {
    open spec fn deser(src: Src, left: int, r: Res<()>) -> bool {
        match ev(src, Hint::Unit) { Ev::Unit => r == Res::Ok(()), _ => r is Err }
    }
}
pub struct IgnoredAny {}
impl<'de> Deserialize<'de> for IgnoredAny {
    open spec fn deser(src: Src, left: int, r: Res<IgnoredAny>) -> bool { r is Err <==> unskippable(src) }
}

/// A mutable reference to an access: what is left after the borrow ends.
impl<'a, 'de, A: MapAccess<'de>> MapAccess<'de> for &'a mut A {
    type Error = A::Error;
    open spec fn msrc(&self) -> MapSrc { (**self).msrc() }
    #[verifier::prophetic] open spec fn m_left(&self) -> int { (*final(*self)).msrc().rest.len() as int }
}
impl<'a, 'de, A: SeqAccess<'de>> SeqAccess<'de> for &'a mut A {
    type Error = A::Error;
    open spec fn ssrc(&self) -> Seq<Src> { (**self).ssrc() }
    #[verifier::prophetic] open spec fn s_left(&self) -> int { (*final(*self)).ssrc().len() as int }
}

pub use crate::core_de::UnitDeserializer;
impl<'de, E: Error> IntoDeserializer<'de, E> for () {
    type Deserializer = UnitDeserializer<E>;
    open spec fn isrc(self) -> Src { Src::UnitVal }
}

// ---- contents of an enum variant
pub uninterp spec fn opaque_payload<T>(id: int, r: Res<T>) -> bool;
pub open spec fn as_unit(p: Payload, r: Res<()>) -> bool {
    match p {
        Payload::Opaque(id) => opaque_payload(id, r),
        Payload::Val(None, _) => r is Err,
        Payload::Val(Some(s), _) => reads_as::<()>(s, r),
        Payload::Buf(None) => r == Res::Ok(()),
        Payload::Buf(Some(c)) => <() as Deserialize>::deser(Src::Buf(c), 0, r),
    }
}
pub open spec fn as_newtype<'de, T: DeserializeSeed<'de>>(seed: T, p: Payload, r: Res<T::Value>) -> bool {
    match p {
        Payload::Opaque(id) => opaque_payload(id, r),
        Payload::Val(None, _) => r is Err,
        Payload::Val(Some(s), _) => reads(seed, s, r),
        Payload::Buf(None) => r is Err,
        Payload::Buf(Some(c)) => seed.seeded(Src::Buf(c), 0, r),
    }
}
pub open spec fn as_newtype_value<'de, T: Deserialize<'de>>(p: Payload, r: Res<T>) -> bool {
    match p {
        Payload::Opaque(id) => opaque_payload(id, r),
        Payload::Val(None, _) => r is Err,
        Payload::Val(Some(s), _) => reads_as::<T>(s, r),
        Payload::Buf(None) => r is Err,
        Payload::Buf(Some(c)) => T::deser(Src::Buf(c), 0, r),
    }
}
pub open spec fn as_tuple<'de, V: Visitor<'de>>(v: V, len: usize, p: Payload, r: Res<V::Value>) -> bool {
    match p {
        Payload::Opaque(id) => opaque_payload(id, r),
        Payload::Val(None, _) => r is Err,
        Payload::Val(Some(s), _) => exists|left: int| #[trigger] delivered(v, s, Hint::Tuple(len), left, r),
        Payload::Buf(Some(GC::Seq(s))) => delivered(v, Src::BufSeq(s), Hint::Any, 0, r),
        Payload::Buf(_) => r is Err,
    }
}
pub open spec fn as_struct<'de, V: Visitor<'de>>(v: V, fields: Seq<Seq<char>>, p: Payload, r: Res<V::Value>) -> bool {
    match p {
        Payload::Opaque(id) => opaque_payload(id, r),
        Payload::Val(None, _) => r is Err,
        Payload::Val(Some(s), n) => exists|left: int| #[trigger] delivered(v, s, Hint::Struct(n, fields), left, r),
        Payload::Buf(Some(GC::Map(m))) => delivered(v, Src::BufMap(Box::new(bufmap(m))), Hint::Any, 0, r),
        Payload::Buf(Some(GC::Seq(s))) => delivered(v, Src::BufSeq(s), Hint::Any, 0, r),
        Payload::Buf(_) => r is Err,
    }
}
