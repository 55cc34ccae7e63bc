// What every deserializing type of typetag promises.

@extra private
pub use crate::shim::DeserializeFn;
/// What the registry says about a name.
pub open spec fn lookup<T: ?Sized>(reg: Registry<T>, key: Seq<char>) -> Res<DeserializeFn<T>> {
    if reg.map.map().contains_key(key) {
        match reg.map.map()[key] { Some(f) => Res::Ok(f), None => Res::Err(EK::Custom) }
    } else { Res::Err(EK::UnknownVariant(key, names_of(reg.names@))) }
}
/// Looking up the tag that `src` holds.
pub open spec fn looked_up<T: ?Sized>(reg: Registry<T>, src: Src) -> Found<DeserializeFn<T>> {
    match str_of(ev(src, Hint::Str)) { Some(s) => looked_up_name(reg, s), None => Found::Bad(None) }
}
pub open spec fn looked_up_name<T: ?Sized>(reg: Registry<T>, name: Seq<char>) -> Found<DeserializeFn<T>> {
    match lookup(reg, name) { Res::Ok(f) => Found::Fun(f), Res::Err(k) => Found::Bad(Some(k)) }
}
/// A registered function, or an error (of a known kind).
pub ghost enum Found<F> { Fun(F), Bad(Option<EK>) }
pub open spec fn fails<V>(k: Option<EK>, r: Res<V>) -> bool { match k { Some(k) => r == Res::<V>::Err(k), None => r is Err } }
@end
@spec de::MapLookupVisitor as DeserializeSeed
    open spec fn seeded(self, src: Src, left: int, r: Res<Self::Value>) -> bool { crate::serde::de::delivered(self, src, Hint::Str, left, r) }
@end
@spec de::MapLookupVisitor as Visitor
    open spec fn visited(self, e: Ev, left: int, r: Res<DeserializeFn<T>>) -> bool {
        match str_of(e) { Some(s) => r == crate::private::lookup(*self.registry, s), None => r is Err }
    }
@end
@spec de::FnApply as DeserializeSeed
    open spec fn seeded(self, src: Src, left: int, r: Res<Box<T>>) -> bool { applied(self.deserialize_fn, src, left, r) }
@end

// ---- externally tagged
@spec externally::TaggedVisitor as Visitor
    open spec fn visited(self, e: Ev, left: int, r: Res<Box<T>>) -> bool {
        match e {
            Ev::Map(m) => if m.rest.len() == 0 { r is Err } else {
                match crate::private::looked_up(*self.registry, m.rest[0].0) {
                    crate::private::Found::Bad(k) => crate::private::fails(k, r),
                    crate::private::Found::Fun(f) => crate::serde::de::reads(FnApply { deserialize_fn: f }, m.rest[0].1, r) && (r is Ok ==> 0 <= left < m.rest.len()),
                }
            },
            _ => r is Err,
        }
    }
@end
@fn externally::deserialize
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || crate::serde::de::delivered(TaggedVisitor { trait_object: $2, registry: $3 }, $1.src(), Hint::Map, $1.d_left(), crate::serde::de::srv(r))
@end

// ---- internally tagged
@extra internally/lemmas
pub open spec fn key_of(kv: (Src, Src)) -> Option<Seq<char>> { str_of(ev(kv.0, Hint::Str)) }
/// Index of the first entry whose key is the tag (the length if none is).
pub open spec fn tag_from(rest: Seq<(Src, Src)>, tag: Seq<char>, i: int) -> int
    decreases rest.len() - i
{
    if i < 0 || i >= rest.len() { rest.len() as int }
    else if key_of(rest[i]) == Some(tag) { i }
    else { tag_from(rest, tag, i + 1) }
}
#[verifier::opaque]
pub open spec fn tag_at(rest: Seq<(Src, Src)>, tag: Seq<char>) -> int { tag_from(rest, tag, 0) }
proof fn lemma_tag_from(rest: Seq<(Src, Src)>, tag: Seq<char>, i: int)
    requires 0 <= i <= rest.len()
    ensures ({
        let n = tag_from(rest, tag, i);
        &&& i <= n <= rest.len()
        &&& forall|j: int| i <= j < n ==> key_of(#[trigger] rest[j]) != Some(tag)
        &&& n < rest.len() ==> key_of(rest[n]) == Some(tag)
    }),
    decreases rest.len() - i
{
    if i < rest.len() && key_of(rest[i]) != Some(tag) { lemma_tag_from(rest, tag, i + 1); }
}
pub broadcast proof fn lemma_tag_at(rest: Seq<(Src, Src)>, tag: Seq<char>)
    ensures
        0 <= #[trigger] tag_at(rest, tag) <= rest.len(),
        forall|j: int| 0 <= j < tag_at(rest, tag) ==> key_of(#[trigger] rest[j]) != Some(tag),
        tag_at(rest, tag) < rest.len() ==> key_of(rest[tag_at(rest, tag)]) == Some(tag),
{ reveal(tag_at); lemma_tag_from(rest, tag, 0); }
/// The string an entry's key is read as: before the tag is found by visiting a
/// string, after it by reading a String.
pub open spec fn key_read(kv: (Src, Src), after: bool) -> Option<Seq<char>> {
    if after { string_of(ev(kv.0, Hint::String)) } else { key_of(kv) }
}
/// This entry cannot be buffered.
pub open spec fn bad_entry(kv: (Src, Src), after: bool) -> bool { key_read(kv, after) is None || uncap(kv.1) }
pub open spec fn some_bad(rest: Seq<(Src, Src)>, n: int) -> bool { exists|j: int| 0 <= j < rest.len() && j != n && #[trigger] bad_at(rest, n, j) }
/// Names a position in a contract, so that the prover considers it.
pub open spec fn considered(b: bool) -> bool { true }
pub open spec fn bad_at(rest: Seq<(Src, Src)>, n: int, j: int) -> bool { bad_entry(rest[j], j > n) }
/// This entry buffers as `g`.
pub open spec fn entry_cap(kv: (Src, Src), g: (GC, GC), after: bool) -> bool {
    match key_read(kv, after) { Some(s) => g.0 == GC::Str(s, false) && captured(kv.1, g.1), None => false }
}
/// Where the `j`th buffered entry stands.
pub open spec fn stands_at(n: int, j: int) -> int { if j < n { j } else { j + 1 } }
/// `gs` are the first entries besides the tag, in order.
pub open spec fn buffered(rest: Seq<(Src, Src)>, n: int, gs: Seq<(GC, GC)>) -> bool {
    &&& gs.len() <= rest.len()
    &&& gs.len() > n ==> gs.len() < rest.len()
    &&& forall|j: int| 0 <= j < gs.len() ==> entry_cap(rest[stands_at(n, j)], #[trigger] gs[j], j >= n)
}
/// How many entries there are besides the tag.
pub open spec fn besides(rest: Seq<(Src, Src)>, n: int) -> int { if n < rest.len() { rest.len() - 1 } else { rest.len() as int } }
/// `f` is given the buffered entries, and must use them up.
pub open spec fn given_buffered<T: ?Sized>(f: DeserializeFn<T>, rest: Seq<(Src, Src)>, n: int, r: Res<Box<T>>) -> bool {
    exists|gs: Seq<(GC, GC)>, l2: int, q: Res<Box<T>>| buffered(rest, n, gs) && gs.len() == besides(rest, n)
        && #[trigger] applied(f, Src::Keyed(Box::new(MapSrc { pend: None, rest: buf_entries(gs) })), l2, q) && crate::serde::de::used_up(l2, q, r)
}
@end
@bcast internally
crate::internally_lemmas::lemma_tag_at
crate::spec::lemma_one_name
crate::content_lemmas::group_content
@end
@spec internally::TaggedVisitor as Visitor
    open spec fn visited(self, e: Ev, left: int, r: Res<Box<T>>) -> bool {
        match e {
            Ev::Map(m) => {
                let n = tag_at(m.rest, self.tag@);
                if n == 0 && m.rest.len() > 0 {
                    match crate::private::looked_up(*self.registry, m.rest[0].1) {
                        crate::private::Found::Bad(k) => crate::private::fails(k, r),
                        crate::private::Found::Fun(f) => applied(f, Src::Keyed(Box::new(MapSrc { pend: None, rest: m.rest.skip(1) })), left, r),
                    }
                } else {
                    (r is Err && some_bad(m.rest, n)) || (r is Ok ==> left == 0) && if n < m.rest.len() {
                        match crate::private::looked_up(*self.registry, m.rest[n].1) {
                            crate::private::Found::Bad(k) => crate::private::fails(k, r),
                            crate::private::Found::Fun(f) => given_buffered(f, m.rest, n, r),
                        }
                    } else {
                        match self.default_variant {
                            None => r == Res::<Box<T>>::Err(EK::MissingField(self.tag@)),
                            Some(d) => match crate::private::looked_up_name(*self.registry, d@) {
                                crate::private::Found::Bad(k) => crate::private::fails(k, r),
                                crate::private::Found::Fun(f) => given_buffered(f, m.rest, n, r),
                            },
                        }
                    }
                }
            },
            _ => r is Err,
        }
    }
@end
@fn internally::deserialize
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || crate::serde::de::delivered(TaggedVisitor { trait_object: $2, tag: $3, default_variant: $4, registry: $5 }, $1.src(), Hint::Map, $1.d_left(), crate::serde::de::srv(r))
@end
@loop internally::TaggedVisitor as Visitor::visit_map 0
    invariant
        considered(bad_at($1.msrc().rest, tag_at($1.msrc().rest, self.tag@), $vec@.len() as int)),
        match $none {
            None => __$1.m_left() == $1.m_left()
                && $vec@.len() <= tag_at($1.msrc().rest, self.tag@) <= $1.msrc().rest.len()
                && __$1.msrc().rest == $1.msrc().rest.skip($vec@.len() as int),
            // the tag and everything after it has been read
            Some(f) => 0 < tag_at($1.msrc().rest, self.tag@) < $1.msrc().rest.len()
                && crate::private::looked_up(*self.registry, $1.msrc().rest[tag_at($1.msrc().rest, self.tag@)].1) == crate::private::Found::Fun(f)
                && $vec@.len() + 1 == $1.msrc().rest.len() && __$1.msrc().rest.len() == 0 && $1.m_left() == 0,
        },
        buffered($1.msrc().rest, tag_at($1.msrc().rest, self.tag@), crate::content_lemmas::gviews2($vec@)),
    ensures
        buffered($1.msrc().rest, tag_at($1.msrc().rest, self.tag@), crate::content_lemmas::gviews2($vec@)),
        $vec@.len() == besides($1.msrc().rest, tag_at($1.msrc().rest, self.tag@)),
        match $none {
            Some(f) => 0 < tag_at($1.msrc().rest, self.tag@) < $1.msrc().rest.len()
                && crate::private::looked_up(*self.registry, $1.msrc().rest[tag_at($1.msrc().rest, self.tag@)].1) == crate::private::Found::Fun(f),
            None => tag_at($1.msrc().rest, self.tag@) == $1.msrc().rest.len(),
        },
        $1.m_left() == 0,
    decreases __$1.msrc().rest.len(),
@end
@loop internally::TaggedVisitor as Visitor::visit_map 1
    invariant
        considered(bad_at($1.msrc().rest, tag_at($1.msrc().rest, self.tag@), $vec@.len() as int + 1)),
        0 < tag_at($1.msrc().rest, self.tag@) <= $vec@.len() < $1.msrc().rest.len(),
        $none matches Some(f) && crate::private::looked_up(*self.registry, $1.msrc().rest[tag_at($1.msrc().rest, self.tag@)].1) == crate::private::Found::Fun(f),
        __$1.msrc().rest == $1.msrc().rest.skip($vec@.len() as int + 1),
        __$1.m_left() == $1.m_left(),
        buffered($1.msrc().rest, tag_at($1.msrc().rest, self.tag@), crate::content_lemmas::gviews2($vec@)),
    ensures $vec@.len() + 1 == $1.msrc().rest.len(), $1.m_left() == 0,
    decreases __$1.msrc().rest.len(),
@end
@spec internally::KeyVisitor as DeserializeSeed
    open spec fn seeded(self, src: Src, left: int, r: Res<Self::Value>) -> bool { crate::serde::de::delivered(self, src, Hint::Str, left, r) }
@end
@spec internally::KeyVisitor as Visitor
    open spec fn visited(self, e: Ev, left: int, r: Res<Key>) -> bool {
        match str_of(e) {
            Some(s) => if s == self.tag@ { r == Res::Ok(Key::Tag) } else { r matches Res::Ok(Key::Other(k)) && k@ == s },
            None => r is Err,
        }
    }
@end
@spec internally::DefaultKey as DeserializeSeed
    open spec fn seeded(self, src: Src, left: int, r: Res<Self::Value>) -> bool { crate::serde::de::delivered(self, src, Hint::Str, left, r) }
@end
@spec internally::DefaultKey as Visitor
    open spec fn visited(self, e: Ev, left: int, r: Res<()>) -> bool {
        match str_of(e) {
            Some(s) => if s == value_key() { r == Res::Ok(()) } else { r == Res::<()>::Err(EK::UnknownField(s, one_name(value_key()))) },
            None => r is Err,
        }
    }
@end
@spec internally::MapWithStringKeys as Deserializer
    open spec fn src(self) -> Src { Src::Keyed(Box::new(self.map.msrc())) }
    #[verifier::prophetic] open spec fn d_left(self) -> int { self.map.m_left() }
@end
@spec internally::MapWithStringKeys as MapAccess
    open spec fn msrc(&self) -> MapSrc { keyed(self.map.msrc()) }
    #[verifier::prophetic] open spec fn m_left(&self) -> int { self.map.m_left() }
@end
@fn internally::MapWithStringKeys::try_default_key
    ensures foreign(crate::serde::de::srv(r)) || if (*old(self)).map.msrc().rest.len() == 0 { r matches Err(e) && e.kind() == EK::MissingField(value_key()) } else {
        match not_value(ev((*old(self)).map.msrc().rest[0].0, Hint::Str)) {
            None => r is Ok && (*final(self)).map.msrc() == after_key((*old(self)).map.msrc()),
            Some(e) => r is Err && (e matches Ev::Refuse(Some(k)) ==> crate::serde::de::srv(r) == Res::<()>::Err(k)),
        }
    }
@end
@spec internally::MapEntryAsEnum as EnumAccess
    open spec fn esrc(self) -> EnumSrc {
        EnumSrc {
            variant: if self.map.msrc().rest.len() > 0 { Some(self.map.msrc().rest[0].0) } else { None },
            payload: Payload::Val(if self.map.msrc().rest.len() > 0 { Some(self.map.msrc().rest[0].1) } else { None }, self.name@),
        }
    }
@end
@spec internally::MapEntryAsEnum as VariantAccess
    open spec fn vsrc(self) -> Payload { Payload::Val(match self.map.msrc().pend { Some(b) => Some(*b), None => None }, self.name@) }
@end
@spec internally::StringKeySeed as DeserializeSeed
    open spec fn seeded(self, src: Src, left: int, r: Res<K::Value>) -> bool { self.seed.seeded(Src::StrKey(Box::new(src)), left, r) }
@end
@spec internally::StringKeyDeserializer as Deserializer
    open spec fn src(self) -> Src { Src::StrKey(Box::new(self.delegate.src())) }
    #[verifier::prophetic] open spec fn d_left(self) -> int { self.delegate.d_left() }
@end
@spec internally::MapValueAsDeserializer as Deserializer
    open spec fn src(self) -> Src { match self.map.msrc().pend { Some(b) => Src::Val(b), None => Src::Nothing } }
    #[verifier::prophetic] open spec fn d_left(self) -> int { 0 }
@end

// ---- adjacently tagged
@extra adjacently/lemmas
/// What comes next in an adjacently tagged object.
pub ghost enum Scan { End, Tag(Src, Seq<(Src, Src)>), Content(Src, Seq<(Src, Src)>), Bad(Option<EK>) }
pub open spec fn scan(rest: Seq<(Src, Src)>, names: Seq<Seq<char>>, deny: bool) -> Scan
    decreases rest.len()
{
    if rest.len() == 0 { Scan::End } else {
        match str_of(ev(rest[0].0, Hint::Str)) {
            None => Scan::Bad(None),
            Some(s) => if s == names[0] { Scan::Tag(rest[0].1, rest.drop_first()) }
                else if s == names[1] { Scan::Content(rest[0].1, rest.drop_first()) }
                else if deny { Scan::Bad(Some(EK::UnknownField(s, names))) }
                else if unskippable(rest[0].1) { Scan::Bad(None) }
                else { scan(rest.drop_first(), names, deny) },
        }
    }
}
/// After tag and content: only ignored fields may follow.
pub open spec fn fin<T>(rest: Seq<(Src, Src)>, names: Seq<Seq<char>>, deny: bool, q: Res<T>, r: Res<T>) -> bool {
    if q is Err { r == q } else {
        match scan(rest, names, deny) {
            Scan::End => r == q,
            Scan::Tag(_, _) => r == Res::<T>::Err(EK::DuplicateField(names[0])),
            Scan::Content(_, _) => r == Res::<T>::Err(EK::DuplicateField(names[1])),
            Scan::Bad(k) => crate::private::fails(k, r),
        }
    }
}
pub open spec fn reads_fin<T: ?Sized>(f: DeserializeFn<T>, src: Src, rest: Seq<(Src, Src)>, names: Seq<Seq<char>>, deny: bool, r: Res<Box<T>>) -> bool {
    exists|left: int, q: Res<Box<T>>| #[trigger] applied(f, src, left, q) && fin(rest, names, deny, q, r)
}
pub open spec fn buffers_fin<T: ?Sized>(f: DeserializeFn<T>, src: Src, rest: Seq<(Src, Src)>, names: Seq<Seq<char>>, deny: bool, r: Res<Box<T>>) -> bool {
    exists|g: GC, q: Res<Box<T>>| captured(src, g) && #[trigger] applied(f, Src::Buf(g), 0, q) && fin(rest, names, deny, q, r)
}
pub open spec fn next_is(m: MapSrc, v: Src, rest: Seq<(Src, Src)>) -> bool { m == MapSrc { pend: Some(Box::new(v)), rest: rest } }
@end
@spec adjacently::TagContentOtherFieldVisitor as DeserializeSeed
    open spec fn seeded(self, src: Src, left: int, r: Res<Self::Value>) -> bool { crate::serde::de::delivered(self, src, Hint::Str, left, r) }
@end
@spec adjacently::TagContentOtherFieldVisitor as Visitor
    open spec fn visited(self, e: Ev, left: int, r: Res<TagContentOtherField>) -> bool {
        match str_of(e) {
            Some(s) => if s == self.field_names@[0]@ { r == Res::Ok(TagContentOtherField::Tag) }
                else if s == self.field_names@[1]@ { r == Res::Ok(TagContentOtherField::Content) }
                else if self.deny_unknown_fields { r == Res::<TagContentOtherField>::Err(EK::UnknownField(s, names_of(self.field_names@))) }
                else { r == Res::Ok(TagContentOtherField::Other) },
            None => r is Err,
        }
    }
@end
@spec adjacently::TaggedVisitor as Visitor
    open spec fn visited(self, e: Ev, left: int, r: Res<Box<T>>) -> bool {
        let names = names_of(self.field_names@);
        let deny = self.deny_unknown_fields;
        match e {
            Ev::Map(m) => (r is Ok ==> left == 0) && match scan(m.rest, names, deny) {
                Scan::Bad(k) => crate::private::fails(k, r),
                Scan::End => r == Res::<Box<T>>::Err(EK::MissingField(if self.default_variant is None { names[0] } else { names[1] })),
                Scan::Tag(v, rest) => match crate::private::looked_up(*self.registry, v) {
                    crate::private::Found::Bad(k) => crate::private::fails(k, r),
                    crate::private::Found::Fun(f) => match scan(rest, names, deny) {
                        Scan::Bad(k) => crate::private::fails(k, r),
                        Scan::Tag(_, _) => r == Res::<Box<T>>::Err(EK::DuplicateField(names[0])),
                        Scan::Content(c, rest2) => reads_fin(f, c, rest2, names, deny, r),
                        Scan::End => applied(f, Src::UnitVal, 0, r),
                    },
                },
                Scan::Content(c, rest) => (r is Err && uncap(c)) || match scan(rest, names, deny) {
                    Scan::Bad(k) => crate::private::fails(k, r),
                    Scan::Content(_, _) => r == Res::<Box<T>>::Err(EK::DuplicateField(names[1])),
                    Scan::Tag(v, rest2) => match crate::private::looked_up(*self.registry, v) {
                        crate::private::Found::Bad(k) => crate::private::fails(k, r),
                        crate::private::Found::Fun(f) => buffers_fin(f, c, rest2, names, deny, r),
                    },
                    Scan::End => match self.default_variant {
                        None => r == Res::<Box<T>>::Err(EK::MissingField(names[0])),
                        Some(d) => match crate::private::looked_up_name(*self.registry, d@) {
                            crate::private::Found::Bad(k) => crate::private::fails(k, r),
                            crate::private::Found::Fun(f) => buffers_fin(f, c, Seq::empty(), names, deny, r),
                        },
                    },
                },
            },
            Ev::Seq(s) => if s.len() == 0 { r == Res::<Box<T>>::Err(EK::InvalidLength(0)) } else {
                match crate::private::looked_up(*self.registry, s[0]) {
                    crate::private::Found::Bad(k) => crate::private::fails(k, r),
                    crate::private::Found::Fun(f) => if s.len() == 1 { r == Res::<Box<T>>::Err(EK::InvalidLength(1)) }
                        else { crate::serde::de::reads(FnApply { deserialize_fn: f }, s[1], r) && (r is Ok ==> 0 <= left <= s.len() - 2) },
                }
            },
            _ => r is Err,
        }
    }
@end
@closure adjacently::TaggedVisitor as Visitor::visit_map 0
-> (__o: Result<Option<TagOrContentField>, A::Error>)
    ensures (*final(map)).m_left() == (*old(map)).m_left(), foreign(crate::serde::de::srv(__o)) || match scan((*old(map)).msrc().rest, names_of(self.field_names@), self.deny_unknown_fields) {
        Scan::Bad(k) => crate::private::fails(k, crate::serde::de::srv(__o)),
        Scan::End => __o matches Ok(None) && (*final(map)).msrc().rest.len() == 0 && (*final(map)).m_left() == 0,
        Scan::Tag(v, rest) => __o matches Ok(Some(TagOrContentField::Tag)) && next_is((*final(map)).msrc(), v, rest),
        Scan::Content(v, rest) => __o matches Ok(Some(TagOrContentField::Content)) && next_is((*final(map)).msrc(), v, rest),
    }
@end
@loop adjacently::TaggedVisitor as Visitor::visit_map 0
    invariant
        scan((*map).msrc().rest, names_of(self.field_names@), self.deny_unknown_fields) == scan((*old(map)).msrc().rest, names_of(self.field_names@), self.deny_unknown_fields),
        (*map).m_left() == (*old(map)).m_left(),
    ensures
        (*map).msrc().rest.len() == 0, (*map).m_left() == 0,
    decreases (*map).msrc().rest.len(),
@end
@fn adjacently::deserialize
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || crate::serde::de::delivered(TaggedVisitor { trait_object: $2, field_names: $3, default_variant: $4, registry: $5, deny_unknown_fields: $6 }, $1.src(), Hint::Struct($2@, names_of($3@)), $1.d_left(), crate::serde::de::srv(r))
@end

@extra content/lemmas
pub open spec fn gview<'de>(c: Content<'de>) -> GC
    decreases c
{
    match c {
        Content::Bool(x) => GC::Bool(x),
        Content::U8(x) => GC::U8(x),
        Content::U16(x) => GC::U16(x),
        Content::U32(x) => GC::U32(x),
        Content::U64(x) => GC::U64(x),
        Content::U128(x) => GC::U128(x),
        Content::I8(x) => GC::I8(x),
        Content::I16(x) => GC::I16(x),
        Content::I32(x) => GC::I32(x),
        Content::I64(x) => GC::I64(x),
        Content::I128(x) => GC::I128(x),
        Content::F32(x) => GC::F32(x),
        Content::F64(x) => GC::F64(x),
        Content::Char(x) => GC::Char(x),
        Content::String(s) => GC::Str(s@, false),
        Content::Str(s) => GC::Str(s@, true),
        Content::ByteBuf(b) => GC::Bytes(b@, false),
        Content::Bytes(b) => GC::Bytes(b@, true),
        Content::None => GC::None,
        Content::Some(x) => GC::Some(Box::new(gview(*x))),
        Content::Unit => GC::Unit,
        Content::Newtype(x) => GC::Newtype(Box::new(gview(*x))),
        Content::Seq(s) => GC::Seq(Seq::new(s@.len(), |j: int| if 0 <= j < s@.len() { gview(s@[j]) } else { GC::Unit })),
        Content::Map(s) => GC::Map(Seq::new(s@.len(), |j: int| if 0 <= j < s@.len() { (gview(s@[j].0), gview(s@[j].1)) } else { (GC::Unit, GC::Unit) })),
    }
}
pub open spec fn gviews<'de>(s: Seq<Content<'de>>) -> Seq<GC> { Seq::new(s.len(), |j: int| gview(s[j])) }
pub open spec fn gviews2<'de>(s: Seq<(Content<'de>, Content<'de>)>) -> Seq<(GC, GC)> { Seq::new(s.len(), |j: int| (gview(s[j].0), gview(s[j].1))) }
pub open spec fn gpend<'de>(c: Option<Content<'de>>) -> Option<Box<Src>> {
    match c { Some(c) => Some(Box::new(Src::Buf(gview(c)))), None => None }
}
pub broadcast proof fn lemma_gview_seq<'de>(s: Vec<Content<'de>>)
    ensures #[trigger] gview(Content::Seq(s)) == GC::Seq(gviews(s@))
{ match gview(Content::Seq(s)) { GC::Seq(x) => { assert(x =~= gviews(s@)); } _ => {} } }
pub broadcast proof fn lemma_gview_map<'de>(s: Vec<(Content<'de>, Content<'de>)>)
    ensures #[trigger] gview(Content::Map(s)) == GC::Map(gviews2(s@))
{ match gview(Content::Map(s)) { GC::Map(x) => { assert(x =~= gviews2(s@)); } _ => {} } }
pub broadcast proof fn lemma_gviews_push<'de>(s: Seq<Content<'de>>, c: Content<'de>)
    ensures #[trigger] gviews(s.push(c)) == gviews(s).push(gview(c))
{ assert(gviews(s.push(c)) =~= gviews(s).push(gview(c))); }
pub broadcast proof fn lemma_gviews2_push<'de>(s: Seq<(Content<'de>, Content<'de>)>, c: (Content<'de>, Content<'de>))
    ensures #[trigger] gviews2(s.push(c)) == gviews2(s).push((gview(c.0), gview(c.1)))
{ assert(gviews2(s.push(c)) =~= gviews2(s).push((gview(c.0), gview(c.1)))); }
pub broadcast proof fn lemma_gviews_drop<'de>(s: Seq<Content<'de>>)
    requires s.len() > 0
    ensures #[trigger] bufs(gviews(s.drop_first())) == bufs(gviews(s)).drop_first(), bufs(gviews(s))[0] == Src::Buf(gview(s[0])), bufs(gviews(s)).len() == s.len()
{ assert(bufs(gviews(s.drop_first())) =~= bufs(gviews(s)).drop_first()); }
pub broadcast proof fn lemma_gviews2_drop<'de>(s: Seq<(Content<'de>, Content<'de>)>)
    requires s.len() > 0
    ensures #[trigger] buf_entries(gviews2(s.drop_first())) == buf_entries(gviews2(s)).drop_first(),
        buf_entries(gviews2(s))[0] == (Src::Buf(gview(s[0].0)), Src::Buf(gview(s[0].1))), buf_entries(gviews2(s)).len() == s.len()
{ assert(buf_entries(gviews2(s.drop_first())) =~= buf_entries(gviews2(s)).drop_first()); }
pub broadcast group group_content { lemma_gview_seq, lemma_gview_map, lemma_gviews_push, lemma_gviews2_push, lemma_gviews_drop, lemma_gviews2_drop, lemma_captured, lemma_uncap }
@end
@bcast content
crate::content_lemmas::group_content
@end
@spec content::Content as Deserialize
    open spec fn deser(src: Src, left: int, r: Res<Content<'de>>) -> bool {
        match r { Res::Ok(c) => captured(src, crate::content_lemmas::gview(c)), Res::Err(_) => uncap(src) }
    }
@end
@spec content::ContentVisitor as Visitor
    open spec fn visited(self, e: Ev, left: int, r: Res<Content<'de>>) -> bool {
        match r { Res::Ok(c) => cap_ev(e, crate::content_lemmas::gview(c)) && (crate::spec::leaves(e) ==> left == 0), Res::Err(_) => uncap_ev(e) }
    }
@end
@spec content::Content as IntoDeserializer
    open spec fn isrc(self) -> Src { Src::Buf(crate::content_lemmas::gview(self)) }
@end
@spec content::ContentDeserializer as IntoDeserializer
    open spec fn isrc(self) -> Src { Src::Buf(crate::content_lemmas::gview(self.content)) }
@end
@spec content::ContentDeserializer as Deserializer
    open spec fn src(self) -> Src { Src::Buf(crate::content_lemmas::gview(self.content)) }
    #[verifier::prophetic] open spec fn d_left(self) -> int { 0 }
@end
@fn content::Content::unexpected
    // only the text of an error depends on it
    ensures true
@end
@fn content::ContentDeserializer::invalid_type
    ensures r.kind() == EK::InvalidType
@end
@fn content::ContentDeserializer::deserialize_integer
    ensures foreign(crate::serde::de::srv(r)) || crate::serde::de::delivered($1, Src::Buf(crate::content_lemmas::gview(self.content)), Hint::U64, 0, crate::serde::de::srv(r))
@end
@fn content::ContentDeserializer::deserialize_float
    ensures foreign(crate::serde::de::srv(r)) || crate::serde::de::delivered($1, Src::Buf(crate::content_lemmas::gview(self.content)), Hint::F64, 0, crate::serde::de::srv(r))
@end
@fn content::visit_content_seq
    ensures foreign(crate::serde::de::srv(r)) || crate::serde::de::gave_all($2, Ev::Seq(bufs(crate::content_lemmas::gviews($1@))), crate::serde::de::srv(r))
@end
@fn content::visit_content_map
    ensures foreign(crate::serde::de::srv(r)) || crate::serde::de::gave_all($2, Ev::Map(bufmap(crate::content_lemmas::gviews2($1@))), crate::serde::de::srv(r))
@end
@closure content::visit_content_map 0
-> (__o: (ContentDeserializer<'de, E>, ContentDeserializer<'de, E>))
    ensures __o.0.content == __a.0, __o.1.content == __a.1
@end
@loop content::ContentVisitor as Visitor::visit_seq 0
    invariant
        $vec@.len() <= $1.ssrc().len(),
        __$1.s_left() == $1.s_left(),
        __$1.ssrc() == $1.ssrc().skip($vec@.len() as int),
        captured_seq($1.ssrc().take($vec@.len() as int), crate::content_lemmas::gviews($vec@)),
    ensures $vec@.len() == $1.ssrc().len(), $1.s_left() == 0,
    decreases __$1.ssrc().len(),
@end
@loop content::ContentVisitor as Visitor::visit_map 0
    invariant
        $vec@.len() <= $1.msrc().rest.len(),
        __$1.m_left() == $1.m_left(),
        __$1.msrc().rest == $1.msrc().rest.skip($vec@.len() as int),
        captured_map($1.msrc().rest.take($vec@.len() as int), crate::content_lemmas::gviews2($vec@)),
    ensures $vec@.len() == $1.msrc().rest.len(), $1.m_left() == 0,
    decreases __$1.msrc().rest.len(),
@end
@spec content::EnumDeserializer as EnumAccess
    open spec fn esrc(self) -> EnumSrc {
        EnumSrc {
            variant: Some(Src::Buf(crate::content_lemmas::gview(self.variant))),
            payload: Payload::Buf(match self.value { Some(c) => Some(crate::content_lemmas::gview(c)), None => None }),
        }
    }
@end
@spec content::VariantDeserializer as VariantAccess
    open spec fn vsrc(self) -> Payload { Payload::Buf(match self.value { Some(c) => Some(crate::content_lemmas::gview(c)), None => None }) }
@end
@spec content::SeqDeserializer as Deserializer
    open spec fn src(self) -> Src { Src::BufSeq(crate::content_lemmas::gviews(self.iter@)) }
    #[verifier::prophetic] open spec fn d_left(self) -> int { 0 }
@end
@spec content::SeqDeserializer as SeqAccess
    open spec fn ssrc(&self) -> Seq<Src> { bufs(crate::content_lemmas::gviews(self.iter@)) }
    #[verifier::prophetic] open spec fn s_left(&self) -> int { 0 }
@end
@spec content::MapDeserializer as Deserializer
    open spec fn src(self) -> Src { Src::BufMap(Box::new(MapSrc { pend: crate::content_lemmas::gpend(self.value), rest: buf_entries(crate::content_lemmas::gviews2(self.iter@)) })) }
    #[verifier::prophetic] open spec fn d_left(self) -> int { 0 }
@end
@spec content::MapDeserializer as MapAccess
    open spec fn msrc(&self) -> MapSrc { MapSrc { pend: crate::content_lemmas::gpend(self.value), rest: buf_entries(crate::content_lemmas::gviews2(self.iter@)) } }
    #[verifier::prophetic] open spec fn m_left(&self) -> int { 0 }
@end
@fn content::MapDeserializer::end
    ensures r is Ok <==> self.iter@.len() == 0
@end
