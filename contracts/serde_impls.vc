# serde_core's implementations for the standard library's types, from its expanded source
@spec core_ser::Impossible as SerializeSeq
    open spec fn sq_cont(&self, es: Seq<SVal>, rr: Res<Ok>) -> bool { false } open spec fn sq_inv(&self) -> bool { true } open spec fn sq_room(&self) -> Option<int> { Option::None }
@end
@spec core_ser::Impossible as SerializeTuple
    open spec fn tp_cont(&self, es: Seq<SVal>, rr: Res<Ok>) -> bool { false } open spec fn tp_inv(&self) -> bool { true } open spec fn tp_room(&self) -> Option<int> { Option::None }
@end
@spec core_ser::Impossible as SerializeTupleStruct
    open spec fn ts_cont(&self, es: Seq<SVal>, rr: Res<Ok>) -> bool { false } open spec fn ts_inv(&self) -> bool { true } open spec fn ts_room(&self) -> Option<int> { Option::None }
@end
@spec core_ser::Impossible as SerializeTupleVariant
    open spec fn tv_cont(&self, es: Seq<SVal>, rr: Res<Ok>) -> bool { false } open spec fn tv_inv(&self) -> bool { true } open spec fn tv_room(&self) -> Option<int> { Option::None }
@end
@spec core_ser::Impossible as SerializeMap
    open spec fn mp_cont(&self, es: Seq<(SVal, SVal)>, rr: Res<Ok>) -> bool { false }
    open spec fn mp_vcont(&self, v: SVal, es: Seq<(SVal, SVal)>, rr: Res<Ok>) -> bool { false }
    open spec fn mp_pend(&self) -> bool { arbitrary() } open spec fn mp_room(&self) -> Option<int> { Option::None }
@end
@spec core_ser::Impossible as SerializeStruct
    open spec fn st_cont(&self, es: Seq<(Seq<char>, SVal)>, rr: Res<Ok>) -> bool { false } open spec fn st_inv(&self) -> bool { true } open spec fn st_room(&self) -> Option<int> { Option::None }
@end
@spec core_ser::Impossible as SerializeStructVariant
    open spec fn sv_cont(&self, es: Seq<(Seq<char>, SVal)>, rr: Res<Ok>) -> bool { false } open spec fn sv_inv(&self) -> bool { true } open spec fn sv_room(&self) -> Option<int> { Option::None }
@end
@spec core_de::UnitDeserializer as Deserializer
    open spec fn src(self) -> Src { Src::UnitVal }
    #[verifier::prophetic] open spec fn d_left(self) -> int { 0 }
@end
@spec core_de::UnitVisitor as Visitor
    open spec fn visited(self, e: Ev, left: int, r: Res<()>) -> bool {
        match e { Ev::Unit => r == Res::Ok(()), _ => r is Err }
    }
@end
@spec core_de::StringVisitor as Visitor
    open spec fn visited(self, e: Ev, left: int, r: Res<String>) -> bool {
        match string_of(e) { Some(s) => r matches Res::Ok(x) && x@ == s, None => r is Err }
    }
@end

# Accesses through `&mut`: the calls go through. That an access which has answered `None` stays at
# its end and that entries never come back, which is what `m_left` and `s_left` add at `&mut A`, is
# assumed of the borrower.
@im core_de::&'__amutA as SeqAccess::next_element_seed
    ensures (*final(self)).s_left() == (*old(self)).s_left(),
    match $r {
        Ok(Some(v)) => (*old(self)).ssrc().len() > 0 && (*final(self)).ssrc() == (*old(self)).ssrc().drop_first()
            && crate::serde::de::reads($1, (*old(self)).ssrc()[0], crate::spec::Res::Ok(v)),
        Ok(None) => (*old(self)).ssrc().len() == 0 && (*final(self)).ssrc() == (*old(self)).ssrc(),
        Err(e) => e.kind() is Foreign || ((*old(self)).ssrc().len() > 0
            && crate::serde::de::reads($1, (*old(self)).ssrc()[0], crate::spec::Res::Err(e.kind()))),
    }
@end
@im core_de::&'__amutA as SeqAccess::next_element
    ensures (*final(self)).s_left() == (*old(self)).s_left(),
    match $r {
        Ok(Some(v)) => (*old(self)).ssrc().len() > 0 && (*final(self)).ssrc() == (*old(self)).ssrc().drop_first()
            && crate::serde::de::reads_as::<T>((*old(self)).ssrc()[0], crate::spec::Res::Ok(v)),
        Ok(None) => (*old(self)).ssrc().len() == 0 && (*final(self)).ssrc() == (*old(self)).ssrc(),
        Err(e) => e.kind() is Foreign || ((*old(self)).ssrc().len() > 0
            && crate::serde::de::reads_as::<T>((*old(self)).ssrc()[0], crate::spec::Res::Err(e.kind()))),
    }
@end
@im core_de::&'__amutA as MapAccess::next_key_seed
    ensures (*final(self)).m_left() == (*old(self)).m_left(),
    match $r {
        Ok(Some(k)) => (*old(self)).msrc().rest.len() > 0 && (*final(self)).msrc() == crate::spec::after_key((*old(self)).msrc())
            && crate::serde::de::reads($1, (*old(self)).msrc().rest[0].0, crate::spec::Res::Ok(k)),
        Ok(None) => (*old(self)).msrc().rest.len() == 0 && (*final(self)).msrc().rest.len() == 0,
        Err(e) => e.kind() is Foreign || ((*old(self)).msrc().rest.len() > 0
            && crate::serde::de::reads($1, (*old(self)).msrc().rest[0].0, crate::spec::Res::Err(e.kind()))),
    }
@end
@im core_de::&'__amutA as MapAccess::next_key
    ensures (*final(self)).m_left() == (*old(self)).m_left(),
    match $r {
        Ok(Some(k)) => (*old(self)).msrc().rest.len() > 0 && (*final(self)).msrc() == crate::spec::after_key((*old(self)).msrc())
            && crate::serde::de::reads_as::<K>((*old(self)).msrc().rest[0].0, crate::spec::Res::Ok(k)),
        Ok(None) => (*old(self)).msrc().rest.len() == 0 && (*final(self)).msrc().rest.len() == 0,
        Err(e) => e.kind() is Foreign || ((*old(self)).msrc().rest.len() > 0
            && crate::serde::de::reads_as::<K>((*old(self)).msrc().rest[0].0, crate::spec::Res::Err(e.kind()))),
    }
@end
@im core_de::&'__amutA as MapAccess::next_value_seed
    requires (*old(self)).msrc().pend is Some,
    ensures (*final(self)).m_left() == (*old(self)).m_left(),
    match (*old(self)).msrc().pend {
        None => $r is Err,
        Some(b) => ($r is Ok ==> (*final(self)).msrc() == crate::spec::after_value((*old(self)).msrc()))
            && (crate::spec::foreign(crate::serde::de::srv($r)) || crate::serde::de::reads($1, *b, crate::serde::de::srv($r))),
    }
@end
@im core_de::&'__amutA as MapAccess::next_value
    requires (*old(self)).msrc().pend is Some,
    ensures (*final(self)).m_left() == (*old(self)).m_left(),
    match (*old(self)).msrc().pend {
        None => $r is Err,
        Some(b) => ($r is Ok ==> (*final(self)).msrc() == crate::spec::after_value((*old(self)).msrc()))
            && (crate::spec::foreign(crate::serde::de::srv($r)) || crate::serde::de::reads_as::<V>(*b, crate::serde::de::srv($r))),
    }
@end
@im core_de::&'__amutA as MapAccess::next_entry_seed
    ensures (*final(self)).m_left() == (*old(self)).m_left(),
    match $r {
        Ok(Some(kv)) => (*old(self)).msrc().rest.len() > 0 && crate::spec::after_entry((*old(self)).msrc(), (*final(self)).msrc())
            && (crate::serde::de::reads($1, (*old(self)).msrc().rest[0].0, crate::spec::Res::Ok(kv.0)))
            && (crate::serde::de::reads($2, (*old(self)).msrc().rest[0].1, crate::spec::Res::Ok(kv.1))),
        Ok(None) => (*old(self)).msrc().rest.len() == 0 && (*final(self)).msrc().rest.len() == 0,
        Err(e) => e.kind() is Foreign || ((*old(self)).msrc().rest.len() > 0
            && ((crate::serde::de::reads($1, (*old(self)).msrc().rest[0].0, crate::spec::Res::Err(e.kind())))
             || (crate::serde::de::reads($2, (*old(self)).msrc().rest[0].1, crate::spec::Res::Err(e.kind()))))),
    }
@end
@im core_de::&'__amutA as MapAccess::next_entry
    ensures (*final(self)).m_left() == (*old(self)).m_left(),
    match $r {
        Ok(Some(kv)) => (*old(self)).msrc().rest.len() > 0 && crate::spec::after_entry((*old(self)).msrc(), (*final(self)).msrc())
            && (crate::serde::de::reads_as::<K>((*old(self)).msrc().rest[0].0, crate::spec::Res::Ok(kv.0)))
            && (crate::serde::de::reads_as::<V>((*old(self)).msrc().rest[0].1, crate::spec::Res::Ok(kv.1))),
        Ok(None) => (*old(self)).msrc().rest.len() == 0 && (*final(self)).msrc().rest.len() == 0,
        Err(e) => e.kind() is Foreign || ((*old(self)).msrc().rest.len() > 0
            && ((crate::serde::de::reads_as::<K>((*old(self)).msrc().rest[0].0, crate::spec::Res::Err(e.kind())))
             || (crate::serde::de::reads_as::<V>((*old(self)).msrc().rest[0].1, crate::spec::Res::Err(e.kind()))))),
    }
@end

# A vector or slice goes through the trait's own `collect_seq`, put in its place
@fn core_ser::iterator_len_hint
    requires 0 <= $1.pos() <= $1.all().len()
    ensures $r matches Some(n) && n == $1.all().len() - $1.pos()
@end
@extra core_ser/lemmas
pub broadcast proof fn lemma_each_skip<T: crate::serde::ser::Serialize>(s: Seq<T>, i: int)
    requires 0 <= i < s.len()
    ensures #![trigger crate::serde::ser::each(s).skip(i), s[i]] crate::serde::ser::each(s).skip(i) == cons(s[i].val(), crate::serde::ser::each(s).skip(i + 1))
{ assert(crate::serde::ser::each(s).skip(i) =~= cons(s[i].val(), crate::serde::ser::each(s).skip(i + 1))); }
pub broadcast proof fn lemma_each_skip0<T: crate::serde::ser::Serialize>(s: Seq<T>)
    ensures #[trigger] crate::serde::ser::each(s).skip(0) == crate::serde::ser::each(s)
{ assert(crate::serde::ser::each(s).skip(0) =~= crate::serde::ser::each(s)); }
pub broadcast proof fn lemma_each_end<T: crate::serde::ser::Serialize>(s: Seq<T>)
    ensures #[trigger] crate::serde::ser::each(s).skip(s.len() as int) == Seq::<crate::spec::SVal>::empty()
{ assert(crate::serde::ser::each(s).skip(s.len() as int) =~= Seq::<crate::spec::SVal>::empty()); }
pub broadcast group group_each { lemma_each_skip, lemma_each_skip0, lemma_each_end }
@end
@bcast core_ser
crate::core_ser_lemmas::group_each
@end
@loop core_ser::Vec<T> as Serialize::serialize 0
    invariant
        self.val() == crate::spec::SVal::Seq(crate::serde::ser::each($it.all())),
        0 <= $it.pos() <= $it.all().len(),
        $try.sq_inv(), crate::spec::room_is($try.sq_room(), $it.all().len() - $it.pos()),
        crate::serde::ser::each($it.all()).skip($it.pos()).len() == $it.all().len() - $it.pos(),
        forall|rr: crate::spec::Res<S::Ok>| #[trigger] $try.sq_cont(crate::serde::ser::each($it.all()).skip($it.pos()), rr) ==> __to.out(self.val(), rr),
    ensures $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@loop core_ser::[T] as Serialize::serialize 0
    invariant
        self.val() == crate::spec::SVal::Seq(crate::serde::ser::each($it.all())),
        0 <= $it.pos() <= $it.all().len(),
        $try.sq_inv(), crate::spec::room_is($try.sq_room(), $it.all().len() - $it.pos()),
        crate::serde::ser::each($it.all()).skip($it.pos()).len() == $it.all().len() - $it.pos(),
        forall|rr: crate::spec::Res<S::Ok>| #[trigger] $try.sq_cont(crate::serde::ser::each($it.all()).skip($it.pos()), rr) ==> __to.out(self.val(), rr),
    ensures $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
