// What every serializing type of typetag promises (its trait's spec functions).

@extra ser/lemmas
pub open spec fn cview(c: Content) -> SVal
    decreases c
{
    match c {
        Content::Bool(x) => SVal::Bool(x),
        Content::U8(x) => SVal::U8(x),
        Content::U16(x) => SVal::U16(x),
        Content::U32(x) => SVal::U32(x),
        Content::U64(x) => SVal::U64(x),
        Content::U128(x) => SVal::U128(x),
        Content::I8(x) => SVal::I8(x),
        Content::I16(x) => SVal::I16(x),
        Content::I32(x) => SVal::I32(x),
        Content::I64(x) => SVal::I64(x),
        Content::I128(x) => SVal::I128(x),
        Content::F32(x) => SVal::F32(x),
        Content::F64(x) => SVal::F64(x),
        Content::Char(x) => SVal::Char(x),
        Content::String(s) => SVal::Str(s@),
        Content::Bytes(b) => SVal::Bytes(b@),
        Content::None => SVal::None,
        Content::Some(x) => SVal::Some(Box::new(cview(*x))),
        Content::Unit => SVal::Unit,
        Content::UnitStruct(n) => SVal::UnitStruct(n@),
        Content::UnitVariant(n, i, v) => SVal::UnitVariant(n@, i, v@),
        Content::NewtypeStruct(n, x) => SVal::NewtypeStruct(n@, Box::new(cview(*x))),
        Content::NewtypeVariant(n, i, v, x) => SVal::NewtypeVariant(n@, i, v@, Box::new(cview(*x))),
        Content::Seq(s) => SVal::Seq(Seq::new(s@.len(), |j: int| if 0 <= j < s@.len() { cview(s@[j]) } else { SVal::Fail })),
        Content::Tuple(s) => SVal::Tuple(Seq::new(s@.len(), |j: int| if 0 <= j < s@.len() { cview(s@[j]) } else { SVal::Fail })),
        Content::TupleStruct(n, s) => SVal::TupleStruct(n@, Seq::new(s@.len(), |j: int| if 0 <= j < s@.len() { cview(s@[j]) } else { SVal::Fail })),
        Content::TupleVariant(n, i, v, s) => SVal::TupleVariant(n@, i, v@, Seq::new(s@.len(), |j: int| if 0 <= j < s@.len() { cview(s@[j]) } else { SVal::Fail })),
        Content::Map(s) => SVal::Map(Seq::new(s@.len(), |j: int| if 0 <= j < s@.len() { (cview(s@[j].0), cview(s@[j].1)) } else { (SVal::Fail, SVal::Fail) })),
        Content::Struct(n, s) => SVal::Struct(n@, Seq::new(s@.len(), |j: int| if 0 <= j < s@.len() { (s@[j].0@, cview(s@[j].1)) } else { (n@, SVal::Fail) })),
        Content::StructVariant(n, i, v, s) => SVal::StructVariant(n@, i, v@, Seq::new(s@.len(), |j: int| if 0 <= j < s@.len() { (s@[j].0@, cview(s@[j].1)) } else { (n@, SVal::Fail) })),
    }
}
pub open spec fn cviews(s: Seq<Content>) -> Seq<SVal> { Seq::new(s.len(), |j: int| cview(s[j])) }
pub open spec fn cviews2(s: Seq<(Content, Content)>) -> Seq<(SVal, SVal)> { Seq::new(s.len(), |j: int| (cview(s[j].0), cview(s[j].1))) }
pub open spec fn cviews1(s: Seq<(&'static str, Content)>) -> Seq<(Seq<char>, SVal)> { Seq::new(s.len(), |j: int| (s[j].0@, cview(s[j].1))) }

pub broadcast proof fn lemma_cview_seq(s: Vec<Content>)
    ensures #[trigger] cview(Content::Seq(s)) == SVal::Seq(cviews(s@))
{ match cview(Content::Seq(s)) { SVal::Seq(x) => { assert(x =~= cviews(s@)); } _ => {} } }
pub broadcast proof fn lemma_cview_tuple(s: Vec<Content>)
    ensures #[trigger] cview(Content::Tuple(s)) == SVal::Tuple(cviews(s@))
{ match cview(Content::Tuple(s)) { SVal::Tuple(x) => { assert(x =~= cviews(s@)); } _ => {} } }
pub broadcast proof fn lemma_cview_map(s: Vec<(Content, Content)>)
    ensures #[trigger] cview(Content::Map(s)) == SVal::Map(cviews2(s@))
{ match cview(Content::Map(s)) { SVal::Map(x) => { assert(x =~= cviews2(s@)); } _ => {} } }
pub broadcast proof fn lemma_cview_tuple_struct(n: &'static str, s: Vec<Content>)
    ensures #[trigger] cview(Content::TupleStruct(n, s)) == SVal::TupleStruct(n@, cviews(s@))
{ match cview(Content::TupleStruct(n, s)) { SVal::TupleStruct(_, x) => { assert(x =~= cviews(s@)); } _ => {} } }
pub broadcast proof fn lemma_cview_struct(n: &'static str, s: Vec<(&'static str, Content)>)
    ensures #[trigger] cview(Content::Struct(n, s)) == SVal::Struct(n@, cviews1(s@))
{ match cview(Content::Struct(n, s)) { SVal::Struct(_, x) => { assert(x =~= cviews1(s@)); } _ => {} } }
pub broadcast proof fn lemma_cview_tuple_variant(n: &'static str, i: u32, v: &'static str, s: Vec<Content>)
    ensures #[trigger] cview(Content::TupleVariant(n, i, v, s)) == SVal::TupleVariant(n@, i, v@, cviews(s@))
{ match cview(Content::TupleVariant(n, i, v, s)) { SVal::TupleVariant(_, _, _, x) => { assert(x =~= cviews(s@)); } _ => {} } }
pub broadcast proof fn lemma_cview_struct_variant(n: &'static str, i: u32, v: &'static str, s: Vec<(&'static str, Content)>)
    ensures #[trigger] cview(Content::StructVariant(n, i, v, s)) == SVal::StructVariant(n@, i, v@, cviews1(s@))
{ match cview(Content::StructVariant(n, i, v, s)) { SVal::StructVariant(_, _, _, x) => { assert(x =~= cviews1(s@)); } _ => {} } }
pub broadcast proof fn lemma_cviews_push(s: Seq<Content>, c: Content)
    ensures #[trigger] cviews(s.push(c)) == cviews(s).push(cview(c))
{ assert(cviews(s.push(c)) =~= cviews(s).push(cview(c))); }
pub broadcast proof fn lemma_cviews_skip(s: Seq<Content>, i: int)
    requires 0 <= i < s.len()
    ensures #![trigger cviews(s).skip(i), s[i]] cviews(s).skip(i) == cons(cview(s[i]), cviews(s).skip(i + 1))
{ assert(cviews(s).skip(i) =~= cons(cview(s[i]), cviews(s).skip(i + 1))); }
pub broadcast proof fn lemma_cviews_zero(s: Seq<Content>)
    ensures #[trigger] cviews(s).skip(0) == cviews(s)
{ assert(cviews(s).skip(0) =~= cviews(s)); }
pub broadcast proof fn lemma_cviews_empty(s: Seq<Content>)
    requires s.len() == 0
    ensures (#[trigger] cviews(s)) == Seq::empty()
{ assert(cviews(s) =~= Seq::empty()); }
pub broadcast proof fn lemma_cviews2_push(s: Seq<(Content, Content)>, c: (Content, Content))
    ensures #[trigger] cviews2(s.push(c)) == cviews2(s).push((cview(c.0), cview(c.1)))
{ assert(cviews2(s.push(c)) =~= cviews2(s).push((cview(c.0), cview(c.1)))); }
pub broadcast proof fn lemma_cviews2_skip(s: Seq<(Content, Content)>, i: int)
    requires 0 <= i < s.len()
    ensures #![trigger cviews2(s).skip(i), s[i]] cviews2(s).skip(i) == cons((cview(s[i].0), cview(s[i].1)), cviews2(s).skip(i + 1))
{ assert(cviews2(s).skip(i) =~= cons((cview(s[i].0), cview(s[i].1)), cviews2(s).skip(i + 1))); }
pub broadcast proof fn lemma_cviews2_zero(s: Seq<(Content, Content)>)
    ensures #[trigger] cviews2(s).skip(0) == cviews2(s)
{ assert(cviews2(s).skip(0) =~= cviews2(s)); }
pub broadcast proof fn lemma_cviews2_empty(s: Seq<(Content, Content)>)
    requires s.len() == 0
    ensures (#[trigger] cviews2(s)) == Seq::empty()
{ assert(cviews2(s) =~= Seq::empty()); }
pub broadcast proof fn lemma_cviews1_push(s: Seq<(&'static str, Content)>, c: (&'static str, Content))
    ensures #[trigger] cviews1(s.push(c)) == cviews1(s).push((c.0@, cview(c.1)))
{ assert(cviews1(s.push(c)) =~= cviews1(s).push((c.0@, cview(c.1)))); }
pub broadcast proof fn lemma_cviews1_skip(s: Seq<(&'static str, Content)>, i: int)
    requires 0 <= i < s.len()
    ensures #![trigger cviews1(s).skip(i), s[i]] cviews1(s).skip(i) == cons((s[i].0@, cview(s[i].1)), cviews1(s).skip(i + 1))
{ assert(cviews1(s).skip(i) =~= cons((s[i].0@, cview(s[i].1)), cviews1(s).skip(i + 1))); }
pub broadcast proof fn lemma_cviews1_zero(s: Seq<(&'static str, Content)>)
    ensures #[trigger] cviews1(s).skip(0) == cviews1(s)
{ assert(cviews1(s).skip(0) =~= cviews1(s)); }
pub broadcast proof fn lemma_cviews1_empty(s: Seq<(&'static str, Content)>)
    requires s.len() == 0
    ensures (#[trigger] cviews1(s)) == Seq::empty()
{ assert(cviews1(s) =~= Seq::empty()); }
pub broadcast group group_ser { lemma_cview_seq, lemma_cview_tuple, lemma_cview_map, lemma_cview_tuple_struct, lemma_cview_struct, lemma_cview_tuple_variant, lemma_cview_struct_variant, lemma_cviews_push, lemma_cviews_skip, lemma_cviews_zero, lemma_cviews_empty, lemma_cviews2_push, lemma_cviews2_skip, lemma_cviews2_zero, lemma_cviews2_empty, lemma_cviews1_push, lemma_cviews1_skip, lemma_cviews1_zero, lemma_cviews1_empty }
@end
@bcast ser
crate::ser_lemmas::group_ser
@end

@spec ser::Wrap as Serialize
    open spec fn val(&self) -> SVal { self.0.eval() }
    open spec fn tells(&self) -> bool { self.0.etells() }
@end
@spec ser::Bytes as Serialize
    open spec fn val(&self) -> SVal { SVal::Bytes(self.0@) }
    open spec fn tells(&self) -> bool { true }
@end
@spec ser::Content as Serialize
    open spec fn val(&self) -> SVal { cview(*self) }
    // every buffered value announces its length again
    open spec fn tells(&self) -> bool { true }
@end
@spec ser::InternallyTaggedSerializer as Serializer
    open spec fn needs_len(&self) -> bool { self.delegate.needs_len() }
    open spec fn out(self, v: SVal, r: Res<S::Ok>) -> bool {
        ||| r is Err && its_out_err(self.tag@, self.variant@, v)
        ||| !its_rejects(self.tag@, self.variant@, v) && self.delegate.out(its_shape(self.tag@, self.variant@, v), r)
    }
@end
@imreq ser::InternallyTaggedSerializer as Serializer::serialize_map
    requires match $1 { Some(n) => n < usize::MAX, None => true },
@end
@imreq ser::InternallyTaggedSerializer as Serializer::serialize_struct
    requires $2 < usize::MAX,
@end
@fn ser::InternallyTaggedSerializer::serialize_default
    ensures foreign(crate::serde::ser::srv(r))
        || self.delegate.out(SVal::Map(two(tag_entry(self.tag@, self.variant@), (SVal::Str("value"@), $1.val()))), crate::serde::ser::srv(r))
@end
@spec ser::ContentSerializer as Serializer
    open spec fn needs_len(&self) -> bool { false }
    open spec fn out(self, v: SVal, r: Res<Content>) -> bool {
        match r { Res::Ok(c) => cview(c) == v, Res::Err(_) => has_fail(v) }
    }
@end

@spec ser::SerializeSeqAsMapValue as SerializeSeq
    open spec fn sq_cont(&self, es: Seq<SVal>, rr: Res<M::Ok>) -> bool {
        (rr is Err && any_fail(es)) || self.map.mp_vcont(SVal::Seq(cviews(self.fields@) + es), Seq::empty(), rr)
    }
    open spec fn sq_inv(&self) -> bool { self.map.mp_pend() && room_end(self.map.mp_room()) }
    open spec fn sq_room(&self) -> Option<int> { None }
@end

@spec ser::SerializeTupleAsMapValue as SerializeTuple
    open spec fn tp_cont(&self, es: Seq<SVal>, rr: Res<M::Ok>) -> bool {
        (rr is Err && any_fail(es)) || self.map.mp_vcont(SVal::Tuple(cviews(self.fields@) + es), Seq::empty(), rr)
    }
    open spec fn tp_inv(&self) -> bool { self.map.mp_pend() && room_end(self.map.mp_room()) }
    open spec fn tp_room(&self) -> Option<int> { None }
@end

@spec ser::SerializeTupleStructAsMapValue as SerializeTupleStruct
    open spec fn ts_cont(&self, es: Seq<SVal>, rr: Res<M::Ok>) -> bool {
        (rr is Err && any_fail(es)) || self.map.mp_vcont(SVal::TupleStruct(self.name@, cviews(self.fields@) + es), Seq::empty(), rr)
    }
    open spec fn ts_inv(&self) -> bool { self.map.mp_pend() && room_end(self.map.mp_room()) }
    open spec fn ts_room(&self) -> Option<int> { None }
@end

@spec ser::SerializeTupleStructAsMapValue as SerializeTupleVariant
    open spec fn tv_cont(&self, es: Seq<SVal>, rr: Res<M::Ok>) -> bool {
        (rr is Err && any_fail(es)) || self.map.mp_vcont(SVal::TupleStruct(self.name@, cviews(self.fields@) + es), Seq::empty(), rr)
    }
    open spec fn tv_inv(&self) -> bool { self.map.mp_pend() && room_end(self.map.mp_room()) }
    open spec fn tv_room(&self) -> Option<int> { None }
@end

@spec ser::SerializeStructVariantAsMapValue as SerializeStructVariant
    open spec fn sv_cont(&self, es: Seq<(Seq<char>, SVal)>, rr: Res<M::Ok>) -> bool {
        (rr is Err && any_fail1(es)) || self.map.mp_vcont(SVal::Struct(self.name@, cviews1(self.fields@) + es), Seq::empty(), rr)
    }
    open spec fn sv_inv(&self) -> bool { self.map.mp_pend() && room_end(self.map.mp_room()) }
    open spec fn sv_room(&self) -> Option<int> { None }
@end

@spec ser::SerializeStructAsMap as SerializeStruct
    open spec fn st_cont(&self, es: Seq<(Seq<char>, SVal)>, rr: Res<M::Ok>) -> bool {
        if disagrees(es, self.tag@, self.variant@) { rr is Err } else { self.map.mp_cont(strip(es, self.tag@), rr) }
    }
    open spec fn st_inv(&self) -> bool { !self.map.mp_pend() }
    open spec fn st_room(&self) -> Option<int> { self.map.mp_room() }
@end
// The field that repeats the tag is announced but not written: known finding
// KF1 of C06. Every other field counts.
@im ser::SerializeStructAsMap as SerializeStruct::serialize_field
    requires old(self).st_inv(), room_ok(old(self).st_room()),
    ensures seen($2.val()),
    match $r {
        Ok(_) => final(self).st_inv() && ($1@ != old(self).tag@ ==> final(self).st_room() == dec(old(self).st_room()))
            && forall|es: Seq<(Seq<char>, SVal)>, rr: Res<M::Ok>| #[trigger] final(self).st_cont(es, rr) ==> old(self).st_cont(cons(($1@, $2.val()), es), rr),
        Err(e) => e.kind() is Foreign || forall|es: Seq<(Seq<char>, SVal)>| old(self).st_cont(#[trigger] cons(($1@, $2.val()), es), Res::Err(e.kind())),
    }
@end

@spec ser::ContentSerializeSeq as SerializeSeq
    open spec fn sq_cont(&self, es: Seq<SVal>, rr: Res<Content>) -> bool {
        match rr { Res::Ok(c) => cview(c) == SVal::Seq(cviews(self.elements@) + es), Res::Err(_) => any_fail(es) }
    }
    open spec fn sq_inv(&self) -> bool { true }
    open spec fn sq_room(&self) -> Option<int> { None }
@end

@spec ser::ContentSerializeTuple as SerializeTuple
    open spec fn tp_cont(&self, es: Seq<SVal>, rr: Res<Content>) -> bool {
        match rr { Res::Ok(c) => cview(c) == SVal::Tuple(cviews(self.elements@) + es), Res::Err(_) => any_fail(es) }
    }
    open spec fn tp_inv(&self) -> bool { true }
    open spec fn tp_room(&self) -> Option<int> { None }
@end

@spec ser::ContentSerializeTupleStruct as SerializeTupleStruct
    open spec fn ts_cont(&self, es: Seq<SVal>, rr: Res<Content>) -> bool {
        match rr { Res::Ok(c) => cview(c) == SVal::TupleStruct(self.name@, cviews(self.fields@) + es), Res::Err(_) => any_fail(es) }
    }
    open spec fn ts_inv(&self) -> bool { true }
    open spec fn ts_room(&self) -> Option<int> { None }
@end

@spec ser::ContentSerializeTupleVariant as SerializeTupleVariant
    open spec fn tv_cont(&self, es: Seq<SVal>, rr: Res<Content>) -> bool {
        match rr { Res::Ok(c) => cview(c) == SVal::TupleVariant(self.name@, self.variant_index, self.variant@, cviews(self.fields@) + es), Res::Err(_) => any_fail(es) }
    }
    open spec fn tv_inv(&self) -> bool { true }
    open spec fn tv_room(&self) -> Option<int> { None }
@end

@spec ser::ContentSerializeStruct as SerializeStruct
    open spec fn st_cont(&self, es: Seq<(Seq<char>, SVal)>, rr: Res<Content>) -> bool {
        match rr { Res::Ok(c) => cview(c) == SVal::Struct(self.name@, cviews1(self.fields@) + es), Res::Err(_) => any_fail1(es) }
    }
    open spec fn st_inv(&self) -> bool { true }
    open spec fn st_room(&self) -> Option<int> { None }
@end

@spec ser::ContentSerializeStructVariant as SerializeStructVariant
    open spec fn sv_cont(&self, es: Seq<(Seq<char>, SVal)>, rr: Res<Content>) -> bool {
        match rr { Res::Ok(c) => cview(c) == SVal::StructVariant(self.name@, self.variant_index, self.variant@, cviews1(self.fields@) + es), Res::Err(_) => any_fail1(es) }
    }
    open spec fn sv_inv(&self) -> bool { true }
    open spec fn sv_room(&self) -> Option<int> { None }
@end

@spec ser::ContentSerializeMap as SerializeMap
    open spec fn mp_cont(&self, es: Seq<(SVal, SVal)>, rr: Res<Content>) -> bool {
        match rr { Res::Ok(c) => cview(c) == SVal::Map(cviews2(self.entries@) + es), Res::Err(_) => any_fail2(es) }
    }
    open spec fn mp_vcont(&self, v: SVal, es: Seq<(SVal, SVal)>, rr: Res<Content>) -> bool {
        match rr {
            Res::Ok(c) => self.key matches Some(k) && cview(c) == SVal::Map(cviews2(self.entries@) + cons((cview(k), v), es)),
            Res::Err(_) => has_fail(v) || any_fail2(es),
        }
    }
    open spec fn mp_pend(&self) -> bool { self.key is Some }
    open spec fn mp_room(&self) -> Option<int> { None }
@end
@loop ser::Content as Serialize::serialize 0
    invariant
        self.val() == SVal::Tuple(cviews($it.all())),
        0 <= $it.pos() <= $it.all().len(),
        $try.tp_inv(), room_is($try.tp_room(), $it.all().len() - $it.pos()),
        cviews($it.all()).skip($it.pos()).len() == $it.all().len() - $it.pos(),
        forall|rr: Res<S::Ok>| #[trigger] $try.tp_cont(cviews($it.all()).skip($it.pos()), rr) ==> $1.out(self.val(), rr),
    ensures $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end

@loop ser::Content as Serialize::serialize 1
    invariant
        self.val() == SVal::TupleStruct(self.val()->TupleStruct_0, cviews($it2.all())),
        0 <= $it2.pos() <= $it2.all().len(),
        $try2.ts_inv(), room_is($try2.ts_room(), $it2.all().len() - $it2.pos()),
        cviews($it2.all()).skip($it2.pos()).len() == $it2.all().len() - $it2.pos(),
        forall|rr: Res<S::Ok>| #[trigger] $try2.ts_cont(cviews($it2.all()).skip($it2.pos()), rr) ==> $1.out(self.val(), rr),
    ensures $it2.pos() == $it2.all().len(),
    decreases $it2.all().len() - $it2.pos(),
@end

@loop ser::Content as Serialize::serialize 2
    invariant
        self.val() == SVal::TupleVariant(self.val()->TupleVariant_0, self.val()->TupleVariant_1, self.val()->TupleVariant_2, cviews($it3.all())),
        0 <= $it3.pos() <= $it3.all().len(),
        $try3.tv_inv(), room_is($try3.tv_room(), $it3.all().len() - $it3.pos()),
        cviews($it3.all()).skip($it3.pos()).len() == $it3.all().len() - $it3.pos(),
        forall|rr: Res<S::Ok>| #[trigger] $try3.tv_cont(cviews($it3.all()).skip($it3.pos()), rr) ==> $1.out(self.val(), rr),
    ensures $it3.pos() == $it3.all().len(),
    decreases $it3.all().len() - $it3.pos(),
@end

@loop ser::Content as Serialize::serialize 3
    invariant
        self.val() == SVal::Map(cviews2($it4.all())),
        0 <= $it4.pos() <= $it4.all().len(),
        !$try4.mp_pend(), room_is($try4.mp_room(), $it4.all().len() - $it4.pos()),
        cviews2($it4.all()).skip($it4.pos()).len() == $it4.all().len() - $it4.pos(),
        forall|rr: Res<S::Ok>| #[trigger] $try4.mp_cont(cviews2($it4.all()).skip($it4.pos()), rr) ==> $1.out(self.val(), rr),
    ensures $it4.pos() == $it4.all().len(),
    decreases $it4.all().len() - $it4.pos(),
@end

@loop ser::Content as Serialize::serialize 4
    invariant
        self.val() == SVal::Struct(self.val()->Struct_0, cviews1($it5.all())),
        0 <= $it5.pos() <= $it5.all().len(),
        $try5.st_inv(), room_is($try5.st_room(), $it5.all().len() - $it5.pos()),
        cviews1($it5.all()).skip($it5.pos()).len() == $it5.all().len() - $it5.pos(),
        forall|rr: Res<S::Ok>| #[trigger] $try5.st_cont(cviews1($it5.all()).skip($it5.pos()), rr) ==> $1.out(self.val(), rr),
    ensures $it5.pos() == $it5.all().len(),
    decreases $it5.all().len() - $it5.pos(),
@end

@loop ser::Content as Serialize::serialize 5
    invariant
        self.val() == SVal::StructVariant(self.val()->StructVariant_0, self.val()->StructVariant_1, self.val()->StructVariant_2, cviews1($it6.all())),
        0 <= $it6.pos() <= $it6.all().len(),
        $try6.sv_inv(), room_is($try6.sv_room(), $it6.all().len() - $it6.pos()),
        cviews1($it6.all()).skip($it6.pos()).len() == $it6.all().len() - $it6.pos(),
        forall|rr: Res<S::Ok>| #[trigger] $try6.sv_cont(cviews1($it6.all()).skip($it6.pos()), rr) ==> $1.out(self.val(), rr),
    ensures $it6.pos() == $it6.all().len(),
    decreases $it6.all().len() - $it6.pos(),
@end

@spec is_serialize_str::Serializer as Serializer
    open spec fn needs_len(&self) -> bool { false }
    open spec fn out(self, v: SVal, r: Res<Void>) -> bool { r == Res::<Void>::Err(probe_kind(v, self.expected_str@)) }
@end
@spec is_serialize_str::SerializerState as Error
    open spec fn kind(&self) -> EK {
        match *self {
            SerializerState::Ok => EK::ProbeOk,
            SerializerState::UnexpectedStr(s) => EK::ProbeStr(s@),
            SerializerState::UnexpectedKind => EK::ProbeKind,
        }
    }
@end
@fn is_serialize_str::expect_str
    ensures match $r {
        Ok(_) => str_like($1.val()) == Some($2@),
        Err(_) => str_like($1.val()) != Some($2@),
    }
@end
@fn externally::serialize
    ensures foreign(crate::serde::ser::srv(r)) || $1.out(SVal::Map(one((SVal::Str($2@), $3.eval()))), crate::serde::ser::srv(r))
@end
@fn adjacently::serialize
    ensures foreign(crate::serde::ser::srv(r)) || $1.out(SVal::Struct($2@, cons(($3@, SVal::Str($4@)), cons(($5@, $6.eval()), Seq::empty()))), crate::serde::ser::srv(r))
@end
@fn internally::serialize
    requires $1.needs_len() ==> $4.etells()
    ensures foreign(crate::serde::ser::srv(r))
        || (r is Err && its_out_err($2@, $3@, $4.eval()))
        || (!its_rejects($2@, $3@, $4.eval()) && $1.out(its_shape($2@, $3@, $4.eval()), crate::serde::ser::srv(r)))
@end
@proof ser::Content as Serialize::serialize
    proof {
        match self {
            Content::Seq(e) => { match e.val() { SVal::Seq(x) => { assert(x =~= cviews(e@)); } _ => {} } }
            _ => {}
        }
    }
@end
