// Contracts of the serializing half.

@traitspec ser::Error
    spec fn kind(&self) -> EK;
@end
@tm ser::Error::custom
    ensures is_custom($r.kind())
@end
@traitspec ser::Serialize
    spec fn val(&self) -> SVal;
    /// If it is written as a sequence or map, its length is announced.
    spec fn tells(&self) -> bool;
@end
@tm ser::Serialize::serialize
    requires $1.needs_len() ==> self.tells(),
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(self.val(), crate::serde::ser::srv($r))
@end

@traitspec ser::Serializer
    /// It refuses sequences and maps whose length is not announced.
    spec fn needs_len(&self) -> bool;
    spec fn out(self, v: crate::spec::SVal, r: crate::spec::Res<Self::Ok>) -> bool;
@end
@tm ser::Serializer::serialize_%1 for bool:Bool i8:I8 i16:I16 i32:I32 i64:I64 i128:I128 u8:U8 u16:U16 u32:U32 u64:U64 u128:U128 f32:F32 f64:F64 char:Char
    ensures crate::spec::foreign(crate::serde::ser::srv($r)) || self.out(crate::spec::SVal::%2($1), crate::serde::ser::srv($r))
@end
@tm ser::Serializer::serialize_%1 for str:Str bytes:Bytes unit_struct:UnitStruct
    ensures crate::spec::foreign(crate::serde::ser::srv($r)) || self.out(crate::spec::SVal::%2($1@), crate::serde::ser::srv($r))
@end
@tm ser::Serializer::serialize_%1 for none:None unit:Unit
    ensures crate::spec::foreign(crate::serde::ser::srv($r)) || self.out(crate::spec::SVal::%2, crate::serde::ser::srv($r))
@end
@tm ser::Serializer::serialize_some
    requires self.needs_len() ==> $1.tells(),
    ensures crate::spec::foreign(crate::serde::ser::srv($r)) || self.out(crate::spec::SVal::Some(Box::new($1.val())), crate::serde::ser::srv($r))
@end
@tm ser::Serializer::serialize_unit_variant
    ensures crate::spec::foreign(crate::serde::ser::srv($r)) || self.out(crate::spec::SVal::UnitVariant($1@, $2, $3@), crate::serde::ser::srv($r))
@end
@tm ser::Serializer::serialize_newtype_struct
    requires self.needs_len() ==> $2.tells(),
    ensures crate::spec::foreign(crate::serde::ser::srv($r)) || self.out(crate::spec::SVal::NewtypeStruct($1@, Box::new($2.val())), crate::serde::ser::srv($r))
@end
@tm ser::Serializer::serialize_newtype_variant
    ensures crate::spec::foreign(crate::serde::ser::srv($r)) || self.out(crate::spec::SVal::NewtypeVariant($1@, $2, $3@, Box::new($4.val())), crate::serde::ser::srv($r))
@end

@tm ser::Serializer::serialize_seq
    requires self.needs_len() ==> ($1 is Some),
    ensures match $r {
        Ok(st) => st.sq_inv() && crate::spec::room_hint(st.sq_room(), $1)
            && forall|es: Seq<crate::spec::SVal>, rr: crate::spec::Res<Self::Ok>| #[trigger] st.sq_cont(es, rr) ==> self.out(crate::spec::SVal::Seq(es), rr),
        Err(e) => e.kind() is Foreign || forall|es: Seq<crate::spec::SVal>| #[trigger] self.out(crate::spec::SVal::Seq(es), crate::spec::Res::Err(e.kind())),
    }
@end

@tm ser::Serializer::serialize_tuple
    ensures match $r {
        Ok(st) => st.tp_inv() && crate::spec::room_is(st.tp_room(), $1 as int)
            && forall|es: Seq<crate::spec::SVal>, rr: crate::spec::Res<Self::Ok>| #[trigger] st.tp_cont(es, rr) ==> self.out(crate::spec::SVal::Tuple(es), rr),
        Err(e) => e.kind() is Foreign || forall|es: Seq<crate::spec::SVal>| #[trigger] self.out(crate::spec::SVal::Tuple(es), crate::spec::Res::Err(e.kind())),
    }
@end

@tm ser::Serializer::serialize_tuple_struct
    ensures match $r {
        Ok(st) => st.ts_inv() && crate::spec::room_is(st.ts_room(), $2 as int)
            && forall|es: Seq<crate::spec::SVal>, rr: crate::spec::Res<Self::Ok>| #[trigger] st.ts_cont(es, rr) ==> self.out(crate::spec::SVal::TupleStruct($1@, es), rr),
        Err(e) => e.kind() is Foreign || forall|es: Seq<crate::spec::SVal>| #[trigger] self.out(crate::spec::SVal::TupleStruct($1@, es), crate::spec::Res::Err(e.kind())),
    }
@end

@tm ser::Serializer::serialize_tuple_variant
    ensures match $r {
        Ok(st) => st.tv_inv() && crate::spec::room_is(st.tv_room(), $4 as int)
            && forall|es: Seq<crate::spec::SVal>, rr: crate::spec::Res<Self::Ok>| #[trigger] st.tv_cont(es, rr) ==> self.out(crate::spec::SVal::TupleVariant($1@, $2, $3@, es), rr),
        Err(e) => e.kind() is Foreign || forall|es: Seq<crate::spec::SVal>| #[trigger] self.out(crate::spec::SVal::TupleVariant($1@, $2, $3@, es), crate::spec::Res::Err(e.kind())),
    }
@end

@tm ser::Serializer::serialize_map
    requires self.needs_len() ==> ($1 is Some),
    ensures match $r {
        Ok(st) => !st.mp_pend() && crate::spec::room_hint(st.mp_room(), $1)
            && forall|es: Seq<(crate::spec::SVal, crate::spec::SVal)>, rr: crate::spec::Res<Self::Ok>| #[trigger] st.mp_cont(es, rr) ==> self.out(crate::spec::SVal::Map(es), rr),
        Err(e) => e.kind() is Foreign || forall|es: Seq<(crate::spec::SVal, crate::spec::SVal)>| #[trigger] self.out(crate::spec::SVal::Map(es), crate::spec::Res::Err(e.kind())),
    }
@end

@tm ser::Serializer::serialize_struct
    ensures match $r {
        Ok(st) => st.st_inv() && crate::spec::room_is(st.st_room(), $2 as int)
            && forall|es: Seq<(Seq<char>, crate::spec::SVal)>, rr: crate::spec::Res<Self::Ok>| #[trigger] st.st_cont(es, rr) ==> self.out(crate::spec::SVal::Struct($1@, es), rr),
        Err(e) => e.kind() is Foreign || forall|es: Seq<(Seq<char>, crate::spec::SVal)>| #[trigger] self.out(crate::spec::SVal::Struct($1@, es), crate::spec::Res::Err(e.kind())),
    }
@end

@tm ser::Serializer::serialize_struct_variant
    ensures match $r {
        Ok(st) => st.sv_inv() && crate::spec::room_is(st.sv_room(), $4 as int)
            && forall|es: Seq<(Seq<char>, crate::spec::SVal)>, rr: crate::spec::Res<Self::Ok>| #[trigger] st.sv_cont(es, rr) ==> self.out(crate::spec::SVal::StructVariant($1@, $2, $3@, es), rr),
        Err(e) => e.kind() is Foreign || forall|es: Seq<(Seq<char>, crate::spec::SVal)>| #[trigger] self.out(crate::spec::SVal::StructVariant($1@, $2, $3@, es), crate::spec::Res::Err(e.kind())),
    }
@end

@traitspec ser::SerializeSeq
    spec fn sq_cont(&self, es: Seq<crate::spec::SVal>, rr: crate::spec::Res<Self::Ok>) -> bool;
    spec fn sq_inv(&self) -> bool;
    spec fn sq_room(&self) -> Option<int>;
@end
@tm ser::SerializeSeq::serialize_element
    requires old(self).sq_inv(), crate::spec::room_ok(old(self).sq_room()),
    ensures crate::spec::seen($1.val()),
    match $r {
        Ok(_) => final(self).sq_inv() && final(self).sq_room() == crate::spec::dec(old(self).sq_room())
            && forall|es: Seq<crate::spec::SVal>, rr: crate::spec::Res<Self::Ok>| #[trigger] final(self).sq_cont(es, rr) ==> old(self).sq_cont(crate::spec::cons($1.val(), es), rr),
        Err(e) => e.kind() is Foreign || forall|es: Seq<crate::spec::SVal>| old(self).sq_cont(#[trigger] crate::spec::cons($1.val(), es), crate::spec::Res::Err(e.kind())),
    }
@end
@tm ser::SerializeSeq::end
    requires self.sq_inv(), crate::spec::room_end(self.sq_room()),
    ensures crate::spec::foreign(crate::serde::ser::srv($r)) || self.sq_cont(Seq::empty(), crate::serde::ser::srv($r))
@end

@traitspec ser::SerializeTuple
    spec fn tp_cont(&self, es: Seq<crate::spec::SVal>, rr: crate::spec::Res<Self::Ok>) -> bool;
    spec fn tp_inv(&self) -> bool;
    spec fn tp_room(&self) -> Option<int>;
@end
@tm ser::SerializeTuple::serialize_element
    requires old(self).tp_inv(), crate::spec::room_ok(old(self).tp_room()),
    ensures crate::spec::seen($1.val()),
    match $r {
        Ok(_) => final(self).tp_inv() && final(self).tp_room() == crate::spec::dec(old(self).tp_room())
            && forall|es: Seq<crate::spec::SVal>, rr: crate::spec::Res<Self::Ok>| #[trigger] final(self).tp_cont(es, rr) ==> old(self).tp_cont(crate::spec::cons($1.val(), es), rr),
        Err(e) => e.kind() is Foreign || forall|es: Seq<crate::spec::SVal>| old(self).tp_cont(#[trigger] crate::spec::cons($1.val(), es), crate::spec::Res::Err(e.kind())),
    }
@end
@tm ser::SerializeTuple::end
    requires self.tp_inv(), crate::spec::room_end(self.tp_room()),
    ensures crate::spec::foreign(crate::serde::ser::srv($r)) || self.tp_cont(Seq::empty(), crate::serde::ser::srv($r))
@end

@traitspec ser::SerializeTupleStruct
    spec fn ts_cont(&self, es: Seq<crate::spec::SVal>, rr: crate::spec::Res<Self::Ok>) -> bool;
    spec fn ts_inv(&self) -> bool;
    spec fn ts_room(&self) -> Option<int>;
@end
@tm ser::SerializeTupleStruct::serialize_field
    requires old(self).ts_inv(), crate::spec::room_ok(old(self).ts_room()),
    ensures crate::spec::seen($1.val()),
    match $r {
        Ok(_) => final(self).ts_inv() && final(self).ts_room() == crate::spec::dec(old(self).ts_room())
            && forall|es: Seq<crate::spec::SVal>, rr: crate::spec::Res<Self::Ok>| #[trigger] final(self).ts_cont(es, rr) ==> old(self).ts_cont(crate::spec::cons($1.val(), es), rr),
        Err(e) => e.kind() is Foreign || forall|es: Seq<crate::spec::SVal>| old(self).ts_cont(#[trigger] crate::spec::cons($1.val(), es), crate::spec::Res::Err(e.kind())),
    }
@end
@tm ser::SerializeTupleStruct::end
    requires self.ts_inv(), crate::spec::room_end(self.ts_room()),
    ensures crate::spec::foreign(crate::serde::ser::srv($r)) || self.ts_cont(Seq::empty(), crate::serde::ser::srv($r))
@end

@traitspec ser::SerializeTupleVariant
    spec fn tv_cont(&self, es: Seq<crate::spec::SVal>, rr: crate::spec::Res<Self::Ok>) -> bool;
    spec fn tv_inv(&self) -> bool;
    spec fn tv_room(&self) -> Option<int>;
@end
@tm ser::SerializeTupleVariant::serialize_field
    requires old(self).tv_inv(), crate::spec::room_ok(old(self).tv_room()),
    ensures crate::spec::seen($1.val()),
    match $r {
        Ok(_) => final(self).tv_inv() && final(self).tv_room() == crate::spec::dec(old(self).tv_room())
            && forall|es: Seq<crate::spec::SVal>, rr: crate::spec::Res<Self::Ok>| #[trigger] final(self).tv_cont(es, rr) ==> old(self).tv_cont(crate::spec::cons($1.val(), es), rr),
        Err(e) => e.kind() is Foreign || forall|es: Seq<crate::spec::SVal>| old(self).tv_cont(#[trigger] crate::spec::cons($1.val(), es), crate::spec::Res::Err(e.kind())),
    }
@end
@tm ser::SerializeTupleVariant::end
    requires self.tv_inv(), crate::spec::room_end(self.tv_room()),
    ensures crate::spec::foreign(crate::serde::ser::srv($r)) || self.tv_cont(Seq::empty(), crate::serde::ser::srv($r))
@end

@traitspec ser::SerializeStruct
    spec fn st_cont(&self, es: Seq<(Seq<char>, crate::spec::SVal)>, rr: crate::spec::Res<Self::Ok>) -> bool;
    spec fn st_inv(&self) -> bool;
    spec fn st_room(&self) -> Option<int>;
@end
@tm ser::SerializeStruct::serialize_field
    requires old(self).st_inv(), crate::spec::room_ok(old(self).st_room()),
    ensures crate::spec::seen($2.val()),
    match $r {
        Ok(_) => final(self).st_inv() && final(self).st_room() == crate::spec::dec(old(self).st_room())
            && forall|es: Seq<(Seq<char>, crate::spec::SVal)>, rr: crate::spec::Res<Self::Ok>| #[trigger] final(self).st_cont(es, rr) ==> old(self).st_cont(crate::spec::cons(($1@, $2.val()), es), rr),
        Err(e) => e.kind() is Foreign || forall|es: Seq<(Seq<char>, crate::spec::SVal)>| old(self).st_cont(#[trigger] crate::spec::cons(($1@, $2.val()), es), crate::spec::Res::Err(e.kind())),
    }
@end
@tm ser::SerializeStruct::end
    requires self.st_inv(), crate::spec::room_end(self.st_room()),
    ensures crate::spec::foreign(crate::serde::ser::srv($r)) || self.st_cont(Seq::empty(), crate::serde::ser::srv($r))
@end

@traitspec ser::SerializeStructVariant
    spec fn sv_cont(&self, es: Seq<(Seq<char>, crate::spec::SVal)>, rr: crate::spec::Res<Self::Ok>) -> bool;
    spec fn sv_inv(&self) -> bool;
    spec fn sv_room(&self) -> Option<int>;
@end
@tm ser::SerializeStructVariant::serialize_field
    requires old(self).sv_inv(), crate::spec::room_ok(old(self).sv_room()),
    ensures crate::spec::seen($2.val()),
    match $r {
        Ok(_) => final(self).sv_inv() && final(self).sv_room() == crate::spec::dec(old(self).sv_room())
            && forall|es: Seq<(Seq<char>, crate::spec::SVal)>, rr: crate::spec::Res<Self::Ok>| #[trigger] final(self).sv_cont(es, rr) ==> old(self).sv_cont(crate::spec::cons(($1@, $2.val()), es), rr),
        Err(e) => e.kind() is Foreign || forall|es: Seq<(Seq<char>, crate::spec::SVal)>| old(self).sv_cont(#[trigger] crate::spec::cons(($1@, $2.val()), es), crate::spec::Res::Err(e.kind())),
    }
@end
@tm ser::SerializeStructVariant::end
    requires self.sv_inv(), crate::spec::room_end(self.sv_room()),
    ensures crate::spec::foreign(crate::serde::ser::srv($r)) || self.sv_cont(Seq::empty(), crate::serde::ser::srv($r))
@end

@tm ser::SerializeStruct::skip_field
    requires old(self).st_inv(),
    ensures match $r {
        Ok(_) => final(self).st_inv() && final(self).st_room() == old(self).st_room()
            && forall|es: Seq<(Seq<char>, crate::spec::SVal)>, rr: crate::spec::Res<Self::Ok>| #[trigger] final(self).st_cont(es, rr) ==> old(self).st_cont(es, rr),
        Err(e) => e.kind() is Foreign || forall|es: Seq<(Seq<char>, crate::spec::SVal)>| #[trigger] old(self).st_cont(es, crate::spec::Res::Err(e.kind())),
    }
@end

@tm ser::SerializeStructVariant::skip_field
    requires old(self).sv_inv(),
    ensures match $r {
        Ok(_) => final(self).sv_inv() && final(self).sv_room() == old(self).sv_room()
            && forall|es: Seq<(Seq<char>, crate::spec::SVal)>, rr: crate::spec::Res<Self::Ok>| #[trigger] final(self).sv_cont(es, rr) ==> old(self).sv_cont(es, rr),
        Err(e) => e.kind() is Foreign || forall|es: Seq<(Seq<char>, crate::spec::SVal)>| #[trigger] old(self).sv_cont(es, crate::spec::Res::Err(e.kind())),
    }
@end

@traitspec ser::SerializeMap
    spec fn mp_cont(&self, es: Seq<(crate::spec::SVal, crate::spec::SVal)>, rr: crate::spec::Res<Self::Ok>) -> bool;
    spec fn mp_vcont(&self, v: crate::spec::SVal, es: Seq<(crate::spec::SVal, crate::spec::SVal)>, rr: crate::spec::Res<Self::Ok>) -> bool;
    spec fn mp_pend(&self) -> bool;
    spec fn mp_room(&self) -> Option<int>;
@end
@tm ser::SerializeMap::serialize_key
    requires !old(self).mp_pend(), crate::spec::room_ok(old(self).mp_room()),
    ensures crate::spec::seen($1.val()),
    match $r {
        Ok(_) => final(self).mp_pend() && final(self).mp_room() == crate::spec::dec(old(self).mp_room())
            && forall|v: crate::spec::SVal, es: Seq<(crate::spec::SVal, crate::spec::SVal)>, rr: crate::spec::Res<Self::Ok>| #[trigger] final(self).mp_vcont(v, es, rr) ==> old(self).mp_cont(crate::spec::cons(($1.val(), v), es), rr),
        Err(e) => e.kind() is Foreign || forall|v: crate::spec::SVal, es: Seq<(crate::spec::SVal, crate::spec::SVal)>| old(self).mp_cont(#[trigger] crate::spec::cons(($1.val(), v), es), crate::spec::Res::Err(e.kind())),
    }
@end
@tm ser::SerializeMap::serialize_value
    requires old(self).mp_pend(),
    ensures crate::spec::seen($1.val()),
    match $r {
        Ok(_) => !final(self).mp_pend() && final(self).mp_room() == old(self).mp_room()
            && forall|es: Seq<(crate::spec::SVal, crate::spec::SVal)>, rr: crate::spec::Res<Self::Ok>| #[trigger] final(self).mp_cont(es, rr) ==> old(self).mp_vcont($1.val(), es, rr),
        Err(e) => e.kind() is Foreign || forall|es: Seq<(crate::spec::SVal, crate::spec::SVal)>| #[trigger] old(self).mp_vcont($1.val(), es, crate::spec::Res::Err(e.kind())),
    }
@end
@tm ser::SerializeMap::serialize_entry
    requires !old(self).mp_pend(), crate::spec::room_ok(old(self).mp_room()),
    ensures crate::spec::seen($1.val()), crate::spec::seen($2.val()),
    match $r {
        Ok(_) => !final(self).mp_pend() && final(self).mp_room() == crate::spec::dec(old(self).mp_room())
            && forall|es: Seq<(crate::spec::SVal, crate::spec::SVal)>, rr: crate::spec::Res<Self::Ok>| #[trigger] final(self).mp_cont(es, rr) ==> old(self).mp_cont(crate::spec::cons(($1.val(), $2.val()), es), rr),
        Err(e) => e.kind() is Foreign || forall|es: Seq<(crate::spec::SVal, crate::spec::SVal)>| old(self).mp_cont(#[trigger] crate::spec::cons(($1.val(), $2.val()), es), crate::spec::Res::Err(e.kind())),
    }
@end
@tm ser::SerializeMap::end
    requires !self.mp_pend(), crate::spec::room_end(self.mp_room()),
    ensures crate::spec::foreign(crate::serde::ser::srv($r)) || self.mp_cont(Seq::empty(), crate::serde::ser::srv($r))
@end
