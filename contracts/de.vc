// Contracts of the deserializing half: serde's traits.

@traitspec de::Error
    spec fn kind(&self) -> EK;
@end
@tm de::Error::custom
    ensures $r.kind() == crate::spec::EK::Custom
@end
@tm de::Error::invalid_type
    ensures $r.kind() == crate::spec::EK::InvalidType
@end
@tm de::Error::invalid_value
    ensures $r.kind() == crate::spec::EK::InvalidValue
@end
@tm de::Error::invalid_length
    ensures $r.kind() == crate::spec::EK::InvalidLength($1 as int)
@end
@tm de::Error::unknown_variant
    ensures $r.kind() == crate::spec::EK::UnknownVariant($1@, crate::spec::names_of($2@))
@end
@tm de::Error::unknown_field
    ensures $r.kind() == crate::spec::EK::UnknownField($1@, crate::spec::names_of($2@))
@end
@tm de::Error::missing_field
    ensures $r.kind() == crate::spec::EK::MissingField($1@)
@end
@tm de::Error::duplicate_field
    ensures $r.kind() == crate::spec::EK::DuplicateField($1@)
@end

@traitspec de::Deserialize
    spec fn deser(src: Src, left: int, r: Res<Self>) -> bool;
@end
@tm de::Deserialize::deserialize
    requires crate::spec::there($1.src()),
    ensures crate::spec::foreign(crate::serde::de::srv($r)) || Self::deser($1.src(), $1.d_left(), crate::serde::de::srv($r))
@end
@traitspec de::DeserializeSeed
    spec fn seeded(self, src: Src, left: int, r: Res<Self::Value>) -> bool;
@end
@tm de::DeserializeSeed::deserialize
    requires crate::spec::there($1.src()),
    ensures crate::spec::foreign(crate::serde::de::srv($r)) || self.seeded($1.src(), $1.d_left(), crate::serde::de::srv($r))
@end

@traitspec de::Deserializer
    spec fn src(self) -> crate::spec::Src;
    #[verifier::prophetic] spec fn d_left(self) -> int;
@end
@tm de::Deserializer::deserialize_%1 for any:Any bool:Bool i8:I8 i16:I16 i32:I32 i64:I64 i128:I128 u8:U8 u16:U16 u32:U32 u64:U64 u128:U128 f32:F32 f64:F64 char:Char str:Str string:String bytes:Bytes byte_buf:ByteBuf option:Option unit:Unit seq:Seq map:Map identifier:Identifier ignored_any:IgnoredAny
    requires crate::spec::there(self.src()),
    ensures crate::spec::foreign(crate::serde::de::srv($r)) || crate::serde::de::delivered($1, self.src(), crate::spec::Hint::%2, self.d_left(), crate::serde::de::srv($r))
@end
@tm de::Deserializer::deserialize_%1 for unit_struct:UnitStruct newtype_struct:NewtypeStruct
    requires crate::spec::there(self.src()),
    ensures crate::spec::foreign(crate::serde::de::srv($r)) || crate::serde::de::delivered($2, self.src(), crate::spec::Hint::%2($1@), self.d_left(), crate::serde::de::srv($r))
@end
@tm de::Deserializer::deserialize_tuple
    requires crate::spec::there(self.src()),
    ensures crate::spec::foreign(crate::serde::de::srv($r)) || crate::serde::de::delivered($2, self.src(), crate::spec::Hint::Tuple($1), self.d_left(), crate::serde::de::srv($r))
@end
@tm de::Deserializer::deserialize_tuple_struct
    requires crate::spec::there(self.src()),
    ensures crate::spec::foreign(crate::serde::de::srv($r)) || crate::serde::de::delivered($3, self.src(), crate::spec::Hint::TupleStruct($1@, $2), self.d_left(), crate::serde::de::srv($r))
@end
@tm de::Deserializer::deserialize_%1 for struct:Struct enum:Enum
    requires crate::spec::there(self.src()),
    ensures crate::spec::foreign(crate::serde::de::srv($r)) || crate::serde::de::delivered($3, self.src(), crate::spec::Hint::%2($1@, crate::spec::names_of($2@)), self.d_left(), crate::serde::de::srv($r))
@end

@traitspec de::Visitor
    spec fn visited(self, e: crate::spec::Ev, left: int, r: crate::spec::Res<Self::Value>) -> bool;
@end
@tm de::Visitor::visit_%1 for bool:Bool i8:I8 i16:I16 i32:I32 i64:I64 i128:I128 u8:U8 u16:U16 u32:U32 u64:U64 u128:U128 f32:F32 f64:F64 char:Char
    ensures crate::spec::foreign(crate::serde::de::srv($r)) || self.visited(crate::spec::Ev::%2($1), 0, crate::serde::de::srv($r))
@end
@tm de::Visitor::visit_%1 for str:Str:Transient borrowed_str:Str:Borrowed string:Str:Owned bytes:Bytes:Transient borrowed_bytes:Bytes:Borrowed byte_buf:Bytes:Owned
    ensures crate::spec::foreign(crate::serde::de::srv($r)) || self.visited(crate::spec::Ev::%2($1@, crate::spec::Own::%3), 0, crate::serde::de::srv($r))
@end
@tm de::Visitor::visit_%1 for none:None unit:Unit
    ensures crate::spec::foreign(crate::serde::de::srv($r)) || self.visited(crate::spec::Ev::%2, 0, crate::serde::de::srv($r))
@end
@tm de::Visitor::visit_%1 for some:Some newtype_struct:Newtype
    requires crate::spec::there($1.src()),
    ensures crate::spec::foreign(crate::serde::de::srv($r)) || self.visited(crate::spec::Ev::%2($1.src()), $1.d_left(), crate::serde::de::srv($r))
@end
@tm de::Visitor::visit_seq
    ensures crate::spec::foreign(crate::serde::de::srv($r)) || self.visited(crate::spec::Ev::Seq($1.ssrc()), $1.s_left(), crate::serde::de::srv($r))
@end
@tm de::Visitor::visit_map
    ensures crate::spec::foreign(crate::serde::de::srv($r)) || self.visited(crate::spec::Ev::Map($1.msrc()), $1.m_left(), crate::serde::de::srv($r))
@end
@tm de::Visitor::visit_enum
    ensures crate::spec::foreign(crate::serde::de::srv($r)) || self.visited(crate::spec::Ev::Enum($1.esrc()), 0, crate::serde::de::srv($r))
@end

@traitspec de::SeqAccess
    spec fn ssrc(&self) -> Seq<crate::spec::Src>;
    #[verifier::prophetic] spec fn s_left(&self) -> int;
@end
@tm de::SeqAccess::next_element_seed
    ensures (*final(self)).s_left() == (*old(self)).s_left(),
    match $r {
        Ok(Some(v)) => 0 <= (*final(self)).s_left() <= (*final(self)).ssrc().len() && (*old(self)).ssrc().len() > 0 && (*final(self)).ssrc() == (*old(self)).ssrc().drop_first()
            && crate::serde::de::reads($1, (*old(self)).ssrc()[0], crate::spec::Res::Ok(v)),
        Ok(None) => (*old(self)).ssrc().len() == 0 && (*old(self)).s_left() == 0 && (*final(self)).ssrc() == (*old(self)).ssrc(),
        Err(e) => e.kind() is Foreign || ((*old(self)).ssrc().len() > 0
            && crate::serde::de::reads($1, (*old(self)).ssrc()[0], crate::spec::Res::Err(e.kind()))),
    }
@end
@tm de::SeqAccess::next_element
    ensures (*final(self)).s_left() == (*old(self)).s_left(),
    match $r {
        Ok(Some(v)) => 0 <= (*final(self)).s_left() <= (*final(self)).ssrc().len() && (*old(self)).ssrc().len() > 0 && (*final(self)).ssrc() == (*old(self)).ssrc().drop_first()
            && crate::serde::de::reads_as::<T>((*old(self)).ssrc()[0], crate::spec::Res::Ok(v)),
        Ok(None) => (*old(self)).ssrc().len() == 0 && (*old(self)).s_left() == 0 && (*final(self)).ssrc() == (*old(self)).ssrc(),
        Err(e) => e.kind() is Foreign || ((*old(self)).ssrc().len() > 0
            && crate::serde::de::reads_as::<T>((*old(self)).ssrc()[0], crate::spec::Res::Err(e.kind()))),
    }
@end

@traitspec de::MapAccess
    spec fn msrc(&self) -> crate::spec::MapSrc;
    #[verifier::prophetic] spec fn m_left(&self) -> int;
@end
@tm de::MapAccess::next_key_seed
    ensures (*final(self)).m_left() == (*old(self)).m_left(),
    match $r {
        Ok(Some(k)) => 0 <= (*final(self)).m_left() <= (*final(self)).msrc().rest.len() && (*old(self)).msrc().rest.len() > 0 && (*final(self)).msrc() == crate::spec::after_key((*old(self)).msrc())
            && crate::serde::de::reads($1, (*old(self)).msrc().rest[0].0, crate::spec::Res::Ok(k)),
        Ok(None) => (*old(self)).msrc().rest.len() == 0 && (*old(self)).m_left() == 0 && (*final(self)).msrc().rest.len() == 0,
        Err(e) => e.kind() is Foreign || ((*old(self)).msrc().rest.len() > 0
            && crate::serde::de::reads($1, (*old(self)).msrc().rest[0].0, crate::spec::Res::Err(e.kind()))),
    }
@end
@tm de::MapAccess::next_key
    ensures (*final(self)).m_left() == (*old(self)).m_left(),
    match $r {
        Ok(Some(k)) => 0 <= (*final(self)).m_left() <= (*final(self)).msrc().rest.len() && (*old(self)).msrc().rest.len() > 0 && (*final(self)).msrc() == crate::spec::after_key((*old(self)).msrc())
            && crate::serde::de::reads_as::<K>((*old(self)).msrc().rest[0].0, crate::spec::Res::Ok(k)),
        Ok(None) => (*old(self)).msrc().rest.len() == 0 && (*old(self)).m_left() == 0 && (*final(self)).msrc().rest.len() == 0,
        Err(e) => e.kind() is Foreign || ((*old(self)).msrc().rest.len() > 0
            && crate::serde::de::reads_as::<K>((*old(self)).msrc().rest[0].0, crate::spec::Res::Err(e.kind()))),
    }
@end
@tm de::MapAccess::next_value_seed
    requires (*old(self)).msrc().pend is Some,
    ensures (*final(self)).m_left() == (*old(self)).m_left(),
    match (*old(self)).msrc().pend {
        None => $r is Err,
        Some(b) => ($r is Ok ==> 0 <= (*final(self)).m_left() <= (*final(self)).msrc().rest.len() && (*final(self)).msrc() == crate::spec::after_value((*old(self)).msrc()))
            && (crate::spec::foreign(crate::serde::de::srv($r)) || crate::serde::de::reads($1, *b, crate::serde::de::srv($r))),
    }
@end
@tm de::MapAccess::next_value
    requires (*old(self)).msrc().pend is Some,
    ensures (*final(self)).m_left() == (*old(self)).m_left(),
    match (*old(self)).msrc().pend {
        None => $r is Err,
        Some(b) => ($r is Ok ==> 0 <= (*final(self)).m_left() <= (*final(self)).msrc().rest.len() && (*final(self)).msrc() == crate::spec::after_value((*old(self)).msrc()))
            && (crate::spec::foreign(crate::serde::de::srv($r)) || crate::serde::de::reads_as::<V>(*b, crate::serde::de::srv($r))),
    }
@end
@tm de::MapAccess::next_entry_seed
    ensures (*final(self)).m_left() == (*old(self)).m_left(),
    match $r {
        Ok(Some(kv)) => 0 <= (*final(self)).m_left() <= (*final(self)).msrc().rest.len() && (*old(self)).msrc().rest.len() > 0 && crate::spec::after_entry((*old(self)).msrc(), (*final(self)).msrc())
            && (crate::serde::de::reads($1, (*old(self)).msrc().rest[0].0, crate::spec::Res::Ok(kv.0)))
            && (crate::serde::de::reads($2, (*old(self)).msrc().rest[0].1, crate::spec::Res::Ok(kv.1))),
        Ok(None) => (*old(self)).msrc().rest.len() == 0 && (*old(self)).m_left() == 0 && (*final(self)).msrc().rest.len() == 0,
        Err(e) => e.kind() is Foreign || ((*old(self)).msrc().rest.len() > 0
            && ((crate::serde::de::reads($1, (*old(self)).msrc().rest[0].0, crate::spec::Res::Err(e.kind())))
             || (crate::serde::de::reads($2, (*old(self)).msrc().rest[0].1, crate::spec::Res::Err(e.kind()))))),
    }
@end
@tm de::MapAccess::next_entry
    ensures (*final(self)).m_left() == (*old(self)).m_left(),
    match $r {
        Ok(Some(kv)) => 0 <= (*final(self)).m_left() <= (*final(self)).msrc().rest.len() && (*old(self)).msrc().rest.len() > 0 && crate::spec::after_entry((*old(self)).msrc(), (*final(self)).msrc())
            && (crate::serde::de::reads_as::<K>((*old(self)).msrc().rest[0].0, crate::spec::Res::Ok(kv.0)))
            && (crate::serde::de::reads_as::<V>((*old(self)).msrc().rest[0].1, crate::spec::Res::Ok(kv.1))),
        Ok(None) => (*old(self)).msrc().rest.len() == 0 && (*old(self)).m_left() == 0 && (*final(self)).msrc().rest.len() == 0,
        Err(e) => e.kind() is Foreign || ((*old(self)).msrc().rest.len() > 0
            && ((crate::serde::de::reads_as::<K>((*old(self)).msrc().rest[0].0, crate::spec::Res::Err(e.kind())))
             || (crate::serde::de::reads_as::<V>((*old(self)).msrc().rest[0].1, crate::spec::Res::Err(e.kind()))))),
    }
@end

@traitspec de::EnumAccess
    spec fn esrc(self) -> crate::spec::EnumSrc;
@end
@tm de::EnumAccess::variant_seed
    ensures match self.esrc().variant {
        None => $r is Err,
        Some(s) => match $r {
            Ok(p) => crate::spec::holds(p.1.vsrc()) && p.1.vsrc() == self.esrc().payload && crate::serde::de::reads($1, s, crate::spec::Res::Ok(p.0)),
            Err(e) => e.kind() is Foreign || crate::serde::de::reads($1, s, crate::spec::Res::Err(e.kind())),
        },
    }
@end
@tm de::EnumAccess::variant
    ensures match self.esrc().variant {
        None => $r is Err,
        Some(s) => match $r {
            Ok(p) => crate::spec::holds(p.1.vsrc()) && p.1.vsrc() == self.esrc().payload && crate::serde::de::reads_as::<V>(s, crate::spec::Res::Ok(p.0)),
            Err(e) => e.kind() is Foreign || crate::serde::de::reads_as::<V>(s, crate::spec::Res::Err(e.kind())),
        },
    }
@end
@traitspec de::VariantAccess
    spec fn vsrc(self) -> crate::spec::Payload;
@end
@tm de::VariantAccess::unit_variant
    requires crate::spec::holds(self.vsrc()),
    ensures crate::spec::foreign(crate::serde::de::srv($r)) || crate::serde::de::as_unit(self.vsrc(), crate::serde::de::srv($r))
@end
@tm de::VariantAccess::newtype_variant_seed
    requires crate::spec::holds(self.vsrc()),
    ensures crate::spec::foreign(crate::serde::de::srv($r)) || crate::serde::de::as_newtype($1, self.vsrc(), crate::serde::de::srv($r))
@end
@tm de::VariantAccess::newtype_variant
    requires crate::spec::holds(self.vsrc()),
    ensures crate::spec::foreign(crate::serde::de::srv($r)) || crate::serde::de::as_newtype_value::<T>(self.vsrc(), crate::serde::de::srv($r))
@end
@tm de::VariantAccess::tuple_variant
    requires crate::spec::holds(self.vsrc()),
    ensures crate::spec::foreign(crate::serde::de::srv($r)) || crate::serde::de::as_tuple($2, $1, self.vsrc(), crate::serde::de::srv($r))
@end
@tm de::VariantAccess::struct_variant
    requires crate::spec::holds(self.vsrc()),
    ensures crate::spec::foreign(crate::serde::de::srv($r)) || crate::serde::de::as_struct($2, crate::spec::names_of($1@), self.vsrc(), crate::serde::de::srv($r))
@end
@traitspec de::IntoDeserializer
    spec fn isrc(self) -> crate::spec::Src;
@end
@tm de::IntoDeserializer::into_deserializer
    ensures $r.src() == <Self as __TRAIT>::isrc(self), crate::spec::there($r.src()), $r.d_left() == 0
@end
