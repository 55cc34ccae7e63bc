# serde_core::de::value::{SeqDeserializer, MapDeserializer}, from serde_core's source
@extra value
impl<U, E> SeqDeserializer<U, E> {
    pub closed spec fn items(&self) -> Seq<U> { self.iter@ }
    #[verifier::type_invariant]
    pub closed spec fn counted(self) -> bool { self.count + self.iter@.len() <= usize::MAX }
}
impl<A, B, E> MapDeserializer<A, B, E> {
    pub closed spec fn items(&self) -> Seq<(A, B)> { self.iter@ }
    pub closed spec fn pend(&self) -> Option<B> { self.value }
    #[verifier::type_invariant]
    pub closed spec fn counted(self) -> bool { self.count + self.iter@.len() <= usize::MAX }
}
/// What a sequence of pairs holds, entry by entry.
pub open spec fn entries<'de, A: IntoDeserializer<'de, E>, B: IntoDeserializer<'de, E>, E: de::Error>(s: Seq<(A, B)>) -> Seq<(Src, Src)> {
    Seq::new(s.len(), |i: int| (s[i].0.isrc(), s[i].1.isrc()))
}
@end
@fn value::SeqDeserializer::new
    ensures r.items() == $1@,
@end
@fn value::SeqDeserializer::end
    ensures r is Ok <==> self.items().len() == 0
@end
@proof value::SeqDeserializer::end
    proof { use_type_invariant(&self); }
@end
@spec value::SeqDeserializer as SeqAccess
    open spec fn ssrc(&self) -> Seq<Src> { Seq::new(self.items().len(), |i: int| self.items()[i].isrc()) }
    #[verifier::prophetic] open spec fn s_left(&self) -> int { 0 }
@end
@proof value::SeqDeserializer as SeqAccess::next_element_seed
    proof { use_type_invariant(&*self); }
@end
@fn value::MapDeserializer::new
    ensures r.items() == $1@, r.pend() is None,
@end
@fn value::MapDeserializer::end
    ensures r is Ok <==> self.items().len() == 0
@end
@proof value::MapDeserializer::end
    proof { use_type_invariant(&self); }
@end
@fn value::MapDeserializer::next_pair
    ensures
        final(self).pend() == old(self).pend(), final(self).counted(),
        match r {
            Some(kv) => old(self).items().len() > 0 && kv == old(self).items()[0] && final(self).items() == old(self).items().drop_first(),
            None => old(self).items().len() == 0 && final(self).items() == old(self).items(),
        }
@end
@proof value::MapDeserializer::next_pair
    proof { use_type_invariant(&*self); }
@end
@spec value::MapDeserializer as MapAccess
    open spec fn msrc(&self) -> MapSrc {
        MapSrc {
            pend: match self.pend() { Some(w) => Some(Box::new(w.isrc())), None => None },
            rest: entries::<A, B, E>(self.items()),
        }
    }
    #[verifier::prophetic] open spec fn m_left(&self) -> int { 0 }
@end
@proof value::MapDeserializer as MapAccess::next_key_seed
    proof {
        let s = self.items();
        if s.len() > 0 { assert(entries::<A, B, E>(s.drop_first()) =~= entries::<A, B, E>(s).drop_first()); }
    }
@end
@proof value::MapDeserializer as MapAccess::next_entry_seed
    proof {
        let s = self.items();
        if s.len() > 0 { assert(entries::<A, B, E>(s.drop_first()) =~= entries::<A, B, E>(s).drop_first()); }
    }
@end
@proof value::MapDeserializer as MapAccess::next_value_seed
    proof { use_type_invariant(&*self); }
@end
