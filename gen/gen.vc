// Written by tools/mkfixture.py: contracts of the code generated for /verif/fixture.

@im fx_m00::Dyn_Ext as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Map(one((SVal::Str(self.name()), crate::erased_serde::Serialize::eval(self)))), crate::serde::ser::srv($r))
@end
@im fx_m00::Dyn_Ext_Send as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Map(one((SVal::Str(self.name()), crate::erased_serde::Serialize::eval(self)))), crate::serde::ser::srv($r))
@end
@im fx_m00::Dyn_Ext_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Map(one((SVal::Str(self.name()), crate::erased_serde::Serialize::eval(self)))), crate::serde::ser::srv($r))
@end
@im fx_m00::Dyn_Ext_Send_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Map(one((SVal::Str(self.name()), crate::erased_serde::Serialize::eval(self)))), crate::serde::ser::srv($r))
@end
@fn fx_m00::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m00::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_Ext>(r.deserializer)
@end
@closure fx_m00::submit__A 0
 -> (__o: Result<Box<Dyn_Ext>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_Ext>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m00::typetag_name__Deep
    ensures r@ == "Deep"@
@end
@fn fx_m00::submit__Deep
    ensures r.name@ == "Deep"@, makes::<Deep, Dyn_Ext>(r.deserializer)
@end
@closure fx_m00::submit__Deep 0
 -> (__o: Result<Box<Dyn_Ext>, crate::shim::ErasedError>)
    ensures made::<Deep, Dyn_Ext>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m00::typetag_name__Named
    ensures r@ == "odd \"name\" é"@
@end
@fn fx_m00::submit__Named
    ensures r.name@ == "odd \"name\" é"@, makes::<Named, Dyn_Ext>(r.deserializer)
@end
@closure fx_m00::submit__Named 0
 -> (__o: Result<Box<Dyn_Ext>, crate::shim::ErasedError>)
    ensures made::<Named, Dyn_Ext>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m00::typetag_name__Empty
    ensures r@ == ""@
@end
@fn fx_m00::submit__Empty
    ensures r.name@ == ""@, makes::<Empty, Dyn_Ext>(r.deserializer)
@end
@closure fx_m00::submit__Empty 0
 -> (__o: Result<Box<Dyn_Ext>, crate::shim::ErasedError>)
    ensures made::<Empty, Dyn_Ext>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m00::typetag_name__FromConst
    ensures r@ == CONST_K@
@end
@fn fx_m00::submit__FromConst
    ensures r.name@ == CONST_K@, makes::<FromConst, Dyn_Ext>(r.deserializer)
@end
@closure fx_m00::submit__FromConst 0
 -> (__o: Result<Box<Dyn_Ext>, crate::shim::ErasedError>)
    ensures made::<FromConst, Dyn_Ext>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m00
crate::gspec::group_registry
@end
@extra fx_m00
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_Ext>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::externally::TaggedVisitor<Dyn_Ext>) -> bool { v.trait_object@ == "Ext"@ && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_Ext>>) -> bool {
    exists|v: crate::externally::TaggedVisitor<Dyn_Ext>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Map, left, r)
}
@end
@fn fx_m00::deserialize_Dyn_Ext
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m00::deserialize_Dyn_Ext 0
 -> (__o: Box<crate::private::Registry<Dyn_Ext>>)
    ensures right(*__o)
@end
@loop fx_m00::deserialize_Dyn_Ext 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@im fx_m01::Dyn_Shape as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Map(one((SVal::Str(self.name()), crate::erased_serde::Serialize::eval(self)))), crate::serde::ser::srv($r))
@end
@im fx_m01::Dyn_Shape_Send as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Map(one((SVal::Str(self.name()), crate::erased_serde::Serialize::eval(self)))), crate::serde::ser::srv($r))
@end
@im fx_m01::Dyn_Shape_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Map(one((SVal::Str(self.name()), crate::erased_serde::Serialize::eval(self)))), crate::serde::ser::srv($r))
@end
@im fx_m01::Dyn_Shape_Send_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Map(one((SVal::Str(self.name()), crate::erased_serde::Serialize::eval(self)))), crate::serde::ser::srv($r))
@end
@fn fx_m01::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m01::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_Shape_Send>(r.deserializer)
@end
@closure fx_m01::submit__A 0
 -> (__o: Result<Box<Dyn_Shape_Send>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_Shape_Send>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m01::typetag_name__Named
    ensures r@ == "n"@
@end
@fn fx_m01::submit__Named
    ensures r.name@ == "n"@, makes::<Named, Dyn_Shape_Send>(r.deserializer)
@end
@closure fx_m01::submit__Named 0
 -> (__o: Result<Box<Dyn_Shape_Send>, crate::shim::ErasedError>)
    ensures made::<Named, Dyn_Shape_Send>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m01
crate::gspec::group_registry
@end
@extra fx_m01
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_Shape_Send>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::externally::TaggedVisitor<Dyn_Shape_Send>) -> bool { v.trait_object@ == "Shape"@ && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_Shape_Send>>) -> bool {
    exists|v: crate::externally::TaggedVisitor<Dyn_Shape_Send>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Map, left, r)
}
@end
@fn fx_m01::deserialize_Dyn_Shape_Send
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m01::deserialize_Dyn_Shape_Send 0
 -> (__o: Box<crate::private::Registry<Dyn_Shape_Send>>)
    ensures right(*__o)
@end
@loop fx_m01::deserialize_Dyn_Shape_Send 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@fn fx_m01::deserialize_Dyn_Shape
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Shape_Send>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Shape_Send_Dyn_Shape(b)), Res::Err(k) => Res::Err(k) })
@end
@im fx_m02::Dyn_Object as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Map(one((SVal::Str(self.name()), crate::erased_serde::Serialize::eval(self)))), crate::serde::ser::srv($r))
@end
@im fx_m02::Dyn_Object_Send as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Map(one((SVal::Str(self.name()), crate::erased_serde::Serialize::eval(self)))), crate::serde::ser::srv($r))
@end
@im fx_m02::Dyn_Object_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Map(one((SVal::Str(self.name()), crate::erased_serde::Serialize::eval(self)))), crate::serde::ser::srv($r))
@end
@im fx_m02::Dyn_Object_Send_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Map(one((SVal::Str(self.name()), crate::erased_serde::Serialize::eval(self)))), crate::serde::ser::srv($r))
@end
@fn fx_m02::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m02::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_Object_Sync>(r.deserializer)
@end
@closure fx_m02::submit__A 0
 -> (__o: Result<Box<Dyn_Object_Sync>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_Object_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m02::typetag_name__Named
    ensures r@ == "n"@
@end
@fn fx_m02::submit__Named
    ensures r.name@ == "n"@, makes::<Named, Dyn_Object_Sync>(r.deserializer)
@end
@closure fx_m02::submit__Named 0
 -> (__o: Result<Box<Dyn_Object_Sync>, crate::shim::ErasedError>)
    ensures made::<Named, Dyn_Object_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m02
crate::gspec::group_registry
@end
@extra fx_m02
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_Object_Sync>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::externally::TaggedVisitor<Dyn_Object_Sync>) -> bool { v.trait_object@ == "Object"@ && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_Object_Sync>>) -> bool {
    exists|v: crate::externally::TaggedVisitor<Dyn_Object_Sync>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Map, left, r)
}
@end
@fn fx_m02::deserialize_Dyn_Object_Sync
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m02::deserialize_Dyn_Object_Sync 0
 -> (__o: Box<crate::private::Registry<Dyn_Object_Sync>>)
    ensures right(*__o)
@end
@loop fx_m02::deserialize_Dyn_Object_Sync 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@fn fx_m02::deserialize_Dyn_Object
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Object_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Object_Sync_Dyn_Object(b)), Res::Err(k) => Res::Err(k) })
@end
@im fx_m03::Dyn_r2 as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Map(one((SVal::Str(self.name()), crate::erased_serde::Serialize::eval(self)))), crate::serde::ser::srv($r))
@end
@im fx_m03::Dyn_r2_Send as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Map(one((SVal::Str(self.name()), crate::erased_serde::Serialize::eval(self)))), crate::serde::ser::srv($r))
@end
@im fx_m03::Dyn_r2_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Map(one((SVal::Str(self.name()), crate::erased_serde::Serialize::eval(self)))), crate::serde::ser::srv($r))
@end
@im fx_m03::Dyn_r2_Send_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Map(one((SVal::Str(self.name()), crate::erased_serde::Serialize::eval(self)))), crate::serde::ser::srv($r))
@end
@fn fx_m03::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m03::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_r2_Send_Sync>(r.deserializer)
@end
@closure fx_m03::submit__A 0
 -> (__o: Result<Box<Dyn_r2_Send_Sync>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_r2_Send_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m03::typetag_name__Named
    ensures r@ == "n"@
@end
@fn fx_m03::submit__Named
    ensures r.name@ == "n"@, makes::<Named, Dyn_r2_Send_Sync>(r.deserializer)
@end
@closure fx_m03::submit__Named 0
 -> (__o: Result<Box<Dyn_r2_Send_Sync>, crate::shim::ErasedError>)
    ensures made::<Named, Dyn_r2_Send_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m03
crate::gspec::group_registry
@end
@extra fx_m03
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_r2_Send_Sync>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::externally::TaggedVisitor<Dyn_r2_Send_Sync>) -> bool { v.trait_object@ == "r2"@ && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_r2_Send_Sync>>) -> bool {
    exists|v: crate::externally::TaggedVisitor<Dyn_r2_Send_Sync>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Map, left, r)
}
@end
@fn fx_m03::deserialize_Dyn_r2_Send_Sync
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m03::deserialize_Dyn_r2_Send_Sync 0
 -> (__o: Box<crate::private::Registry<Dyn_r2_Send_Sync>>)
    ensures right(*__o)
@end
@loop fx_m03::deserialize_Dyn_r2_Send_Sync 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@fn fx_m03::deserialize_Dyn_r2
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_r2_Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_r2_Send_Sync_Dyn_r2(b)), Res::Err(k) => Res::Err(k) })
@end
@fn fx_m03::deserialize_Dyn_r2_Send
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_r2_Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_r2_Send_Sync_Dyn_r2_Send(b)), Res::Err(k) => Res::Err(k) })
@end
@fn fx_m03::deserialize_Dyn_r2_Sync
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_r2_Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_r2_Send_Sync_Dyn_r2_Sync(b)), Res::Err(k) => Res::Err(k) })
@end
@im fx_m04::Dyn_Shape as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("type"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("type"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("type"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m04::Dyn_Shape_Send as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("type"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("type"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("type"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m04::Dyn_Shape_Sync as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("type"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("type"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("type"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m04::Dyn_Shape_Send_Sync as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("type"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("type"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("type"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@fn fx_m04::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m04::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_Shape>(r.deserializer)
@end
@closure fx_m04::submit__A 0
 -> (__o: Result<Box<Dyn_Shape>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_Shape>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m04::typetag_name__Named
    ensures r@ == "n"@
@end
@fn fx_m04::submit__Named
    ensures r.name@ == "n"@, makes::<Named, Dyn_Shape>(r.deserializer)
@end
@closure fx_m04::submit__Named 0
 -> (__o: Result<Box<Dyn_Shape>, crate::shim::ErasedError>)
    ensures made::<Named, Dyn_Shape>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m04
crate::gspec::group_registry
@end
@extra fx_m04
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_Shape>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::internally::TaggedVisitor<Dyn_Shape>) -> bool { v.trait_object@ == "Shape"@ && v.tag@ == "type"@ && v.default_variant is None && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_Shape>>) -> bool {
    exists|v: crate::internally::TaggedVisitor<Dyn_Shape>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Map, left, r)
}
@end
@fn fx_m04::deserialize_Dyn_Shape
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m04::deserialize_Dyn_Shape 0
 -> (__o: Box<crate::private::Registry<Dyn_Shape>>)
    ensures right(*__o)
@end
@loop fx_m04::deserialize_Dyn_Shape 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@im fx_m05::Dyn_Object as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("type"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("type"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("type"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m05::Dyn_Object_Send as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("type"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("type"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("type"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m05::Dyn_Object_Sync as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("type"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("type"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("type"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m05::Dyn_Object_Send_Sync as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("type"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("type"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("type"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@fn fx_m05::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m05::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_Object_Send>(r.deserializer)
@end
@closure fx_m05::submit__A 0
 -> (__o: Result<Box<Dyn_Object_Send>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_Object_Send>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m05::typetag_name__Deep
    ensures r@ == "Deep"@
@end
@fn fx_m05::submit__Deep
    ensures r.name@ == "Deep"@, makes::<Deep, Dyn_Object_Send>(r.deserializer)
@end
@closure fx_m05::submit__Deep 0
 -> (__o: Result<Box<Dyn_Object_Send>, crate::shim::ErasedError>)
    ensures made::<Deep, Dyn_Object_Send>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m05::typetag_name__Named
    ensures r@ == "odd \"name\" é"@
@end
@fn fx_m05::submit__Named
    ensures r.name@ == "odd \"name\" é"@, makes::<Named, Dyn_Object_Send>(r.deserializer)
@end
@closure fx_m05::submit__Named 0
 -> (__o: Result<Box<Dyn_Object_Send>, crate::shim::ErasedError>)
    ensures made::<Named, Dyn_Object_Send>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m05::typetag_name__Empty
    ensures r@ == ""@
@end
@fn fx_m05::submit__Empty
    ensures r.name@ == ""@, makes::<Empty, Dyn_Object_Send>(r.deserializer)
@end
@closure fx_m05::submit__Empty 0
 -> (__o: Result<Box<Dyn_Object_Send>, crate::shim::ErasedError>)
    ensures made::<Empty, Dyn_Object_Send>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m05::typetag_name__FromConst
    ensures r@ == CONST_K@
@end
@fn fx_m05::submit__FromConst
    ensures r.name@ == CONST_K@, makes::<FromConst, Dyn_Object_Send>(r.deserializer)
@end
@closure fx_m05::submit__FromConst 0
 -> (__o: Result<Box<Dyn_Object_Send>, crate::shim::ErasedError>)
    ensures made::<FromConst, Dyn_Object_Send>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m05
crate::gspec::group_registry
@end
@extra fx_m05
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_Object_Send>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::internally::TaggedVisitor<Dyn_Object_Send>) -> bool { v.trait_object@ == "Object"@ && v.tag@ == "type"@ && v.default_variant is None && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_Object_Send>>) -> bool {
    exists|v: crate::internally::TaggedVisitor<Dyn_Object_Send>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Map, left, r)
}
@end
@fn fx_m05::deserialize_Dyn_Object_Send
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m05::deserialize_Dyn_Object_Send 0
 -> (__o: Box<crate::private::Registry<Dyn_Object_Send>>)
    ensures right(*__o)
@end
@loop fx_m05::deserialize_Dyn_Object_Send 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@fn fx_m05::deserialize_Dyn_Object
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Object_Send>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Object_Send_Dyn_Object(b)), Res::Err(k) => Res::Err(k) })
@end
@im fx_m06::Dyn_r2 as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("type"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("type"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("type"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m06::Dyn_r2_Send as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("type"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("type"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("type"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m06::Dyn_r2_Sync as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("type"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("type"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("type"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m06::Dyn_r2_Send_Sync as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("type"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("type"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("type"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@fn fx_m06::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m06::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_r2_Sync>(r.deserializer)
@end
@closure fx_m06::submit__A 0
 -> (__o: Result<Box<Dyn_r2_Sync>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_r2_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m06::typetag_name__Named
    ensures r@ == "n"@
@end
@fn fx_m06::submit__Named
    ensures r.name@ == "n"@, makes::<Named, Dyn_r2_Sync>(r.deserializer)
@end
@closure fx_m06::submit__Named 0
 -> (__o: Result<Box<Dyn_r2_Sync>, crate::shim::ErasedError>)
    ensures made::<Named, Dyn_r2_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m06
crate::gspec::group_registry
@end
@extra fx_m06
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_r2_Sync>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::internally::TaggedVisitor<Dyn_r2_Sync>) -> bool { v.trait_object@ == "r2"@ && v.tag@ == "type"@ && v.default_variant is None && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_r2_Sync>>) -> bool {
    exists|v: crate::internally::TaggedVisitor<Dyn_r2_Sync>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Map, left, r)
}
@end
@fn fx_m06::deserialize_Dyn_r2_Sync
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m06::deserialize_Dyn_r2_Sync 0
 -> (__o: Box<crate::private::Registry<Dyn_r2_Sync>>)
    ensures right(*__o)
@end
@loop fx_m06::deserialize_Dyn_r2_Sync 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@fn fx_m06::deserialize_Dyn_r2
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_r2_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_r2_Sync_Dyn_r2(b)), Res::Err(k) => Res::Err(k) })
@end
@im fx_m07::Dyn_Trait_ as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("type"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("type"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("type"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m07::Dyn_Trait__Send as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("type"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("type"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("type"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m07::Dyn_Trait__Sync as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("type"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("type"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("type"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m07::Dyn_Trait__Send_Sync as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("type"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("type"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("type"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@fn fx_m07::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m07::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_Trait__Send_Sync>(r.deserializer)
@end
@closure fx_m07::submit__A 0
 -> (__o: Result<Box<Dyn_Trait__Send_Sync>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_Trait__Send_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m07::typetag_name__Named
    ensures r@ == "n"@
@end
@fn fx_m07::submit__Named
    ensures r.name@ == "n"@, makes::<Named, Dyn_Trait__Send_Sync>(r.deserializer)
@end
@closure fx_m07::submit__Named 0
 -> (__o: Result<Box<Dyn_Trait__Send_Sync>, crate::shim::ErasedError>)
    ensures made::<Named, Dyn_Trait__Send_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m07
crate::gspec::group_registry
@end
@extra fx_m07
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_Trait__Send_Sync>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::internally::TaggedVisitor<Dyn_Trait__Send_Sync>) -> bool { v.trait_object@ == "Trait_"@ && v.tag@ == "type"@ && v.default_variant is None && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_Trait__Send_Sync>>) -> bool {
    exists|v: crate::internally::TaggedVisitor<Dyn_Trait__Send_Sync>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Map, left, r)
}
@end
@fn fx_m07::deserialize_Dyn_Trait__Send_Sync
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m07::deserialize_Dyn_Trait__Send_Sync 0
 -> (__o: Box<crate::private::Registry<Dyn_Trait__Send_Sync>>)
    ensures right(*__o)
@end
@loop fx_m07::deserialize_Dyn_Trait__Send_Sync 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@fn fx_m07::deserialize_Dyn_Trait_
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Trait__Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Trait__Send_Sync_Dyn_Trait_(b)), Res::Err(k) => Res::Err(k) })
@end
@fn fx_m07::deserialize_Dyn_Trait__Send
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Trait__Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Trait__Send_Sync_Dyn_Trait__Send(b)), Res::Err(k) => Res::Err(k) })
@end
@fn fx_m07::deserialize_Dyn_Trait__Sync
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Trait__Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Trait__Send_Sync_Dyn_Trait__Sync(b)), Res::Err(k) => Res::Err(k) })
@end
@im fx_m08::Dyn_Object as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m08::Dyn_Object_Send as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m08::Dyn_Object_Sync as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m08::Dyn_Object_Send_Sync as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@fn fx_m08::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m08::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_Object>(r.deserializer)
@end
@closure fx_m08::submit__A 0
 -> (__o: Result<Box<Dyn_Object>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_Object>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m08::typetag_name__Named
    ensures r@ == "n"@
@end
@fn fx_m08::submit__Named
    ensures r.name@ == "n"@, makes::<Named, Dyn_Object>(r.deserializer)
@end
@closure fx_m08::submit__Named 0
 -> (__o: Result<Box<Dyn_Object>, crate::shim::ErasedError>)
    ensures made::<Named, Dyn_Object>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m08
crate::gspec::group_registry
@end
@extra fx_m08
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_Object>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::internally::TaggedVisitor<Dyn_Object>) -> bool { v.trait_object@ == "Object"@ && v.tag@ == "ta\"g é"@ && v.default_variant is Some && v.default_variant->0@ == "A"@ && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_Object>>) -> bool {
    exists|v: crate::internally::TaggedVisitor<Dyn_Object>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Map, left, r)
}
@end
@fn fx_m08::deserialize_Dyn_Object
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m08::deserialize_Dyn_Object 0
 -> (__o: Box<crate::private::Registry<Dyn_Object>>)
    ensures right(*__o)
@end
@loop fx_m08::deserialize_Dyn_Object 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@im fx_m09::Dyn_r2 as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m09::Dyn_r2_Send as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m09::Dyn_r2_Sync as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m09::Dyn_r2_Send_Sync as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@fn fx_m09::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m09::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_r2_Send>(r.deserializer)
@end
@closure fx_m09::submit__A 0
 -> (__o: Result<Box<Dyn_r2_Send>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_r2_Send>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m09::typetag_name__Named
    ensures r@ == "n"@
@end
@fn fx_m09::submit__Named
    ensures r.name@ == "n"@, makes::<Named, Dyn_r2_Send>(r.deserializer)
@end
@closure fx_m09::submit__Named 0
 -> (__o: Result<Box<Dyn_r2_Send>, crate::shim::ErasedError>)
    ensures made::<Named, Dyn_r2_Send>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m09
crate::gspec::group_registry
@end
@extra fx_m09
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_r2_Send>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::internally::TaggedVisitor<Dyn_r2_Send>) -> bool { v.trait_object@ == "r2"@ && v.tag@ == "ta\"g é"@ && v.default_variant is Some && v.default_variant->0@ == "A"@ && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_r2_Send>>) -> bool {
    exists|v: crate::internally::TaggedVisitor<Dyn_r2_Send>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Map, left, r)
}
@end
@fn fx_m09::deserialize_Dyn_r2_Send
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m09::deserialize_Dyn_r2_Send 0
 -> (__o: Box<crate::private::Registry<Dyn_r2_Send>>)
    ensures right(*__o)
@end
@loop fx_m09::deserialize_Dyn_r2_Send 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@fn fx_m09::deserialize_Dyn_r2
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_r2_Send>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_r2_Send_Dyn_r2(b)), Res::Err(k) => Res::Err(k) })
@end
@im fx_m10::Dyn_Trait_ as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m10::Dyn_Trait__Send as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m10::Dyn_Trait__Sync as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m10::Dyn_Trait__Send_Sync as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@fn fx_m10::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m10::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_Trait__Sync>(r.deserializer)
@end
@closure fx_m10::submit__A 0
 -> (__o: Result<Box<Dyn_Trait__Sync>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_Trait__Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m10::typetag_name__Deep
    ensures r@ == "Deep"@
@end
@fn fx_m10::submit__Deep
    ensures r.name@ == "Deep"@, makes::<Deep, Dyn_Trait__Sync>(r.deserializer)
@end
@closure fx_m10::submit__Deep 0
 -> (__o: Result<Box<Dyn_Trait__Sync>, crate::shim::ErasedError>)
    ensures made::<Deep, Dyn_Trait__Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m10::typetag_name__Named
    ensures r@ == "odd \"name\" é"@
@end
@fn fx_m10::submit__Named
    ensures r.name@ == "odd \"name\" é"@, makes::<Named, Dyn_Trait__Sync>(r.deserializer)
@end
@closure fx_m10::submit__Named 0
 -> (__o: Result<Box<Dyn_Trait__Sync>, crate::shim::ErasedError>)
    ensures made::<Named, Dyn_Trait__Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m10::typetag_name__Empty
    ensures r@ == ""@
@end
@fn fx_m10::submit__Empty
    ensures r.name@ == ""@, makes::<Empty, Dyn_Trait__Sync>(r.deserializer)
@end
@closure fx_m10::submit__Empty 0
 -> (__o: Result<Box<Dyn_Trait__Sync>, crate::shim::ErasedError>)
    ensures made::<Empty, Dyn_Trait__Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m10::typetag_name__FromConst
    ensures r@ == CONST_K@
@end
@fn fx_m10::submit__FromConst
    ensures r.name@ == CONST_K@, makes::<FromConst, Dyn_Trait__Sync>(r.deserializer)
@end
@closure fx_m10::submit__FromConst 0
 -> (__o: Result<Box<Dyn_Trait__Sync>, crate::shim::ErasedError>)
    ensures made::<FromConst, Dyn_Trait__Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m10
crate::gspec::group_registry
@end
@extra fx_m10
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_Trait__Sync>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::internally::TaggedVisitor<Dyn_Trait__Sync>) -> bool { v.trait_object@ == "Trait_"@ && v.tag@ == "ta\"g é"@ && v.default_variant is Some && v.default_variant->0@ == "A"@ && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_Trait__Sync>>) -> bool {
    exists|v: crate::internally::TaggedVisitor<Dyn_Trait__Sync>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Map, left, r)
}
@end
@fn fx_m10::deserialize_Dyn_Trait__Sync
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m10::deserialize_Dyn_Trait__Sync 0
 -> (__o: Box<crate::private::Registry<Dyn_Trait__Sync>>)
    ensures right(*__o)
@end
@loop fx_m10::deserialize_Dyn_Trait__Sync 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@fn fx_m10::deserialize_Dyn_Trait_
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Trait__Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Trait__Sync_Dyn_Trait_(b)), Res::Err(k) => Res::Err(k) })
@end
@im fx_m11::Dyn_Z as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m11::Dyn_Z_Send as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m11::Dyn_Z_Sync as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m11::Dyn_Z_Send_Sync as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@fn fx_m11::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m11::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_Z_Send_Sync>(r.deserializer)
@end
@closure fx_m11::submit__A 0
 -> (__o: Result<Box<Dyn_Z_Send_Sync>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_Z_Send_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m11::typetag_name__Named
    ensures r@ == "n"@
@end
@fn fx_m11::submit__Named
    ensures r.name@ == "n"@, makes::<Named, Dyn_Z_Send_Sync>(r.deserializer)
@end
@closure fx_m11::submit__Named 0
 -> (__o: Result<Box<Dyn_Z_Send_Sync>, crate::shim::ErasedError>)
    ensures made::<Named, Dyn_Z_Send_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m11
crate::gspec::group_registry
@end
@extra fx_m11
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_Z_Send_Sync>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::internally::TaggedVisitor<Dyn_Z_Send_Sync>) -> bool { v.trait_object@ == "Z"@ && v.tag@ == "ta\"g é"@ && v.default_variant is Some && v.default_variant->0@ == "A"@ && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_Z_Send_Sync>>) -> bool {
    exists|v: crate::internally::TaggedVisitor<Dyn_Z_Send_Sync>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Map, left, r)
}
@end
@fn fx_m11::deserialize_Dyn_Z_Send_Sync
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m11::deserialize_Dyn_Z_Send_Sync 0
 -> (__o: Box<crate::private::Registry<Dyn_Z_Send_Sync>>)
    ensures right(*__o)
@end
@loop fx_m11::deserialize_Dyn_Z_Send_Sync 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@fn fx_m11::deserialize_Dyn_Z
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Z_Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Z_Send_Sync_Dyn_Z(b)), Res::Err(k) => Res::Err(k) })
@end
@fn fx_m11::deserialize_Dyn_Z_Send
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Z_Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Z_Send_Sync_Dyn_Z_Send(b)), Res::Err(k) => Res::Err(k) })
@end
@fn fx_m11::deserialize_Dyn_Z_Sync
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Z_Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Z_Send_Sync_Dyn_Z_Sync(b)), Res::Err(k) => Res::Err(k) })
@end
@im fx_m12::Dyn_r2 as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("r2"@, cons(("t"@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m12::Dyn_r2_Send as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("r2"@, cons(("t"@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m12::Dyn_r2_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("r2"@, cons(("t"@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m12::Dyn_r2_Send_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("r2"@, cons(("t"@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@fn fx_m12::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m12::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_r2>(r.deserializer)
@end
@closure fx_m12::submit__A 0
 -> (__o: Result<Box<Dyn_r2>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_r2>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m12::typetag_name__Named
    ensures r@ == "n"@
@end
@fn fx_m12::submit__Named
    ensures r.name@ == "n"@, makes::<Named, Dyn_r2>(r.deserializer)
@end
@closure fx_m12::submit__Named 0
 -> (__o: Result<Box<Dyn_r2>, crate::shim::ErasedError>)
    ensures made::<Named, Dyn_r2>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m12
crate::gspec::group_registry
@end
@extra fx_m12
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_r2>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::adjacently::TaggedVisitor<Dyn_r2>) -> bool { v.trait_object@ == "r2"@ && v.field_names@.len() == 2 && v.field_names@[0]@ == "t"@ && v.field_names@[1]@ == "c"@ && v.default_variant is None && v.deny_unknown_fields == false && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_r2>>) -> bool {
    exists|v: crate::adjacently::TaggedVisitor<Dyn_r2>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Struct("r2"@, names_of(v.field_names@)), left, r)
}
@end
@fn fx_m12::deserialize_Dyn_r2
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m12::deserialize_Dyn_r2 0
 -> (__o: Box<crate::private::Registry<Dyn_r2>>)
    ensures right(*__o)
@end
@loop fx_m12::deserialize_Dyn_r2 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@im fx_m13::Dyn_Trait_ as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Trait_"@, cons(("t"@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m13::Dyn_Trait__Send as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Trait_"@, cons(("t"@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m13::Dyn_Trait__Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Trait_"@, cons(("t"@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m13::Dyn_Trait__Send_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Trait_"@, cons(("t"@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@fn fx_m13::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m13::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_Trait__Send>(r.deserializer)
@end
@closure fx_m13::submit__A 0
 -> (__o: Result<Box<Dyn_Trait__Send>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_Trait__Send>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m13::typetag_name__Named
    ensures r@ == "n"@
@end
@fn fx_m13::submit__Named
    ensures r.name@ == "n"@, makes::<Named, Dyn_Trait__Send>(r.deserializer)
@end
@closure fx_m13::submit__Named 0
 -> (__o: Result<Box<Dyn_Trait__Send>, crate::shim::ErasedError>)
    ensures made::<Named, Dyn_Trait__Send>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m13
crate::gspec::group_registry
@end
@extra fx_m13
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_Trait__Send>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::adjacently::TaggedVisitor<Dyn_Trait__Send>) -> bool { v.trait_object@ == "Trait_"@ && v.field_names@.len() == 2 && v.field_names@[0]@ == "t"@ && v.field_names@[1]@ == "c"@ && v.default_variant is None && v.deny_unknown_fields == false && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_Trait__Send>>) -> bool {
    exists|v: crate::adjacently::TaggedVisitor<Dyn_Trait__Send>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Struct("Trait_"@, names_of(v.field_names@)), left, r)
}
@end
@fn fx_m13::deserialize_Dyn_Trait__Send
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m13::deserialize_Dyn_Trait__Send 0
 -> (__o: Box<crate::private::Registry<Dyn_Trait__Send>>)
    ensures right(*__o)
@end
@loop fx_m13::deserialize_Dyn_Trait__Send 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@fn fx_m13::deserialize_Dyn_Trait_
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Trait__Send>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Trait__Send_Dyn_Trait_(b)), Res::Err(k) => Res::Err(k) })
@end
@im fx_m14::Dyn_Z as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Z"@, cons(("t"@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m14::Dyn_Z_Send as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Z"@, cons(("t"@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m14::Dyn_Z_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Z"@, cons(("t"@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m14::Dyn_Z_Send_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Z"@, cons(("t"@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@fn fx_m14::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m14::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_Z_Sync>(r.deserializer)
@end
@closure fx_m14::submit__A 0
 -> (__o: Result<Box<Dyn_Z_Sync>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_Z_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m14::typetag_name__Named
    ensures r@ == "n"@
@end
@fn fx_m14::submit__Named
    ensures r.name@ == "n"@, makes::<Named, Dyn_Z_Sync>(r.deserializer)
@end
@closure fx_m14::submit__Named 0
 -> (__o: Result<Box<Dyn_Z_Sync>, crate::shim::ErasedError>)
    ensures made::<Named, Dyn_Z_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m14
crate::gspec::group_registry
@end
@extra fx_m14
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_Z_Sync>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::adjacently::TaggedVisitor<Dyn_Z_Sync>) -> bool { v.trait_object@ == "Z"@ && v.field_names@.len() == 2 && v.field_names@[0]@ == "t"@ && v.field_names@[1]@ == "c"@ && v.default_variant is None && v.deny_unknown_fields == false && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_Z_Sync>>) -> bool {
    exists|v: crate::adjacently::TaggedVisitor<Dyn_Z_Sync>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Struct("Z"@, names_of(v.field_names@)), left, r)
}
@end
@fn fx_m14::deserialize_Dyn_Z_Sync
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m14::deserialize_Dyn_Z_Sync 0
 -> (__o: Box<crate::private::Registry<Dyn_Z_Sync>>)
    ensures right(*__o)
@end
@loop fx_m14::deserialize_Dyn_Z_Sync 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@fn fx_m14::deserialize_Dyn_Z
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Z_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Z_Sync_Dyn_Z(b)), Res::Err(k) => Res::Err(k) })
@end
@im fx_m15::Dyn_Ext as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Ext"@, cons(("t"@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m15::Dyn_Ext_Send as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Ext"@, cons(("t"@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m15::Dyn_Ext_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Ext"@, cons(("t"@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m15::Dyn_Ext_Send_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Ext"@, cons(("t"@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@fn fx_m15::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m15::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_Ext_Send_Sync>(r.deserializer)
@end
@closure fx_m15::submit__A 0
 -> (__o: Result<Box<Dyn_Ext_Send_Sync>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_Ext_Send_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m15::typetag_name__Deep
    ensures r@ == "Deep"@
@end
@fn fx_m15::submit__Deep
    ensures r.name@ == "Deep"@, makes::<Deep, Dyn_Ext_Send_Sync>(r.deserializer)
@end
@closure fx_m15::submit__Deep 0
 -> (__o: Result<Box<Dyn_Ext_Send_Sync>, crate::shim::ErasedError>)
    ensures made::<Deep, Dyn_Ext_Send_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m15::typetag_name__Named
    ensures r@ == "odd \"name\" é"@
@end
@fn fx_m15::submit__Named
    ensures r.name@ == "odd \"name\" é"@, makes::<Named, Dyn_Ext_Send_Sync>(r.deserializer)
@end
@closure fx_m15::submit__Named 0
 -> (__o: Result<Box<Dyn_Ext_Send_Sync>, crate::shim::ErasedError>)
    ensures made::<Named, Dyn_Ext_Send_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m15::typetag_name__Empty
    ensures r@ == ""@
@end
@fn fx_m15::submit__Empty
    ensures r.name@ == ""@, makes::<Empty, Dyn_Ext_Send_Sync>(r.deserializer)
@end
@closure fx_m15::submit__Empty 0
 -> (__o: Result<Box<Dyn_Ext_Send_Sync>, crate::shim::ErasedError>)
    ensures made::<Empty, Dyn_Ext_Send_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m15::typetag_name__FromConst
    ensures r@ == CONST_K@
@end
@fn fx_m15::submit__FromConst
    ensures r.name@ == CONST_K@, makes::<FromConst, Dyn_Ext_Send_Sync>(r.deserializer)
@end
@closure fx_m15::submit__FromConst 0
 -> (__o: Result<Box<Dyn_Ext_Send_Sync>, crate::shim::ErasedError>)
    ensures made::<FromConst, Dyn_Ext_Send_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m15
crate::gspec::group_registry
@end
@extra fx_m15
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_Ext_Send_Sync>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::adjacently::TaggedVisitor<Dyn_Ext_Send_Sync>) -> bool { v.trait_object@ == "Ext"@ && v.field_names@.len() == 2 && v.field_names@[0]@ == "t"@ && v.field_names@[1]@ == "c"@ && v.default_variant is None && v.deny_unknown_fields == false && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_Ext_Send_Sync>>) -> bool {
    exists|v: crate::adjacently::TaggedVisitor<Dyn_Ext_Send_Sync>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Struct("Ext"@, names_of(v.field_names@)), left, r)
}
@end
@fn fx_m15::deserialize_Dyn_Ext_Send_Sync
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m15::deserialize_Dyn_Ext_Send_Sync 0
 -> (__o: Box<crate::private::Registry<Dyn_Ext_Send_Sync>>)
    ensures right(*__o)
@end
@loop fx_m15::deserialize_Dyn_Ext_Send_Sync 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@fn fx_m15::deserialize_Dyn_Ext
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Ext_Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Ext_Send_Sync_Dyn_Ext(b)), Res::Err(k) => Res::Err(k) })
@end
@fn fx_m15::deserialize_Dyn_Ext_Send
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Ext_Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Ext_Send_Sync_Dyn_Ext_Send(b)), Res::Err(k) => Res::Err(k) })
@end
@fn fx_m15::deserialize_Dyn_Ext_Sync
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Ext_Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Ext_Send_Sync_Dyn_Ext_Sync(b)), Res::Err(k) => Res::Err(k) })
@end
@im fx_m16::Dyn_Trait_ as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Trait_"@, cons(("t"@, SVal::Str(self.name())), cons((""@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m16::Dyn_Trait__Send as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Trait_"@, cons(("t"@, SVal::Str(self.name())), cons((""@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m16::Dyn_Trait__Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Trait_"@, cons(("t"@, SVal::Str(self.name())), cons((""@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m16::Dyn_Trait__Send_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Trait_"@, cons(("t"@, SVal::Str(self.name())), cons((""@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@fn fx_m16::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m16::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_Trait_>(r.deserializer)
@end
@closure fx_m16::submit__A 0
 -> (__o: Result<Box<Dyn_Trait_>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_Trait_>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m16::typetag_name__Deep
    ensures r@ == "Deep"@
@end
@fn fx_m16::submit__Deep
    ensures r.name@ == "Deep"@, makes::<Deep, Dyn_Trait_>(r.deserializer)
@end
@closure fx_m16::submit__Deep 0
 -> (__o: Result<Box<Dyn_Trait_>, crate::shim::ErasedError>)
    ensures made::<Deep, Dyn_Trait_>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m16::typetag_name__Named
    ensures r@ == "odd \"name\" é"@
@end
@fn fx_m16::submit__Named
    ensures r.name@ == "odd \"name\" é"@, makes::<Named, Dyn_Trait_>(r.deserializer)
@end
@closure fx_m16::submit__Named 0
 -> (__o: Result<Box<Dyn_Trait_>, crate::shim::ErasedError>)
    ensures made::<Named, Dyn_Trait_>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m16::typetag_name__Empty
    ensures r@ == ""@
@end
@fn fx_m16::submit__Empty
    ensures r.name@ == ""@, makes::<Empty, Dyn_Trait_>(r.deserializer)
@end
@closure fx_m16::submit__Empty 0
 -> (__o: Result<Box<Dyn_Trait_>, crate::shim::ErasedError>)
    ensures made::<Empty, Dyn_Trait_>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m16::typetag_name__FromConst
    ensures r@ == CONST_K@
@end
@fn fx_m16::submit__FromConst
    ensures r.name@ == CONST_K@, makes::<FromConst, Dyn_Trait_>(r.deserializer)
@end
@closure fx_m16::submit__FromConst 0
 -> (__o: Result<Box<Dyn_Trait_>, crate::shim::ErasedError>)
    ensures made::<FromConst, Dyn_Trait_>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m16
crate::gspec::group_registry
@end
@extra fx_m16
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_Trait_>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::adjacently::TaggedVisitor<Dyn_Trait_>) -> bool { v.trait_object@ == "Trait_"@ && v.field_names@.len() == 2 && v.field_names@[0]@ == "t"@ && v.field_names@[1]@ == ""@ && v.default_variant is None && v.deny_unknown_fields == true && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_Trait_>>) -> bool {
    exists|v: crate::adjacently::TaggedVisitor<Dyn_Trait_>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Struct("Trait_"@, names_of(v.field_names@)), left, r)
}
@end
@fn fx_m16::deserialize_Dyn_Trait_
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m16::deserialize_Dyn_Trait_ 0
 -> (__o: Box<crate::private::Registry<Dyn_Trait_>>)
    ensures right(*__o)
@end
@loop fx_m16::deserialize_Dyn_Trait_ 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@im fx_m17::Dyn_Z as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Z"@, cons(("t"@, SVal::Str(self.name())), cons((""@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m17::Dyn_Z_Send as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Z"@, cons(("t"@, SVal::Str(self.name())), cons((""@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m17::Dyn_Z_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Z"@, cons(("t"@, SVal::Str(self.name())), cons((""@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m17::Dyn_Z_Send_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Z"@, cons(("t"@, SVal::Str(self.name())), cons((""@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@fn fx_m17::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m17::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_Z_Send>(r.deserializer)
@end
@closure fx_m17::submit__A 0
 -> (__o: Result<Box<Dyn_Z_Send>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_Z_Send>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m17::typetag_name__Named
    ensures r@ == "n"@
@end
@fn fx_m17::submit__Named
    ensures r.name@ == "n"@, makes::<Named, Dyn_Z_Send>(r.deserializer)
@end
@closure fx_m17::submit__Named 0
 -> (__o: Result<Box<Dyn_Z_Send>, crate::shim::ErasedError>)
    ensures made::<Named, Dyn_Z_Send>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m17
crate::gspec::group_registry
@end
@extra fx_m17
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_Z_Send>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::adjacently::TaggedVisitor<Dyn_Z_Send>) -> bool { v.trait_object@ == "Z"@ && v.field_names@.len() == 2 && v.field_names@[0]@ == "t"@ && v.field_names@[1]@ == ""@ && v.default_variant is None && v.deny_unknown_fields == true && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_Z_Send>>) -> bool {
    exists|v: crate::adjacently::TaggedVisitor<Dyn_Z_Send>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Struct("Z"@, names_of(v.field_names@)), left, r)
}
@end
@fn fx_m17::deserialize_Dyn_Z_Send
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m17::deserialize_Dyn_Z_Send 0
 -> (__o: Box<crate::private::Registry<Dyn_Z_Send>>)
    ensures right(*__o)
@end
@loop fx_m17::deserialize_Dyn_Z_Send 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@fn fx_m17::deserialize_Dyn_Z
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Z_Send>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Z_Send_Dyn_Z(b)), Res::Err(k) => Res::Err(k) })
@end
@im fx_m18::Dyn_Ext as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Ext"@, cons(("t"@, SVal::Str(self.name())), cons((""@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m18::Dyn_Ext_Send as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Ext"@, cons(("t"@, SVal::Str(self.name())), cons((""@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m18::Dyn_Ext_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Ext"@, cons(("t"@, SVal::Str(self.name())), cons((""@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m18::Dyn_Ext_Send_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Ext"@, cons(("t"@, SVal::Str(self.name())), cons((""@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@fn fx_m18::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m18::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_Ext_Sync>(r.deserializer)
@end
@closure fx_m18::submit__A 0
 -> (__o: Result<Box<Dyn_Ext_Sync>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_Ext_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m18::typetag_name__Named
    ensures r@ == "n"@
@end
@fn fx_m18::submit__Named
    ensures r.name@ == "n"@, makes::<Named, Dyn_Ext_Sync>(r.deserializer)
@end
@closure fx_m18::submit__Named 0
 -> (__o: Result<Box<Dyn_Ext_Sync>, crate::shim::ErasedError>)
    ensures made::<Named, Dyn_Ext_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m18
crate::gspec::group_registry
@end
@extra fx_m18
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_Ext_Sync>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::adjacently::TaggedVisitor<Dyn_Ext_Sync>) -> bool { v.trait_object@ == "Ext"@ && v.field_names@.len() == 2 && v.field_names@[0]@ == "t"@ && v.field_names@[1]@ == ""@ && v.default_variant is None && v.deny_unknown_fields == true && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_Ext_Sync>>) -> bool {
    exists|v: crate::adjacently::TaggedVisitor<Dyn_Ext_Sync>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Struct("Ext"@, names_of(v.field_names@)), left, r)
}
@end
@fn fx_m18::deserialize_Dyn_Ext_Sync
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m18::deserialize_Dyn_Ext_Sync 0
 -> (__o: Box<crate::private::Registry<Dyn_Ext_Sync>>)
    ensures right(*__o)
@end
@loop fx_m18::deserialize_Dyn_Ext_Sync 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@fn fx_m18::deserialize_Dyn_Ext
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Ext_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Ext_Sync_Dyn_Ext(b)), Res::Err(k) => Res::Err(k) })
@end
@im fx_m19::Dyn_Shape as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Shape"@, cons(("t"@, SVal::Str(self.name())), cons((""@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m19::Dyn_Shape_Send as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Shape"@, cons(("t"@, SVal::Str(self.name())), cons((""@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m19::Dyn_Shape_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Shape"@, cons(("t"@, SVal::Str(self.name())), cons((""@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m19::Dyn_Shape_Send_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Shape"@, cons(("t"@, SVal::Str(self.name())), cons((""@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@fn fx_m19::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m19::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_Shape_Send_Sync>(r.deserializer)
@end
@closure fx_m19::submit__A 0
 -> (__o: Result<Box<Dyn_Shape_Send_Sync>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_Shape_Send_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m19::typetag_name__Named
    ensures r@ == "n"@
@end
@fn fx_m19::submit__Named
    ensures r.name@ == "n"@, makes::<Named, Dyn_Shape_Send_Sync>(r.deserializer)
@end
@closure fx_m19::submit__Named 0
 -> (__o: Result<Box<Dyn_Shape_Send_Sync>, crate::shim::ErasedError>)
    ensures made::<Named, Dyn_Shape_Send_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m19
crate::gspec::group_registry
@end
@extra fx_m19
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_Shape_Send_Sync>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::adjacently::TaggedVisitor<Dyn_Shape_Send_Sync>) -> bool { v.trait_object@ == "Shape"@ && v.field_names@.len() == 2 && v.field_names@[0]@ == "t"@ && v.field_names@[1]@ == ""@ && v.default_variant is None && v.deny_unknown_fields == true && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_Shape_Send_Sync>>) -> bool {
    exists|v: crate::adjacently::TaggedVisitor<Dyn_Shape_Send_Sync>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Struct("Shape"@, names_of(v.field_names@)), left, r)
}
@end
@fn fx_m19::deserialize_Dyn_Shape_Send_Sync
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m19::deserialize_Dyn_Shape_Send_Sync 0
 -> (__o: Box<crate::private::Registry<Dyn_Shape_Send_Sync>>)
    ensures right(*__o)
@end
@loop fx_m19::deserialize_Dyn_Shape_Send_Sync 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@fn fx_m19::deserialize_Dyn_Shape
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Shape_Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Shape_Send_Sync_Dyn_Shape(b)), Res::Err(k) => Res::Err(k) })
@end
@fn fx_m19::deserialize_Dyn_Shape_Send
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Shape_Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Shape_Send_Sync_Dyn_Shape_Send(b)), Res::Err(k) => Res::Err(k) })
@end
@fn fx_m19::deserialize_Dyn_Shape_Sync
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Shape_Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Shape_Send_Sync_Dyn_Shape_Sync(b)), Res::Err(k) => Res::Err(k) })
@end
@im fx_m20::Dyn_Z as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Z"@, cons((""@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m20::Dyn_Z_Send as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Z"@, cons((""@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m20::Dyn_Z_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Z"@, cons((""@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m20::Dyn_Z_Send_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Z"@, cons((""@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@fn fx_m20::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m20::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_Z>(r.deserializer)
@end
@closure fx_m20::submit__A 0
 -> (__o: Result<Box<Dyn_Z>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_Z>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m20::typetag_name__Named
    ensures r@ == "n"@
@end
@fn fx_m20::submit__Named
    ensures r.name@ == "n"@, makes::<Named, Dyn_Z>(r.deserializer)
@end
@closure fx_m20::submit__Named 0
 -> (__o: Result<Box<Dyn_Z>, crate::shim::ErasedError>)
    ensures made::<Named, Dyn_Z>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m20
crate::gspec::group_registry
@end
@extra fx_m20
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_Z>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::adjacently::TaggedVisitor<Dyn_Z>) -> bool { v.trait_object@ == "Z"@ && v.field_names@.len() == 2 && v.field_names@[0]@ == ""@ && v.field_names@[1]@ == "c"@ && v.default_variant is Some && v.default_variant->0@ == "not registered"@ && v.deny_unknown_fields == false && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_Z>>) -> bool {
    exists|v: crate::adjacently::TaggedVisitor<Dyn_Z>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Struct("Z"@, names_of(v.field_names@)), left, r)
}
@end
@fn fx_m20::deserialize_Dyn_Z
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m20::deserialize_Dyn_Z 0
 -> (__o: Box<crate::private::Registry<Dyn_Z>>)
    ensures right(*__o)
@end
@loop fx_m20::deserialize_Dyn_Z 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@im fx_m21::Dyn_Ext as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Ext"@, cons((""@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m21::Dyn_Ext_Send as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Ext"@, cons((""@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m21::Dyn_Ext_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Ext"@, cons((""@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m21::Dyn_Ext_Send_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Ext"@, cons((""@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@fn fx_m21::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m21::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_Ext_Send>(r.deserializer)
@end
@closure fx_m21::submit__A 0
 -> (__o: Result<Box<Dyn_Ext_Send>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_Ext_Send>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m21::typetag_name__Deep
    ensures r@ == "Deep"@
@end
@fn fx_m21::submit__Deep
    ensures r.name@ == "Deep"@, makes::<Deep, Dyn_Ext_Send>(r.deserializer)
@end
@closure fx_m21::submit__Deep 0
 -> (__o: Result<Box<Dyn_Ext_Send>, crate::shim::ErasedError>)
    ensures made::<Deep, Dyn_Ext_Send>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m21::typetag_name__Named
    ensures r@ == "odd \"name\" é"@
@end
@fn fx_m21::submit__Named
    ensures r.name@ == "odd \"name\" é"@, makes::<Named, Dyn_Ext_Send>(r.deserializer)
@end
@closure fx_m21::submit__Named 0
 -> (__o: Result<Box<Dyn_Ext_Send>, crate::shim::ErasedError>)
    ensures made::<Named, Dyn_Ext_Send>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m21::typetag_name__Empty
    ensures r@ == ""@
@end
@fn fx_m21::submit__Empty
    ensures r.name@ == ""@, makes::<Empty, Dyn_Ext_Send>(r.deserializer)
@end
@closure fx_m21::submit__Empty 0
 -> (__o: Result<Box<Dyn_Ext_Send>, crate::shim::ErasedError>)
    ensures made::<Empty, Dyn_Ext_Send>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m21::typetag_name__FromConst
    ensures r@ == CONST_K@
@end
@fn fx_m21::submit__FromConst
    ensures r.name@ == CONST_K@, makes::<FromConst, Dyn_Ext_Send>(r.deserializer)
@end
@closure fx_m21::submit__FromConst 0
 -> (__o: Result<Box<Dyn_Ext_Send>, crate::shim::ErasedError>)
    ensures made::<FromConst, Dyn_Ext_Send>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m21
crate::gspec::group_registry
@end
@extra fx_m21
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_Ext_Send>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::adjacently::TaggedVisitor<Dyn_Ext_Send>) -> bool { v.trait_object@ == "Ext"@ && v.field_names@.len() == 2 && v.field_names@[0]@ == ""@ && v.field_names@[1]@ == "c"@ && v.default_variant is Some && v.default_variant->0@ == "not registered"@ && v.deny_unknown_fields == false && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_Ext_Send>>) -> bool {
    exists|v: crate::adjacently::TaggedVisitor<Dyn_Ext_Send>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Struct("Ext"@, names_of(v.field_names@)), left, r)
}
@end
@fn fx_m21::deserialize_Dyn_Ext_Send
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m21::deserialize_Dyn_Ext_Send 0
 -> (__o: Box<crate::private::Registry<Dyn_Ext_Send>>)
    ensures right(*__o)
@end
@loop fx_m21::deserialize_Dyn_Ext_Send 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@fn fx_m21::deserialize_Dyn_Ext
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Ext_Send>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Ext_Send_Dyn_Ext(b)), Res::Err(k) => Res::Err(k) })
@end
@im fx_m22::Dyn_Shape as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Shape"@, cons((""@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m22::Dyn_Shape_Send as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Shape"@, cons((""@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m22::Dyn_Shape_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Shape"@, cons((""@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m22::Dyn_Shape_Send_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Shape"@, cons((""@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@fn fx_m22::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m22::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_Shape_Sync>(r.deserializer)
@end
@closure fx_m22::submit__A 0
 -> (__o: Result<Box<Dyn_Shape_Sync>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_Shape_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m22::typetag_name__Named
    ensures r@ == "n"@
@end
@fn fx_m22::submit__Named
    ensures r.name@ == "n"@, makes::<Named, Dyn_Shape_Sync>(r.deserializer)
@end
@closure fx_m22::submit__Named 0
 -> (__o: Result<Box<Dyn_Shape_Sync>, crate::shim::ErasedError>)
    ensures made::<Named, Dyn_Shape_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m22
crate::gspec::group_registry
@end
@extra fx_m22
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_Shape_Sync>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::adjacently::TaggedVisitor<Dyn_Shape_Sync>) -> bool { v.trait_object@ == "Shape"@ && v.field_names@.len() == 2 && v.field_names@[0]@ == ""@ && v.field_names@[1]@ == "c"@ && v.default_variant is Some && v.default_variant->0@ == "not registered"@ && v.deny_unknown_fields == false && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_Shape_Sync>>) -> bool {
    exists|v: crate::adjacently::TaggedVisitor<Dyn_Shape_Sync>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Struct("Shape"@, names_of(v.field_names@)), left, r)
}
@end
@fn fx_m22::deserialize_Dyn_Shape_Sync
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m22::deserialize_Dyn_Shape_Sync 0
 -> (__o: Box<crate::private::Registry<Dyn_Shape_Sync>>)
    ensures right(*__o)
@end
@loop fx_m22::deserialize_Dyn_Shape_Sync 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@fn fx_m22::deserialize_Dyn_Shape
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Shape_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Shape_Sync_Dyn_Shape(b)), Res::Err(k) => Res::Err(k) })
@end
@im fx_m23::Dyn_Object as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Object"@, cons((""@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m23::Dyn_Object_Send as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Object"@, cons((""@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m23::Dyn_Object_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Object"@, cons((""@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m23::Dyn_Object_Send_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Object"@, cons((""@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@fn fx_m23::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m23::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_Object_Send_Sync>(r.deserializer)
@end
@closure fx_m23::submit__A 0
 -> (__o: Result<Box<Dyn_Object_Send_Sync>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_Object_Send_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m23::typetag_name__Named
    ensures r@ == "n"@
@end
@fn fx_m23::submit__Named
    ensures r.name@ == "n"@, makes::<Named, Dyn_Object_Send_Sync>(r.deserializer)
@end
@closure fx_m23::submit__Named 0
 -> (__o: Result<Box<Dyn_Object_Send_Sync>, crate::shim::ErasedError>)
    ensures made::<Named, Dyn_Object_Send_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m23
crate::gspec::group_registry
@end
@extra fx_m23
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_Object_Send_Sync>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::adjacently::TaggedVisitor<Dyn_Object_Send_Sync>) -> bool { v.trait_object@ == "Object"@ && v.field_names@.len() == 2 && v.field_names@[0]@ == ""@ && v.field_names@[1]@ == "c"@ && v.default_variant is Some && v.default_variant->0@ == "not registered"@ && v.deny_unknown_fields == false && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_Object_Send_Sync>>) -> bool {
    exists|v: crate::adjacently::TaggedVisitor<Dyn_Object_Send_Sync>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Struct("Object"@, names_of(v.field_names@)), left, r)
}
@end
@fn fx_m23::deserialize_Dyn_Object_Send_Sync
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m23::deserialize_Dyn_Object_Send_Sync 0
 -> (__o: Box<crate::private::Registry<Dyn_Object_Send_Sync>>)
    ensures right(*__o)
@end
@loop fx_m23::deserialize_Dyn_Object_Send_Sync 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@fn fx_m23::deserialize_Dyn_Object
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Object_Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Object_Send_Sync_Dyn_Object(b)), Res::Err(k) => Res::Err(k) })
@end
@fn fx_m23::deserialize_Dyn_Object_Send
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Object_Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Object_Send_Sync_Dyn_Object_Send(b)), Res::Err(k) => Res::Err(k) })
@end
@fn fx_m23::deserialize_Dyn_Object_Sync
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Object_Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Object_Send_Sync_Dyn_Object_Sync(b)), Res::Err(k) => Res::Err(k) })
@end
@im fx_m24::Dyn_Ext as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Ext"@, cons(("c"@, SVal::Str(self.name())), cons(("t"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m24::Dyn_Ext_Send as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Ext"@, cons(("c"@, SVal::Str(self.name())), cons(("t"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m24::Dyn_Ext_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Ext"@, cons(("c"@, SVal::Str(self.name())), cons(("t"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m24::Dyn_Ext_Send_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Ext"@, cons(("c"@, SVal::Str(self.name())), cons(("t"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@fn fx_m24::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m24::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_Ext>(r.deserializer)
@end
@closure fx_m24::submit__A 0
 -> (__o: Result<Box<Dyn_Ext>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_Ext>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m24::typetag_name__Named
    ensures r@ == "n"@
@end
@fn fx_m24::submit__Named
    ensures r.name@ == "n"@, makes::<Named, Dyn_Ext>(r.deserializer)
@end
@closure fx_m24::submit__Named 0
 -> (__o: Result<Box<Dyn_Ext>, crate::shim::ErasedError>)
    ensures made::<Named, Dyn_Ext>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m24
crate::gspec::group_registry
@end
@extra fx_m24
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_Ext>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::adjacently::TaggedVisitor<Dyn_Ext>) -> bool { v.trait_object@ == "Ext"@ && v.field_names@.len() == 2 && v.field_names@[0]@ == "c"@ && v.field_names@[1]@ == "t"@ && v.default_variant is Some && v.default_variant->0@ == "n"@ && v.deny_unknown_fields == true && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_Ext>>) -> bool {
    exists|v: crate::adjacently::TaggedVisitor<Dyn_Ext>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Struct("Ext"@, names_of(v.field_names@)), left, r)
}
@end
@fn fx_m24::deserialize_Dyn_Ext
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m24::deserialize_Dyn_Ext 0
 -> (__o: Box<crate::private::Registry<Dyn_Ext>>)
    ensures right(*__o)
@end
@loop fx_m24::deserialize_Dyn_Ext 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@im fx_m25::Dyn_Shape as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Shape"@, cons(("c"@, SVal::Str(self.name())), cons(("t"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m25::Dyn_Shape_Send as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Shape"@, cons(("c"@, SVal::Str(self.name())), cons(("t"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m25::Dyn_Shape_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Shape"@, cons(("c"@, SVal::Str(self.name())), cons(("t"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m25::Dyn_Shape_Send_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Shape"@, cons(("c"@, SVal::Str(self.name())), cons(("t"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@fn fx_m25::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m25::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_Shape_Send>(r.deserializer)
@end
@closure fx_m25::submit__A 0
 -> (__o: Result<Box<Dyn_Shape_Send>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_Shape_Send>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m25::typetag_name__Named
    ensures r@ == "n"@
@end
@fn fx_m25::submit__Named
    ensures r.name@ == "n"@, makes::<Named, Dyn_Shape_Send>(r.deserializer)
@end
@closure fx_m25::submit__Named 0
 -> (__o: Result<Box<Dyn_Shape_Send>, crate::shim::ErasedError>)
    ensures made::<Named, Dyn_Shape_Send>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m25
crate::gspec::group_registry
@end
@extra fx_m25
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_Shape_Send>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::adjacently::TaggedVisitor<Dyn_Shape_Send>) -> bool { v.trait_object@ == "Shape"@ && v.field_names@.len() == 2 && v.field_names@[0]@ == "c"@ && v.field_names@[1]@ == "t"@ && v.default_variant is Some && v.default_variant->0@ == "n"@ && v.deny_unknown_fields == true && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_Shape_Send>>) -> bool {
    exists|v: crate::adjacently::TaggedVisitor<Dyn_Shape_Send>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Struct("Shape"@, names_of(v.field_names@)), left, r)
}
@end
@fn fx_m25::deserialize_Dyn_Shape_Send
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m25::deserialize_Dyn_Shape_Send 0
 -> (__o: Box<crate::private::Registry<Dyn_Shape_Send>>)
    ensures right(*__o)
@end
@loop fx_m25::deserialize_Dyn_Shape_Send 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@fn fx_m25::deserialize_Dyn_Shape
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Shape_Send>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Shape_Send_Dyn_Shape(b)), Res::Err(k) => Res::Err(k) })
@end
@im fx_m26::Dyn_Object as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Object"@, cons(("c"@, SVal::Str(self.name())), cons(("t"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m26::Dyn_Object_Send as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Object"@, cons(("c"@, SVal::Str(self.name())), cons(("t"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m26::Dyn_Object_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Object"@, cons(("c"@, SVal::Str(self.name())), cons(("t"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m26::Dyn_Object_Send_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Object"@, cons(("c"@, SVal::Str(self.name())), cons(("t"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@fn fx_m26::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m26::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_Object_Sync>(r.deserializer)
@end
@closure fx_m26::submit__A 0
 -> (__o: Result<Box<Dyn_Object_Sync>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_Object_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m26::typetag_name__Deep
    ensures r@ == "Deep"@
@end
@fn fx_m26::submit__Deep
    ensures r.name@ == "Deep"@, makes::<Deep, Dyn_Object_Sync>(r.deserializer)
@end
@closure fx_m26::submit__Deep 0
 -> (__o: Result<Box<Dyn_Object_Sync>, crate::shim::ErasedError>)
    ensures made::<Deep, Dyn_Object_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m26::typetag_name__Named
    ensures r@ == "odd \"name\" é"@
@end
@fn fx_m26::submit__Named
    ensures r.name@ == "odd \"name\" é"@, makes::<Named, Dyn_Object_Sync>(r.deserializer)
@end
@closure fx_m26::submit__Named 0
 -> (__o: Result<Box<Dyn_Object_Sync>, crate::shim::ErasedError>)
    ensures made::<Named, Dyn_Object_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m26::typetag_name__Empty
    ensures r@ == ""@
@end
@fn fx_m26::submit__Empty
    ensures r.name@ == ""@, makes::<Empty, Dyn_Object_Sync>(r.deserializer)
@end
@closure fx_m26::submit__Empty 0
 -> (__o: Result<Box<Dyn_Object_Sync>, crate::shim::ErasedError>)
    ensures made::<Empty, Dyn_Object_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m26::typetag_name__FromConst
    ensures r@ == CONST_K@
@end
@fn fx_m26::submit__FromConst
    ensures r.name@ == CONST_K@, makes::<FromConst, Dyn_Object_Sync>(r.deserializer)
@end
@closure fx_m26::submit__FromConst 0
 -> (__o: Result<Box<Dyn_Object_Sync>, crate::shim::ErasedError>)
    ensures made::<FromConst, Dyn_Object_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m26
crate::gspec::group_registry
@end
@extra fx_m26
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_Object_Sync>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::adjacently::TaggedVisitor<Dyn_Object_Sync>) -> bool { v.trait_object@ == "Object"@ && v.field_names@.len() == 2 && v.field_names@[0]@ == "c"@ && v.field_names@[1]@ == "t"@ && v.default_variant is Some && v.default_variant->0@ == "n"@ && v.deny_unknown_fields == true && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_Object_Sync>>) -> bool {
    exists|v: crate::adjacently::TaggedVisitor<Dyn_Object_Sync>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Struct("Object"@, names_of(v.field_names@)), left, r)
}
@end
@fn fx_m26::deserialize_Dyn_Object_Sync
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m26::deserialize_Dyn_Object_Sync 0
 -> (__o: Box<crate::private::Registry<Dyn_Object_Sync>>)
    ensures right(*__o)
@end
@loop fx_m26::deserialize_Dyn_Object_Sync 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@fn fx_m26::deserialize_Dyn_Object
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Object_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Object_Sync_Dyn_Object(b)), Res::Err(k) => Res::Err(k) })
@end
@im fx_m27::Dyn_r2 as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("r2"@, cons(("c"@, SVal::Str(self.name())), cons(("t"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m27::Dyn_r2_Send as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("r2"@, cons(("c"@, SVal::Str(self.name())), cons(("t"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m27::Dyn_r2_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("r2"@, cons(("c"@, SVal::Str(self.name())), cons(("t"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m27::Dyn_r2_Send_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("r2"@, cons(("c"@, SVal::Str(self.name())), cons(("t"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@fn fx_m27::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m27::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_r2_Send_Sync>(r.deserializer)
@end
@closure fx_m27::submit__A 0
 -> (__o: Result<Box<Dyn_r2_Send_Sync>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_r2_Send_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m27::typetag_name__Named
    ensures r@ == "n"@
@end
@fn fx_m27::submit__Named
    ensures r.name@ == "n"@, makes::<Named, Dyn_r2_Send_Sync>(r.deserializer)
@end
@closure fx_m27::submit__Named 0
 -> (__o: Result<Box<Dyn_r2_Send_Sync>, crate::shim::ErasedError>)
    ensures made::<Named, Dyn_r2_Send_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m27
crate::gspec::group_registry
@end
@extra fx_m27
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_r2_Send_Sync>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::adjacently::TaggedVisitor<Dyn_r2_Send_Sync>) -> bool { v.trait_object@ == "r2"@ && v.field_names@.len() == 2 && v.field_names@[0]@ == "c"@ && v.field_names@[1]@ == "t"@ && v.default_variant is Some && v.default_variant->0@ == "n"@ && v.deny_unknown_fields == true && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_r2_Send_Sync>>) -> bool {
    exists|v: crate::adjacently::TaggedVisitor<Dyn_r2_Send_Sync>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Struct("r2"@, names_of(v.field_names@)), left, r)
}
@end
@fn fx_m27::deserialize_Dyn_r2_Send_Sync
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m27::deserialize_Dyn_r2_Send_Sync 0
 -> (__o: Box<crate::private::Registry<Dyn_r2_Send_Sync>>)
    ensures right(*__o)
@end
@loop fx_m27::deserialize_Dyn_r2_Send_Sync 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@fn fx_m27::deserialize_Dyn_r2
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_r2_Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_r2_Send_Sync_Dyn_r2(b)), Res::Err(k) => Res::Err(k) })
@end
@fn fx_m27::deserialize_Dyn_r2_Send
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_r2_Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_r2_Send_Sync_Dyn_r2_Send(b)), Res::Err(k) => Res::Err(k) })
@end
@fn fx_m27::deserialize_Dyn_r2_Sync
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_r2_Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_r2_Send_Sync_Dyn_r2_Sync(b)), Res::Err(k) => Res::Err(k) })
@end
@im fx_m28::Dyn_Ext as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Ext"@, cons(("t"@, SVal::Str(self.name())), cons(("content"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m28::Dyn_Ext_Send as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Ext"@, cons(("t"@, SVal::Str(self.name())), cons(("content"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m28::Dyn_Ext_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Ext"@, cons(("t"@, SVal::Str(self.name())), cons(("content"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m28::Dyn_Ext_Send_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Ext"@, cons(("t"@, SVal::Str(self.name())), cons(("content"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@fn fx_m28::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m28::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_Ext_Send_Sync>(r.deserializer)
@end
@closure fx_m28::submit__A 0
 -> (__o: Result<Box<Dyn_Ext_Send_Sync>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_Ext_Send_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m28::typetag_name__Named
    ensures r@ == "n"@
@end
@fn fx_m28::submit__Named
    ensures r.name@ == "n"@, makes::<Named, Dyn_Ext_Send_Sync>(r.deserializer)
@end
@closure fx_m28::submit__Named 0
 -> (__o: Result<Box<Dyn_Ext_Send_Sync>, crate::shim::ErasedError>)
    ensures made::<Named, Dyn_Ext_Send_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m28
crate::gspec::group_registry
@end
@extra fx_m28
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_Ext_Send_Sync>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::adjacently::TaggedVisitor<Dyn_Ext_Send_Sync>) -> bool { v.trait_object@ == "Ext"@ && v.field_names@.len() == 2 && v.field_names@[0]@ == "t"@ && v.field_names@[1]@ == "content"@ && v.default_variant is Some && v.default_variant->0@ == ""@ && v.deny_unknown_fields == true && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_Ext_Send_Sync>>) -> bool {
    exists|v: crate::adjacently::TaggedVisitor<Dyn_Ext_Send_Sync>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Struct("Ext"@, names_of(v.field_names@)), left, r)
}
@end
@fn fx_m28::deserialize_Dyn_Ext_Send_Sync
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m28::deserialize_Dyn_Ext_Send_Sync 0
 -> (__o: Box<crate::private::Registry<Dyn_Ext_Send_Sync>>)
    ensures right(*__o)
@end
@loop fx_m28::deserialize_Dyn_Ext_Send_Sync 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@fn fx_m28::deserialize_Dyn_Ext
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Ext_Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Ext_Send_Sync_Dyn_Ext(b)), Res::Err(k) => Res::Err(k) })
@end
@fn fx_m28::deserialize_Dyn_Ext_Send
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Ext_Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Ext_Send_Sync_Dyn_Ext_Send(b)), Res::Err(k) => Res::Err(k) })
@end
@fn fx_m28::deserialize_Dyn_Ext_Sync
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Ext_Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Ext_Send_Sync_Dyn_Ext_Sync(b)), Res::Err(k) => Res::Err(k) })
@end
@im fx_m29::Dyn_Shape as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("value"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("value"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("value"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m29::Dyn_Shape_Send as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("value"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("value"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("value"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m29::Dyn_Shape_Sync as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("value"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("value"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("value"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m29::Dyn_Shape_Send_Sync as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("value"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("value"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("value"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@fn fx_m29::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m29::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_Shape_Send_Sync>(r.deserializer)
@end
@closure fx_m29::submit__A 0
 -> (__o: Result<Box<Dyn_Shape_Send_Sync>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_Shape_Send_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m29::typetag_name__Named
    ensures r@ == "n"@
@end
@fn fx_m29::submit__Named
    ensures r.name@ == "n"@, makes::<Named, Dyn_Shape_Send_Sync>(r.deserializer)
@end
@closure fx_m29::submit__Named 0
 -> (__o: Result<Box<Dyn_Shape_Send_Sync>, crate::shim::ErasedError>)
    ensures made::<Named, Dyn_Shape_Send_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m29
crate::gspec::group_registry
@end
@extra fx_m29
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_Shape_Send_Sync>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::internally::TaggedVisitor<Dyn_Shape_Send_Sync>) -> bool { v.trait_object@ == "Shape"@ && v.tag@ == "value"@ && v.default_variant is Some && v.default_variant->0@ == ""@ && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_Shape_Send_Sync>>) -> bool {
    exists|v: crate::internally::TaggedVisitor<Dyn_Shape_Send_Sync>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Map, left, r)
}
@end
@fn fx_m29::deserialize_Dyn_Shape_Send_Sync
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m29::deserialize_Dyn_Shape_Send_Sync 0
 -> (__o: Box<crate::private::Registry<Dyn_Shape_Send_Sync>>)
    ensures right(*__o)
@end
@loop fx_m29::deserialize_Dyn_Shape_Send_Sync 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@fn fx_m29::deserialize_Dyn_Shape
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Shape_Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Shape_Send_Sync_Dyn_Shape(b)), Res::Err(k) => Res::Err(k) })
@end
@fn fx_m29::deserialize_Dyn_Shape_Send
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Shape_Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Shape_Send_Sync_Dyn_Shape_Send(b)), Res::Err(k) => Res::Err(k) })
@end
@fn fx_m29::deserialize_Dyn_Shape_Sync
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Shape_Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Shape_Send_Sync_Dyn_Shape_Sync(b)), Res::Err(k) => Res::Err(k) })
@end
@im fx_m30::Dyn_Object as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Map(one((SVal::Str(self.name()), crate::erased_serde::Serialize::eval(self)))), crate::serde::ser::srv($r))
@end
@im fx_m30::Dyn_Object_Send as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Map(one((SVal::Str(self.name()), crate::erased_serde::Serialize::eval(self)))), crate::serde::ser::srv($r))
@end
@im fx_m30::Dyn_Object_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Map(one((SVal::Str(self.name()), crate::erased_serde::Serialize::eval(self)))), crate::serde::ser::srv($r))
@end
@im fx_m30::Dyn_Object_Send_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Map(one((SVal::Str(self.name()), crate::erased_serde::Serialize::eval(self)))), crate::serde::ser::srv($r))
@end
@fn fx_m30::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m30::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_Object>(r.deserializer)
@end
@closure fx_m30::submit__A 0
 -> (__o: Result<Box<Dyn_Object>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_Object>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m30::typetag_name__Named
    ensures r@ == "n"@
@end
@fn fx_m30::submit__Named
    ensures r.name@ == "n"@, makes::<Named, Dyn_Object>(r.deserializer)
@end
@closure fx_m30::submit__Named 0
 -> (__o: Result<Box<Dyn_Object>, crate::shim::ErasedError>)
    ensures made::<Named, Dyn_Object>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m30
crate::gspec::group_registry
@end
@extra fx_m30
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_Object>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::externally::TaggedVisitor<Dyn_Object>) -> bool { v.trait_object@ == "Object"@ && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_Object>>) -> bool {
    exists|v: crate::externally::TaggedVisitor<Dyn_Object>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Map, left, r)
}
@end
@fn fx_m30::deserialize_Dyn_Object
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m30::deserialize_Dyn_Object 0
 -> (__o: Box<crate::private::Registry<Dyn_Object>>)
    ensures right(*__o)
@end
@loop fx_m30::deserialize_Dyn_Object 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@im fx_m31::Dyn_Ext as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Map(one((SVal::Str(self.name()), crate::erased_serde::Serialize::eval(self)))), crate::serde::ser::srv($r))
@end
@im fx_m31::Dyn_Ext_Send as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Map(one((SVal::Str(self.name()), crate::erased_serde::Serialize::eval(self)))), crate::serde::ser::srv($r))
@end
@im fx_m31::Dyn_Ext_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Map(one((SVal::Str(self.name()), crate::erased_serde::Serialize::eval(self)))), crate::serde::ser::srv($r))
@end
@im fx_m31::Dyn_Ext_Send_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Map(one((SVal::Str(self.name()), crate::erased_serde::Serialize::eval(self)))), crate::serde::ser::srv($r))
@end
@fn fx_m31::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m31::typetag_name__Named
    ensures r@ == "n"@
@end
@fn fx_m32::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_Shape_Send_Sync>(r.deserializer)
@end
@closure fx_m32::submit__A 0
 -> (__o: Result<Box<Dyn_Shape_Send_Sync>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_Shape_Send_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m32::submit__Named
    ensures r.name@ == "n"@, makes::<Named, Dyn_Shape_Send_Sync>(r.deserializer)
@end
@closure fx_m32::submit__Named 0
 -> (__o: Result<Box<Dyn_Shape_Send_Sync>, crate::shim::ErasedError>)
    ensures made::<Named, Dyn_Shape_Send_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m32
crate::gspec::group_registry
@end
@extra fx_m32
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_Shape_Send_Sync>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::externally::TaggedVisitor<Dyn_Shape_Send_Sync>) -> bool { v.trait_object@ == "Shape"@ && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_Shape_Send_Sync>>) -> bool {
    exists|v: crate::externally::TaggedVisitor<Dyn_Shape_Send_Sync>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Map, left, r)
}
@end
@fn fx_m32::deserialize_Dyn_Shape_Send_Sync
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m32::deserialize_Dyn_Shape_Send_Sync 0
 -> (__o: Box<crate::private::Registry<Dyn_Shape_Send_Sync>>)
    ensures right(*__o)
@end
@loop fx_m32::deserialize_Dyn_Shape_Send_Sync 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@fn fx_m32::deserialize_Dyn_Shape
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Shape_Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Shape_Send_Sync_Dyn_Shape(b)), Res::Err(k) => Res::Err(k) })
@end
@fn fx_m32::deserialize_Dyn_Shape_Send
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Shape_Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Shape_Send_Sync_Dyn_Shape_Send(b)), Res::Err(k) => Res::Err(k) })
@end
@fn fx_m32::deserialize_Dyn_Shape_Sync
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Shape_Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Shape_Send_Sync_Dyn_Shape_Sync(b)), Res::Err(k) => Res::Err(k) })
@end
@im fx_m33::Dyn_Shape as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("type"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("type"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("type"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m33::Dyn_Shape_Send as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("type"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("type"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("type"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m33::Dyn_Shape_Sync as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("type"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("type"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("type"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m33::Dyn_Shape_Send_Sync as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("type"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("type"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("type"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@fn fx_m33::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m33::typetag_name__Named
    ensures r@ == "n"@
@end
@fn fx_m34::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_Object_Send_Sync>(r.deserializer)
@end
@closure fx_m34::submit__A 0
 -> (__o: Result<Box<Dyn_Object_Send_Sync>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_Object_Send_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m34::submit__Named
    ensures r.name@ == "n"@, makes::<Named, Dyn_Object_Send_Sync>(r.deserializer)
@end
@closure fx_m34::submit__Named 0
 -> (__o: Result<Box<Dyn_Object_Send_Sync>, crate::shim::ErasedError>)
    ensures made::<Named, Dyn_Object_Send_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m34
crate::gspec::group_registry
@end
@extra fx_m34
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_Object_Send_Sync>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::internally::TaggedVisitor<Dyn_Object_Send_Sync>) -> bool { v.trait_object@ == "Object"@ && v.tag@ == "type"@ && v.default_variant is None && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_Object_Send_Sync>>) -> bool {
    exists|v: crate::internally::TaggedVisitor<Dyn_Object_Send_Sync>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Map, left, r)
}
@end
@fn fx_m34::deserialize_Dyn_Object_Send_Sync
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m34::deserialize_Dyn_Object_Send_Sync 0
 -> (__o: Box<crate::private::Registry<Dyn_Object_Send_Sync>>)
    ensures right(*__o)
@end
@loop fx_m34::deserialize_Dyn_Object_Send_Sync 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@fn fx_m34::deserialize_Dyn_Object
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Object_Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Object_Send_Sync_Dyn_Object(b)), Res::Err(k) => Res::Err(k) })
@end
@fn fx_m34::deserialize_Dyn_Object_Send
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Object_Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Object_Send_Sync_Dyn_Object_Send(b)), Res::Err(k) => Res::Err(k) })
@end
@fn fx_m34::deserialize_Dyn_Object_Sync
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Object_Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Object_Send_Sync_Dyn_Object_Sync(b)), Res::Err(k) => Res::Err(k) })
@end
@im fx_m35::Dyn_Object as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m35::Dyn_Object_Send as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m35::Dyn_Object_Sync as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m35::Dyn_Object_Send_Sync as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("ta\"g é"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@fn fx_m35::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m35::typetag_name__Named
    ensures r@ == "n"@
@end
@fn fx_m36::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_r2_Send_Sync>(r.deserializer)
@end
@closure fx_m36::submit__A 0
 -> (__o: Result<Box<Dyn_r2_Send_Sync>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_r2_Send_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m36::submit__Named
    ensures r.name@ == "n"@, makes::<Named, Dyn_r2_Send_Sync>(r.deserializer)
@end
@closure fx_m36::submit__Named 0
 -> (__o: Result<Box<Dyn_r2_Send_Sync>, crate::shim::ErasedError>)
    ensures made::<Named, Dyn_r2_Send_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m36
crate::gspec::group_registry
@end
@extra fx_m36
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_r2_Send_Sync>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::internally::TaggedVisitor<Dyn_r2_Send_Sync>) -> bool { v.trait_object@ == "r2"@ && v.tag@ == "ta\"g é"@ && v.default_variant is Some && v.default_variant->0@ == "A"@ && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_r2_Send_Sync>>) -> bool {
    exists|v: crate::internally::TaggedVisitor<Dyn_r2_Send_Sync>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Map, left, r)
}
@end
@fn fx_m36::deserialize_Dyn_r2_Send_Sync
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m36::deserialize_Dyn_r2_Send_Sync 0
 -> (__o: Box<crate::private::Registry<Dyn_r2_Send_Sync>>)
    ensures right(*__o)
@end
@loop fx_m36::deserialize_Dyn_r2_Send_Sync 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@fn fx_m36::deserialize_Dyn_r2
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_r2_Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_r2_Send_Sync_Dyn_r2(b)), Res::Err(k) => Res::Err(k) })
@end
@fn fx_m36::deserialize_Dyn_r2_Send
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_r2_Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_r2_Send_Sync_Dyn_r2_Send(b)), Res::Err(k) => Res::Err(k) })
@end
@fn fx_m36::deserialize_Dyn_r2_Sync
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_r2_Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_r2_Send_Sync_Dyn_r2_Sync(b)), Res::Err(k) => Res::Err(k) })
@end
@im fx_m37::Dyn_r2 as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("r2"@, cons(("t"@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m37::Dyn_r2_Send as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("r2"@, cons(("t"@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m37::Dyn_r2_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("r2"@, cons(("t"@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m37::Dyn_r2_Send_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("r2"@, cons(("t"@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@fn fx_m37::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m37::typetag_name__Named
    ensures r@ == "n"@
@end
@fn fx_m38::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_Trait_>(r.deserializer)
@end
@closure fx_m38::submit__A 0
 -> (__o: Result<Box<Dyn_Trait_>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_Trait_>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m38::submit__Named
    ensures r.name@ == "n"@, makes::<Named, Dyn_Trait_>(r.deserializer)
@end
@closure fx_m38::submit__Named 0
 -> (__o: Result<Box<Dyn_Trait_>, crate::shim::ErasedError>)
    ensures made::<Named, Dyn_Trait_>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m38
crate::gspec::group_registry
@end
@extra fx_m38
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_Trait_>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::adjacently::TaggedVisitor<Dyn_Trait_>) -> bool { v.trait_object@ == "Trait_"@ && v.field_names@.len() == 2 && v.field_names@[0]@ == "t"@ && v.field_names@[1]@ == "c"@ && v.default_variant is None && v.deny_unknown_fields == false && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_Trait_>>) -> bool {
    exists|v: crate::adjacently::TaggedVisitor<Dyn_Trait_>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Struct("Trait_"@, names_of(v.field_names@)), left, r)
}
@end
@fn fx_m38::deserialize_Dyn_Trait_
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m38::deserialize_Dyn_Trait_ 0
 -> (__o: Box<crate::private::Registry<Dyn_Trait_>>)
    ensures right(*__o)
@end
@loop fx_m38::deserialize_Dyn_Trait_ 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@im fx_m39::Dyn_Trait_ as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Trait_"@, cons(("t"@, SVal::Str(self.name())), cons((""@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m39::Dyn_Trait__Send as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Trait_"@, cons(("t"@, SVal::Str(self.name())), cons((""@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m39::Dyn_Trait__Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Trait_"@, cons(("t"@, SVal::Str(self.name())), cons((""@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m39::Dyn_Trait__Send_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Trait_"@, cons(("t"@, SVal::Str(self.name())), cons((""@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@fn fx_m39::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m39::typetag_name__Named
    ensures r@ == "n"@
@end
@fn fx_m40::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_Z>(r.deserializer)
@end
@closure fx_m40::submit__A 0
 -> (__o: Result<Box<Dyn_Z>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_Z>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m40::submit__Named
    ensures r.name@ == "n"@, makes::<Named, Dyn_Z>(r.deserializer)
@end
@closure fx_m40::submit__Named 0
 -> (__o: Result<Box<Dyn_Z>, crate::shim::ErasedError>)
    ensures made::<Named, Dyn_Z>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m40
crate::gspec::group_registry
@end
@extra fx_m40
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_Z>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::adjacently::TaggedVisitor<Dyn_Z>) -> bool { v.trait_object@ == "Z"@ && v.field_names@.len() == 2 && v.field_names@[0]@ == "t"@ && v.field_names@[1]@ == ""@ && v.default_variant is None && v.deny_unknown_fields == true && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_Z>>) -> bool {
    exists|v: crate::adjacently::TaggedVisitor<Dyn_Z>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Struct("Z"@, names_of(v.field_names@)), left, r)
}
@end
@fn fx_m40::deserialize_Dyn_Z
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m40::deserialize_Dyn_Z 0
 -> (__o: Box<crate::private::Registry<Dyn_Z>>)
    ensures right(*__o)
@end
@loop fx_m40::deserialize_Dyn_Z 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@im fx_m41::Dyn_Z as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Z"@, cons((""@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m41::Dyn_Z_Send as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Z"@, cons((""@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m41::Dyn_Z_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Z"@, cons((""@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m41::Dyn_Z_Send_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Z"@, cons((""@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@fn fx_m41::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m41::typetag_name__Named
    ensures r@ == "n"@
@end
@fn fx_m42::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_Ext_Send>(r.deserializer)
@end
@closure fx_m42::submit__A 0
 -> (__o: Result<Box<Dyn_Ext_Send>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_Ext_Send>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m42::submit__Named
    ensures r.name@ == "n"@, makes::<Named, Dyn_Ext_Send>(r.deserializer)
@end
@closure fx_m42::submit__Named 0
 -> (__o: Result<Box<Dyn_Ext_Send>, crate::shim::ErasedError>)
    ensures made::<Named, Dyn_Ext_Send>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m42
crate::gspec::group_registry
@end
@extra fx_m42
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_Ext_Send>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::adjacently::TaggedVisitor<Dyn_Ext_Send>) -> bool { v.trait_object@ == "Ext"@ && v.field_names@.len() == 2 && v.field_names@[0]@ == ""@ && v.field_names@[1]@ == "c"@ && v.default_variant is Some && v.default_variant->0@ == "not registered"@ && v.deny_unknown_fields == false && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_Ext_Send>>) -> bool {
    exists|v: crate::adjacently::TaggedVisitor<Dyn_Ext_Send>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Struct("Ext"@, names_of(v.field_names@)), left, r)
}
@end
@fn fx_m42::deserialize_Dyn_Ext_Send
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m42::deserialize_Dyn_Ext_Send 0
 -> (__o: Box<crate::private::Registry<Dyn_Ext_Send>>)
    ensures right(*__o)
@end
@loop fx_m42::deserialize_Dyn_Ext_Send 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@fn fx_m42::deserialize_Dyn_Ext
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Ext_Send>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Ext_Send_Dyn_Ext(b)), Res::Err(k) => Res::Err(k) })
@end
@im fx_m43::Dyn_Ext as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Ext"@, cons(("c"@, SVal::Str(self.name())), cons(("t"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m43::Dyn_Ext_Send as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Ext"@, cons(("c"@, SVal::Str(self.name())), cons(("t"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m43::Dyn_Ext_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Ext"@, cons(("c"@, SVal::Str(self.name())), cons(("t"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m43::Dyn_Ext_Send_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Ext"@, cons(("c"@, SVal::Str(self.name())), cons(("t"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@fn fx_m43::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m43::typetag_name__Named
    ensures r@ == "n"@
@end
@fn fx_m44::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_Shape_Sync>(r.deserializer)
@end
@closure fx_m44::submit__A 0
 -> (__o: Result<Box<Dyn_Shape_Sync>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_Shape_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m44::submit__Named
    ensures r.name@ == "n"@, makes::<Named, Dyn_Shape_Sync>(r.deserializer)
@end
@closure fx_m44::submit__Named 0
 -> (__o: Result<Box<Dyn_Shape_Sync>, crate::shim::ErasedError>)
    ensures made::<Named, Dyn_Shape_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m44
crate::gspec::group_registry
@end
@extra fx_m44
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_Shape_Sync>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::adjacently::TaggedVisitor<Dyn_Shape_Sync>) -> bool { v.trait_object@ == "Shape"@ && v.field_names@.len() == 2 && v.field_names@[0]@ == "c"@ && v.field_names@[1]@ == "t"@ && v.default_variant is Some && v.default_variant->0@ == "n"@ && v.deny_unknown_fields == true && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_Shape_Sync>>) -> bool {
    exists|v: crate::adjacently::TaggedVisitor<Dyn_Shape_Sync>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Struct("Shape"@, names_of(v.field_names@)), left, r)
}
@end
@fn fx_m44::deserialize_Dyn_Shape_Sync
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m44::deserialize_Dyn_Shape_Sync 0
 -> (__o: Box<crate::private::Registry<Dyn_Shape_Sync>>)
    ensures right(*__o)
@end
@loop fx_m44::deserialize_Dyn_Shape_Sync 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@fn fx_m44::deserialize_Dyn_Shape
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Shape_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Shape_Sync_Dyn_Shape(b)), Res::Err(k) => Res::Err(k) })
@end
@im fx_m45::Dyn_Private as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Map(one((SVal::Str(self.name()), crate::erased_serde::Serialize::eval(self)))), crate::serde::ser::srv($r))
@end
@im fx_m45::Dyn_Private_Send as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Map(one((SVal::Str(self.name()), crate::erased_serde::Serialize::eval(self)))), crate::serde::ser::srv($r))
@end
@im fx_m45::Dyn_Private_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Map(one((SVal::Str(self.name()), crate::erased_serde::Serialize::eval(self)))), crate::serde::ser::srv($r))
@end
@im fx_m45::Dyn_Private_Send_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Map(one((SVal::Str(self.name()), crate::erased_serde::Serialize::eval(self)))), crate::serde::ser::srv($r))
@end
@fn fx_m45::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m45::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_Private>(r.deserializer)
@end
@closure fx_m45::submit__A 0
 -> (__o: Result<Box<Dyn_Private>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_Private>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m45
crate::gspec::group_registry
@end
@extra fx_m45
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_Private>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::externally::TaggedVisitor<Dyn_Private>) -> bool { v.trait_object@ == "Private"@ && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_Private>>) -> bool {
    exists|v: crate::externally::TaggedVisitor<Dyn_Private>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Map, left, r)
}
@end
@fn fx_m45::deserialize_Dyn_Private
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m45::deserialize_Dyn_Private 0
 -> (__o: Box<crate::private::Registry<Dyn_Private>>)
    ensures right(*__o)
@end
@loop fx_m45::deserialize_Dyn_Private 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@im fx_m46::Dyn_Crate as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("k"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("k"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("k"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m46::Dyn_Crate_Send as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("k"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("k"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("k"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m46::Dyn_Crate_Sync as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("k"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("k"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("k"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m46::Dyn_Crate_Send_Sync as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("k"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("k"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("k"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@fn fx_m46::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m46::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_Crate_Send>(r.deserializer)
@end
@closure fx_m46::submit__A 0
 -> (__o: Result<Box<Dyn_Crate_Send>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_Crate_Send>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m46::typetag_name__B
    ensures r@ == "b"@
@end
@fn fx_m46::submit__B
    ensures r.name@ == "b"@, makes::<B, Dyn_Crate_Send>(r.deserializer)
@end
@closure fx_m46::submit__B 0
 -> (__o: Result<Box<Dyn_Crate_Send>, crate::shim::ErasedError>)
    ensures made::<B, Dyn_Crate_Send>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m46
crate::gspec::group_registry
@end
@extra fx_m46
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_Crate_Send>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::internally::TaggedVisitor<Dyn_Crate_Send>) -> bool { v.trait_object@ == "Crate"@ && v.tag@ == "k"@ && v.default_variant is None && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_Crate_Send>>) -> bool {
    exists|v: crate::internally::TaggedVisitor<Dyn_Crate_Send>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Map, left, r)
}
@end
@fn fx_m46::deserialize_Dyn_Crate_Send
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m46::deserialize_Dyn_Crate_Send 0
 -> (__o: Box<crate::private::Registry<Dyn_Crate_Send>>)
    ensures right(*__o)
@end
@loop fx_m46::deserialize_Dyn_Crate_Send 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@fn fx_m46::deserialize_Dyn_Crate
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Crate_Send>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Crate_Send_Dyn_Crate(b)), Res::Err(k) => Res::Err(k) })
@end
@im fx_m47::Dyn_Generic as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Map(one((SVal::Str(self.name()), crate::erased_serde::Serialize::eval(self)))), crate::serde::ser::srv($r))
@end
@im fx_m47::Dyn_Generic_Send as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Map(one((SVal::Str(self.name()), crate::erased_serde::Serialize::eval(self)))), crate::serde::ser::srv($r))
@end
@im fx_m47::Dyn_Generic_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Map(one((SVal::Str(self.name()), crate::erased_serde::Serialize::eval(self)))), crate::serde::ser::srv($r))
@end
@im fx_m47::Dyn_Generic_Send_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Map(one((SVal::Str(self.name()), crate::erased_serde::Serialize::eval(self)))), crate::serde::ser::srv($r))
@end
@fn fx_m47::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m47::typetag_name__B
    ensures r@ == "B"@
@end
@fn fx_m47::typetag_name__C
    ensures r@ == "C"@
@end
@fn fx_m47::typetag_name__G
    ensures r@ == "G"@
@end
@fn fx_m47::typetag_name__H
    ensures r@ == "h"@
@end
@im fx_m48::Dyn_Generic as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("t"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("t"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("t"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m48::Dyn_Generic_Send as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("t"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("t"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("t"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m48::Dyn_Generic_Sync as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("t"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("t"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("t"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m48::Dyn_Generic_Send_Sync as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("t"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("t"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("t"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@fn fx_m48::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m48::typetag_name__B
    ensures r@ == "B"@
@end
@fn fx_m48::typetag_name__C
    ensures r@ == "C"@
@end
@fn fx_m48::typetag_name__G
    ensures r@ == "G"@
@end
@fn fx_m48::typetag_name__H
    ensures r@ == "h"@
@end
@im fx_m49::Dyn_Generic as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Generic"@, cons(("t"@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m49::Dyn_Generic_Send as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Generic"@, cons(("t"@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m49::Dyn_Generic_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Generic"@, cons(("t"@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m49::Dyn_Generic_Send_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Generic"@, cons(("t"@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@fn fx_m49::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m49::typetag_name__B
    ensures r@ == "B"@
@end
@fn fx_m49::typetag_name__C
    ensures r@ == "C"@
@end
@fn fx_m49::typetag_name__G
    ensures r@ == "G"@
@end
@fn fx_m49::typetag_name__H
    ensures r@ == "h"@
@end
@im fx_m50::Dyn_Outer as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Outer"@, cons(("t"@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m50::Dyn_Outer_Send as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Outer"@, cons(("t"@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m50::Dyn_Outer_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Outer"@, cons(("t"@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m50::Dyn_Outer_Send_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Outer"@, cons(("t"@, SVal::Str(self.name())), cons(("c"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@fn fx_m50::typetag_name__G
    ensures r@ == "G"@
@end
@fn fx_m50::submit__G
    ensures r.name@ == "G"@, makes::<G<u8>, Dyn_Outer_Send_Sync>(r.deserializer)
@end
@closure fx_m50::submit__G 0
 -> (__o: Result<Box<Dyn_Outer_Send_Sync>, crate::shim::ErasedError>)
    ensures made::<G<u8>, Dyn_Outer_Send_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m50::typetag_name__G2
    ensures r@ == "g2"@
@end
@fn fx_m50::submit__G2
    ensures r.name@ == "g2"@, makes::<G2<u8, 3>, Dyn_Outer_Send_Sync>(r.deserializer)
@end
@closure fx_m50::submit__G2 0
 -> (__o: Result<Box<Dyn_Outer_Send_Sync>, crate::shim::ErasedError>)
    ensures made::<G2<u8, 3>, Dyn_Outer_Send_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m50::typetag_name__D
    ensures r@ == "D"@
@end
@fn fx_m50::submit__D
    ensures r.name@ == "D"@, makes::<D, Dyn_Outer_Send_Sync>(r.deserializer)
@end
@closure fx_m50::submit__D 0
 -> (__o: Result<Box<Dyn_Outer_Send_Sync>, crate::shim::ErasedError>)
    ensures made::<D, Dyn_Outer_Send_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m50::typetag_name__E
    ensures r@ == "E"@
@end
@fn fx_m50::submit__E
    ensures r.name@ == "E"@, makes::<E, Dyn_Outer_Send_Sync>(r.deserializer)
@end
@closure fx_m50::submit__E 0
 -> (__o: Result<Box<Dyn_Outer_Send_Sync>, crate::shim::ErasedError>)
    ensures made::<E, Dyn_Outer_Send_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m50::typetag_name__F
    ensures r@ == "mac"@
@end
@fn fx_m50::submit__F
    ensures r.name@ == "mac"@, makes::<F, Dyn_Outer_Send_Sync>(r.deserializer)
@end
@closure fx_m50::submit__F 0
 -> (__o: Result<Box<Dyn_Outer_Send_Sync>, crate::shim::ErasedError>)
    ensures made::<F, Dyn_Outer_Send_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m50::typetag_name__K
    ensures r@ == CONST_Z@
@end
@fn fx_m50::submit__K
    ensures r.name@ == CONST_Z@, makes::<K, Dyn_Outer_Send_Sync>(r.deserializer)
@end
@closure fx_m50::submit__K 0
 -> (__o: Result<Box<Dyn_Outer_Send_Sync>, crate::shim::ErasedError>)
    ensures made::<K, Dyn_Outer_Send_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m50
crate::gspec::group_registry
@end
@extra fx_m50
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_Outer_Send_Sync>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::adjacently::TaggedVisitor<Dyn_Outer_Send_Sync>) -> bool { v.trait_object@ == "Outer"@ && v.field_names@.len() == 2 && v.field_names@[0]@ == "t"@ && v.field_names@[1]@ == "c"@ && v.default_variant is Some && v.default_variant->0@ == "D"@ && v.deny_unknown_fields == false && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_Outer_Send_Sync>>) -> bool {
    exists|v: crate::adjacently::TaggedVisitor<Dyn_Outer_Send_Sync>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Struct("Outer"@, names_of(v.field_names@)), left, r)
}
@end
@fn fx_m50::deserialize_Dyn_Outer_Send_Sync
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m50::deserialize_Dyn_Outer_Send_Sync 0
 -> (__o: Box<crate::private::Registry<Dyn_Outer_Send_Sync>>)
    ensures right(*__o)
@end
@loop fx_m50::deserialize_Dyn_Outer_Send_Sync 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@fn fx_m50::deserialize_Dyn_Outer
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Outer_Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Outer_Send_Sync_Dyn_Outer(b)), Res::Err(k) => Res::Err(k) })
@end
@fn fx_m50::deserialize_Dyn_Outer_Send
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Outer_Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Outer_Send_Sync_Dyn_Outer_Send(b)), Res::Err(k) => Res::Err(k) })
@end
@fn fx_m50::deserialize_Dyn_Outer_Sync
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Outer_Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Outer_Send_Sync_Dyn_Outer_Sync(b)), Res::Err(k) => Res::Err(k) })
@end
@im fx_m51::Dyn_ByMacro as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("mac"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("mac"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("mac"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m51::Dyn_ByMacro_Send as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("mac"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("mac"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("mac"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m51::Dyn_ByMacro_Sync as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("mac"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("mac"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("mac"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m51::Dyn_ByMacro_Send_Sync as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("mac"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("mac"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("mac"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@fn fx_m51::typetag_name__A
    ensures r@ == "A"@
@end
@fn fx_m51::submit__A
    ensures r.name@ == "A"@, makes::<A, Dyn_ByMacro_Sync>(r.deserializer)
@end
@closure fx_m51::submit__A 0
 -> (__o: Result<Box<Dyn_ByMacro_Sync>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_ByMacro_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m51
crate::gspec::group_registry
@end
@extra fx_m51
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_ByMacro_Sync>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::internally::TaggedVisitor<Dyn_ByMacro_Sync>) -> bool { v.trait_object@ == "ByMacro"@ && v.tag@ == "mac"@ && v.default_variant is Some && v.default_variant->0@ == "A"@ && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_ByMacro_Sync>>) -> bool {
    exists|v: crate::internally::TaggedVisitor<Dyn_ByMacro_Sync>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Map, left, r)
}
@end
@fn fx_m51::deserialize_Dyn_ByMacro_Sync
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m51::deserialize_Dyn_ByMacro_Sync 0
 -> (__o: Box<crate::private::Registry<Dyn_ByMacro_Sync>>)
    ensures right(*__o)
@end
@loop fx_m51::deserialize_Dyn_ByMacro_Sync 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@fn fx_m51::deserialize_Dyn_ByMacro
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_ByMacro_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_ByMacro_Sync_Dyn_ByMacro(b)), Res::Err(k) => Res::Err(k) })
@end
@im fx_m52::Dyn_Lits as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Lits"@, cons(("a\"b"@, SVal::Str(self.name())), cons(("\n\t\\"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m52::Dyn_Lits_Send as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Lits"@, cons(("a\"b"@, SVal::Str(self.name())), cons(("\n\t\\"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m52::Dyn_Lits_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Lits"@, cons(("a\"b"@, SVal::Str(self.name())), cons(("\n\t\\"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@im fx_m52::Dyn_Lits_Send_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Struct("Lits"@, cons(("a\"b"@, SVal::Str(self.name())), cons(("\n\t\\"@, crate::erased_serde::Serialize::eval(self)), Seq::empty()))), crate::serde::ser::srv($r))
@end
@fn fx_m52::typetag_name___U
    ensures r@ == "_U"@
@end
@fn fx_m52::submit___U
    ensures r.name@ == "_U"@, makes::<_U, Dyn_Lits_Send>(r.deserializer)
@end
@closure fx_m52::submit___U 0
 -> (__o: Result<Box<Dyn_Lits_Send>, crate::shim::ErasedError>)
    ensures made::<_U, Dyn_Lits_Send>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m52::typetag_name__x
    ensures r@ == "x"@
@end
@fn fx_m52::submit__x
    ensures r.name@ == "x"@, makes::<x, Dyn_Lits_Send>(r.deserializer)
@end
@closure fx_m52::submit__x 0
 -> (__o: Result<Box<Dyn_Lits_Send>, crate::shim::ErasedError>)
    ensures made::<x, Dyn_Lits_Send>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m52::typetag_name__Z
    ensures r@ == "#"@
@end
@fn fx_m52::submit__Z
    ensures r.name@ == "#"@, makes::<Z, Dyn_Lits_Send>(r.deserializer)
@end
@closure fx_m52::submit__Z 0
 -> (__o: Result<Box<Dyn_Lits_Send>, crate::shim::ErasedError>)
    ensures made::<Z, Dyn_Lits_Send>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m52
crate::gspec::group_registry
@end
@extra fx_m52
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_Lits_Send>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::adjacently::TaggedVisitor<Dyn_Lits_Send>) -> bool { v.trait_object@ == "Lits"@ && v.field_names@.len() == 2 && v.field_names@[0]@ == "a\"b"@ && v.field_names@[1]@ == "\n\t\\"@ && v.default_variant is Some && v.default_variant->0@ == "x"@ && v.deny_unknown_fields == true && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_Lits_Send>>) -> bool {
    exists|v: crate::adjacently::TaggedVisitor<Dyn_Lits_Send>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Struct("Lits"@, names_of(v.field_names@)), left, r)
}
@end
@fn fx_m52::deserialize_Dyn_Lits_Send
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m52::deserialize_Dyn_Lits_Send 0
 -> (__o: Box<crate::private::Registry<Dyn_Lits_Send>>)
    ensures right(*__o)
@end
@loop fx_m52::deserialize_Dyn_Lits_Send 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@fn fx_m52::deserialize_Dyn_Lits
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Lits_Send>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Lits_Send_Dyn_Lits(b)), Res::Err(k) => Res::Err(k) })
@end
@fn fx_m53::submit__A
    ensures r.name@ == "two"@, makes::<A, Dyn_Two_Send_Sync>(r.deserializer)
@end
@closure fx_m53::submit__A 0
 -> (__o: Result<Box<Dyn_Two_Send_Sync>, crate::shim::ErasedError>)
    ensures made::<A, Dyn_Two_Send_Sync>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m53
crate::gspec::group_registry
@end
@extra fx_m53
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_Two_Send_Sync>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::externally::TaggedVisitor<Dyn_Two_Send_Sync>) -> bool { v.trait_object@ == "Two"@ && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_Two_Send_Sync>>) -> bool {
    exists|v: crate::externally::TaggedVisitor<Dyn_Two_Send_Sync>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Map, left, r)
}
@end
@fn fx_m53::deserialize_Dyn_Two_Send_Sync
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m53::deserialize_Dyn_Two_Send_Sync 0
 -> (__o: Box<crate::private::Registry<Dyn_Two_Send_Sync>>)
    ensures right(*__o)
@end
@loop fx_m53::deserialize_Dyn_Two_Send_Sync 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@fn fx_m53::deserialize_Dyn_Two
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Two_Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Two_Send_Sync_Dyn_Two(b)), Res::Err(k) => Res::Err(k) })
@end
@fn fx_m53::deserialize_Dyn_Two_Send
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Two_Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Two_Send_Sync_Dyn_Two_Send(b)), Res::Err(k) => Res::Err(k) })
@end
@fn fx_m53::deserialize_Dyn_Two_Sync
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<Dyn_Two_Send_Sync>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q { Res::Ok(b) => Res::Ok(unsized_Dyn_Two_Send_Sync_Dyn_Two_Sync(b)), Res::Err(k) => Res::Err(k) })
@end
@im fx_m54::Dyn_Nothing as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("t"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("t"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("t"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m54::Dyn_Nothing_Send as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("t"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("t"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("t"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m54::Dyn_Nothing_Sync as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("t"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("t"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("t"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@im fx_m54::Dyn_Nothing_Send_Sync as Serialize::serialize
    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err("t"@, self.name(), crate::erased_serde::Serialize::eval(self)))
        || (!its_rejects("t"@, self.name(), crate::erased_serde::Serialize::eval(self)) && $1.out(its_shape("t"@, self.name(), crate::erased_serde::Serialize::eval(self)), crate::serde::ser::srv($r)))
@end
@bcast fx_m54
crate::gspec::group_registry
@end
@extra fx_m54
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_Nothing>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::internally::TaggedVisitor<Dyn_Nothing>) -> bool { v.trait_object@ == "Nothing"@ && v.tag@ == "t"@ && v.default_variant is Some && v.default_variant->0@ == "none"@ && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_Nothing>>) -> bool {
    exists|v: crate::internally::TaggedVisitor<Dyn_Nothing>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Map, left, r)
}
@end
@fn fx_m54::deserialize_Dyn_Nothing
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m54::deserialize_Dyn_Nothing 0
 -> (__o: Box<crate::private::Registry<Dyn_Nothing>>)
    ensures right(*__o)
@end
@loop fx_m54::deserialize_Dyn_Nothing 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@im fx_m55::Dyn_Many as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Map(one((SVal::Str(self.name()), crate::erased_serde::Serialize::eval(self)))), crate::serde::ser::srv($r))
@end
@im fx_m55::Dyn_Many_Send as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Map(one((SVal::Str(self.name()), crate::erased_serde::Serialize::eval(self)))), crate::serde::ser::srv($r))
@end
@im fx_m55::Dyn_Many_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Map(one((SVal::Str(self.name()), crate::erased_serde::Serialize::eval(self)))), crate::serde::ser::srv($r))
@end
@im fx_m55::Dyn_Many_Send_Sync as Serialize::serialize
    ensures foreign(crate::serde::ser::srv($r)) || $1.out(SVal::Map(one((SVal::Str(self.name()), crate::erased_serde::Serialize::eval(self)))), crate::serde::ser::srv($r))
@end
@fn fx_m55::typetag_name__V0
    ensures r@ == "V0"@
@end
@fn fx_m55::submit__V0
    ensures r.name@ == "V0"@, makes::<V0, Dyn_Many>(r.deserializer)
@end
@closure fx_m55::submit__V0 0
 -> (__o: Result<Box<Dyn_Many>, crate::shim::ErasedError>)
    ensures made::<V0, Dyn_Many>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m55::typetag_name__V1
    ensures r@ == "V1"@
@end
@fn fx_m55::submit__V1
    ensures r.name@ == "V1"@, makes::<V1, Dyn_Many>(r.deserializer)
@end
@closure fx_m55::submit__V1 0
 -> (__o: Result<Box<Dyn_Many>, crate::shim::ErasedError>)
    ensures made::<V1, Dyn_Many>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m55::typetag_name__V2
    ensures r@ == "V2"@
@end
@fn fx_m55::submit__V2
    ensures r.name@ == "V2"@, makes::<V2, Dyn_Many>(r.deserializer)
@end
@closure fx_m55::submit__V2 0
 -> (__o: Result<Box<Dyn_Many>, crate::shim::ErasedError>)
    ensures made::<V2, Dyn_Many>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m55::typetag_name__V3
    ensures r@ == "V3"@
@end
@fn fx_m55::submit__V3
    ensures r.name@ == "V3"@, makes::<V3, Dyn_Many>(r.deserializer)
@end
@closure fx_m55::submit__V3 0
 -> (__o: Result<Box<Dyn_Many>, crate::shim::ErasedError>)
    ensures made::<V3, Dyn_Many>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m55::typetag_name__V4
    ensures r@ == "V4"@
@end
@fn fx_m55::submit__V4
    ensures r.name@ == "V4"@, makes::<V4, Dyn_Many>(r.deserializer)
@end
@closure fx_m55::submit__V4 0
 -> (__o: Result<Box<Dyn_Many>, crate::shim::ErasedError>)
    ensures made::<V4, Dyn_Many>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m55::typetag_name__V5
    ensures r@ == "V5"@
@end
@fn fx_m55::submit__V5
    ensures r.name@ == "V5"@, makes::<V5, Dyn_Many>(r.deserializer)
@end
@closure fx_m55::submit__V5 0
 -> (__o: Result<Box<Dyn_Many>, crate::shim::ErasedError>)
    ensures made::<V5, Dyn_Many>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m55::typetag_name__V6
    ensures r@ == "V6"@
@end
@fn fx_m55::submit__V6
    ensures r.name@ == "V6"@, makes::<V6, Dyn_Many>(r.deserializer)
@end
@closure fx_m55::submit__V6 0
 -> (__o: Result<Box<Dyn_Many>, crate::shim::ErasedError>)
    ensures made::<V6, Dyn_Many>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m55::typetag_name__V7
    ensures r@ == "V7"@
@end
@fn fx_m55::submit__V7
    ensures r.name@ == "V7"@, makes::<V7, Dyn_Many>(r.deserializer)
@end
@closure fx_m55::submit__V7 0
 -> (__o: Result<Box<Dyn_Many>, crate::shim::ErasedError>)
    ensures made::<V7, Dyn_Many>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m55::typetag_name__V8
    ensures r@ == "V8"@
@end
@fn fx_m55::submit__V8
    ensures r.name@ == "V8"@, makes::<V8, Dyn_Many>(r.deserializer)
@end
@closure fx_m55::submit__V8 0
 -> (__o: Result<Box<Dyn_Many>, crate::shim::ErasedError>)
    ensures made::<V8, Dyn_Many>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m55::typetag_name__V9
    ensures r@ == "V9"@
@end
@fn fx_m55::submit__V9
    ensures r.name@ == "V9"@, makes::<V9, Dyn_Many>(r.deserializer)
@end
@closure fx_m55::submit__V9 0
 -> (__o: Result<Box<Dyn_Many>, crate::shim::ErasedError>)
    ensures made::<V9, Dyn_Many>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m55::typetag_name__V10
    ensures r@ == "V10"@
@end
@fn fx_m55::submit__V10
    ensures r.name@ == "V10"@, makes::<V10, Dyn_Many>(r.deserializer)
@end
@closure fx_m55::submit__V10 0
 -> (__o: Result<Box<Dyn_Many>, crate::shim::ErasedError>)
    ensures made::<V10, Dyn_Many>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@fn fx_m55::typetag_name__V11
    ensures r@ == "V11"@
@end
@fn fx_m55::submit__V11
    ensures r.name@ == "V11"@, makes::<V11, Dyn_Many>(r.deserializer)
@end
@closure fx_m55::submit__V11 0
 -> (__o: Result<Box<Dyn_Many>, crate::shim::ErasedError>)
    ensures made::<V11, Dyn_Many>(__d.d_src(), __d.d_rest(), res_of(__o))
@end
@bcast fx_m55
crate::gspec::group_registry
@end
@extra fx_m55
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{ if n <= 0 { Seq::empty() } else { first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) } }
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> { first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<Dyn_Many>) -> bool {
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}
pub open spec fn configured(v: crate::externally::TaggedVisitor<Dyn_Many>) -> bool { v.trait_object@ == "Many"@ && right(*v.registry) }
pub open spec fn read(src: Src, left: int, r: Res<Box<Dyn_Many>>) -> bool {
    exists|v: crate::externally::TaggedVisitor<Dyn_Many>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, Hint::Map, left, r)
}
@end
@fn fx_m55::deserialize_Dyn_Many
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end
@closure fx_m55::deserialize_Dyn_Many 0
 -> (__o: Box<crate::private::Registry<Dyn_Many>>)
    ensures right(*__o)
@end
@loop fx_m55::deserialize_Dyn_Many 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
