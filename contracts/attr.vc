// The attribute parser.
@extra attr
pub open spec fn says(a: TraitArgs) -> Args {
    match a {
        TraitArgs::External => Args::External,
        TraitArgs::Internal { tag, default_variant } => Args::Internal(tag@, lit(default_variant)),
        TraitArgs::Adjacent { tag, content, default_variant, deny_unknown_fields } => Args::Adjacent(tag@, content@, lit(default_variant), deny_unknown_fields),
    }
}
pub open spec fn lit(l: Option<LitStr>) -> Option<Seq<char>> { match l { Some(l) => Some(l@), None => None } }
@end
@fn attr::TraitArgs::parse
    ensures
        (r is Ok && final($1).rest().len() == 0) == (reading(old($1).rest()) is Some),
        r is Ok && final($1).rest().len() == 0 ==> reading(old($1).rest()) == Some(says(r->Ok_0)),
@end
@loop attr::TraitArgs::parse 0
    invariant
        reading(old($1).rest()) == (match options($1.rest(), lit($none), deny_unknown_fields) {
            Some((d, deny)) => Some(Args::Adjacent(tag@, content@, d, deny)),
            None => None,
        }),
    ensures $1.rest().len() == 0,
    decreases $1.rest().len(),
@end
@fn attr::ImplArgs::parse
    ensures
        (r is Ok && final($1).rest().len() == 0) == (reading_impl(old($1).rest()) is Some),
        r is Ok && final($1).rest().len() == 0 ==> reading_impl(old($1).rest()) == Some(r->Ok_0.name),
@end
@fn attr::type_name
    requires whole(*ty)
    ensures match r { Some(s) => own_name(*ty) == Some(s@), None => own_name(*ty) is None }
@end
@loop attr::type_name 0
    invariant whole(*__$1), own_name(*ty) == own_name(*__$1),
    decreases *__$1,
@end
@fn attr::has_supertrait
    ensures r == has_bound($1.supertraits@, $2@)
@end
@loop attr::has_supertrait 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == $1.supertraits@,
        forall|i: int| 0 <= i < $it.pos() ==> !bound_to(#[trigger] $1.supertraits@[i], $2@),
    ensures $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end
@bcast attr
crate::asyn::skip_skip
crate::asyn::skip_none
crate::asyn::option_words
@end
