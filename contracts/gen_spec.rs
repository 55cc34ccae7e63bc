use vstd::prelude::*;
use crate::spec::*;
use crate::shim::*;
verus! {
/// What the Deserialize implementation of `A` makes of an input.
pub uninterp spec fn concrete<A>(src: Src, left: int, r: Res<A>) -> bool;
pub uninterp spec fn concrete_err<A>(src: Src, left: int) -> bool;
/// A value as a boxed trait object.
pub uninterp spec fn object_of<A, Q>(a: A) -> Box<Q>;
/// `x` is what `A` makes of the input, as a trait object.
pub open spec fn made<A, Q>(src: Src, left: int, x: Res<Box<Q>>) -> bool {
    match x {
        Res::Ok(b) => exists|a: A| #[trigger] concrete::<A>(src, left, Res::Ok(a)) && b == object_of::<A, Q>(a),
        Res::Err(k) => k == EK::Custom && concrete_err::<A>(src, left),
    }
}
/// The registered function reads an `A`.
pub open spec fn makes<A, Q>(f: DeserializeFn<Q>) -> bool {
    forall|src: Src, left: int, x: Res<Box<Q>>| #[trigger] applied(f, src, left, x) ==> made::<A, Q>(src, left, x)
}

// ---- the registry (C08)
/// How often a name is registered.
pub open spec fn times<F>(rs: Seq<(Seq<char>, F)>, n: Seq<char>) -> nat
    decreases rs.len()
{ if rs.len() == 0 { 0 } else { times(rs.drop_last(), n) + if rs.last().0 == n { 1nat } else { 0 } } }
/// What stands under a name.
pub open spec fn under<F>(rs: Seq<(Seq<char>, F)>, n: Seq<char>) -> F
    decreases rs.len()
{ if rs.len() == 0 { arbitrary() } else if rs.last().0 == n { rs.last().1 } else { under(rs.drop_last(), n) } }
/// One registration resolves to itself, several to none.
pub open spec fn resolves<F>(m: Map<Seq<char>, Option<F>>, rs: Seq<(Seq<char>, F)>) -> bool {
    forall|n: Seq<char>| #![trigger m.contains_key(n)] #![trigger m[n]] #![trigger times(rs, n)]
        (m.contains_key(n) <==> times(rs, n) > 0)
        && (m.contains_key(n) ==> m[n] == if times(rs, n) == 1 { Some(under(rs, n)) } else { None })
}
pub open spec fn lists<F>(names: Seq<&'static str>, rs: Seq<(Seq<char>, F)>) -> bool {
    forall|n: Seq<char>| #![trigger listed(names, n)] #![trigger times(rs, n)] listed(names, n) <==> times(rs, n) > 0
}
pub broadcast proof fn lemma_times_push<F>(rs: Seq<(Seq<char>, F)>, x: (Seq<char>, F), n: Seq<char>)
    ensures
        #[trigger] times(rs.push(x), n) == times(rs, n) + if x.0 == n { 1nat } else { 0 },
{ assert(rs.push(x).drop_last() =~= rs); }
pub broadcast proof fn lemma_under_push<F>(rs: Seq<(Seq<char>, F)>, x: (Seq<char>, F), n: Seq<char>)
    ensures
        #[trigger] under(rs.push(x), n) == if x.0 == n { x.1 } else { under(rs, n) },
{ assert(rs.push(x).drop_last() =~= rs); }
pub broadcast proof fn lemma_listed_push(s: Seq<&'static str>, x: &'static str, n: Seq<char>)
    ensures #[trigger] listed(s.push(x), n) == (listed(s, n) || x@ == n)
{
    let t = s.push(x);
    if x@ == n { assert(t[s.len() as int]@ == n); }
    if listed(s, n) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == n; assert(t[i]@ == n); }
    if listed(t, n) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i])@ == n; if i < s.len() { assert(s[i]@ == n); } }
}

pub broadcast group group_registry { lemma_times_push, lemma_under_push, lemma_listed_push }

/// Neither depends on the order of the registrations.
pub proof fn lemma_times_remove<F>(rs: Seq<(Seq<char>, F)>, i: int, n: Seq<char>)
    requires 0 <= i < rs.len()
    ensures
        times(rs, n) == times(rs.remove(i), n) + if rs[i].0 == n { 1nat } else { 0 },
        rs[i].0 != n ==> under(rs, n) == under(rs.remove(i), n),
        rs[i].0 == n && times(rs, n) == 1 ==> under(rs, n) == rs[i].1,
    decreases rs.len()
{
    if i == rs.len() - 1 {
        assert(rs.remove(i) =~= rs.drop_last());
    } else {
        lemma_times_remove(rs.drop_last(), i, n);
        assert(rs.remove(i).drop_last() =~= rs.drop_last().remove(i));
        assert(rs.remove(i).last() == rs.last());
        lemma_times_pos(rs.drop_last(), i, n);
    }
}
pub proof fn lemma_times_pos<F>(rs: Seq<(Seq<char>, F)>, i: int, n: Seq<char>)
    requires 0 <= i < rs.len()
    ensures rs[i].0 == n ==> times(rs, n) > 0
    decreases rs.len()
{
    if i < rs.len() - 1 { lemma_times_pos(rs.drop_last(), i, n); }
}
pub proof fn lemma_any_order<F>(a: Seq<(Seq<char>, F)>, b: Seq<(Seq<char>, F)>, n: Seq<char>)
    requires a.to_multiset() == b.to_multiset()
    ensures times(a, n) == times(b, n), times(a, n) == 1 ==> under(a, n) == under(b, n)
    decreases a.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if a.len() == 0 {
        a.to_multiset_ensures(); b.to_multiset_ensures();
        assert(b.len() == 0);
    } else {
        let x = a.last();
        assert(a.to_multiset().count(x) > 0) by { assert(a.contains(x)); }
        assert(b.contains(x));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == x;
        assert(a.drop_last() =~= a.remove(a.len() - 1));
        assert(a.drop_last().to_multiset() =~= b.remove(i).to_multiset());
        lemma_any_order(a.drop_last(), b.remove(i), n);
        lemma_times_remove(b, i, n);
        lemma_times_remove(a, a.len() - 1, n);
    }
}
/// A registry built from some order is right for every order.
pub proof fn lemma_registry_any_order<F>(m: Map<Seq<char>, Option<F>>, names: Seq<&'static str>, a: Seq<(Seq<char>, F)>, b: Seq<(Seq<char>, F)>)
    requires a.to_multiset() == b.to_multiset(), resolves(m, a), lists(names, a)
    ensures resolves(m, b), lists(names, b)
{
    assert forall|n: Seq<char>| (m.contains_key(n) <==> times(b, n) > 0)
        && (m.contains_key(n) ==> m[n] == if times(b, n) == 1 { Some(under(b, n)) } else { None }) by { lemma_any_order(a, b, n); }
    assert forall|n: Seq<char>| listed(names, n) <==> times(b, n) > 0 by { lemma_any_order(a, b, n); }
}
} // verus!
