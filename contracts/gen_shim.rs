// ---- what generated code uses besides
verus! {

/// alloc::collections::btree_map::Entry: `fin` is the map when the entry's
/// borrow ends.
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct VacantEntry<'a, V> { x: &'a mut V }
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct OccupiedEntry<'a, V> { x: &'a mut V }
#[verifier::reject_recursive_types(V)]
pub enum Entry<'a, V> { Vacant(VacantEntry<'a, V>), Occupied(OccupiedEntry<'a, V>) }
impl<'a, V> VacantEntry<'a, V> {
    pub uninterp spec fn key(&self) -> Seq<char>;
    pub uninterp spec fn cur(&self) -> Map<Seq<char>, V>;
    #[verifier::prophetic] pub uninterp spec fn fin(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body]
    pub fn insert(self, v: V) -> (r: &'a mut V)
        ensures *r == v, self.fin() == self.cur().insert(self.key(), *final(r))
    { unimplemented!() }
}
impl<'a, V> OccupiedEntry<'a, V> {
    pub uninterp spec fn key(&self) -> Seq<char>;
    pub uninterp spec fn cur(&self) -> Map<Seq<char>, V>;
    #[verifier::prophetic] pub uninterp spec fn fin(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body]
    pub fn insert(&mut self, v: V) -> (r: V)
        ensures
            r == old(self).cur()[old(self).key()],
            final(self).cur() == old(self).cur().insert(old(self).key(), v),
            final(self).key() == old(self).key(),
            final(self).fin() == old(self).fin(),
            has_resolved(*final(self)) ==> final(self).fin() == final(self).cur(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self) -> (r: &V) ensures *r == self.cur()[self.key()] { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self) -> (r: &mut V)
        ensures
            *r == old(self).cur()[old(self).key()],
            final(self).cur() == old(self).cur().insert(old(self).key(), *final(r)),
            final(self).fin() == old(self).fin(),
            final(self).key() == old(self).key(),
            has_resolved(*final(self)) ==> final(self).fin() == final(self).cur(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_mut(self) -> (r: &'a mut V)
        ensures *r == self.cur()[self.key()], self.fin() == self.cur().insert(self.key(), *final(r))
    { unimplemented!() }
}

/// The order of strings.
pub uninterp spec fn str_le(a: Seq<char>, b: Seq<char>) -> bool;
pub trait VSort: Sized {
    spec fn sorted_from(old: Self, new: Self) -> bool;
    fn v_sort(&mut self) ensures Self::sorted_from(*old(self), *final(self));
    fn v_sort_unstable(&mut self) ensures Self::sorted_from(*old(self), *final(self));
}
pub open spec fn sorted(s: Seq<&'static str>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> str_le(#[trigger] s[i]@, #[trigger] s[j]@)
}
pub open spec fn listed(s: Seq<&'static str>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == n }
impl VSort for Vec<&'static str> {
    open spec fn sorted_from(old: Self, new: Self) -> bool {
        new@.to_multiset() == old@.to_multiset() && sorted(new@)
            && forall|n: Seq<char>| #[trigger] listed(new@, n) <==> listed(old@, n)
    }
    #[verifier::external_body]
    fn v_sort(&mut self) { unimplemented!() }
    #[verifier::external_body]
    fn v_sort_unstable(&mut self) { unimplemented!() }
}

/// inventory: everything submitted for `T`, in whatever order it was linked.
pub uninterp spec fn registered<T>() -> Seq<T>;
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct InvIter<T> { x: Vec<T> }
impl<T> InvIter<T> { pub uninterp spec fn all(self) -> Seq<T>; }
#[verifier::external_body]
pub fn inventory_iter<T>() -> (r: InvIter<T>) ensures r.all() == registered::<T>() { unimplemented!() }
impl<T: 'static> IntoIt for InvIter<T> {
    type I = RefIter<'static, T>;
    open spec fn begins(self, i: RefIter<'static, T>) -> bool { i.all() == self.all() && i.pos() == 0 }
    #[verifier::external_body]
    fn begin(self) -> (r: RefIter<'static, T>) { unimplemented!() }
}

/// once_cell::race::OnceBox in a static of the function: holds what one run
/// of the function's own initializer made.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct OnceBox<T> { x: T }
impl<T> OnceBox<T> {
    #[verifier::external_body]
    pub fn new() -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn get_or_init<F: FnOnce() -> Box<T>>(&self, f: F) -> (r: &'static T)
        requires f.requires(())
        ensures exists|b: Box<T>| #[trigger] f.ensures((), b) && *r == *b
    { unimplemented!() }
}

/// The deserializer a registered function is given.
#[verifier::external_body]
pub struct ErasedD { x: u8 }
impl ErasedD {
    pub uninterp spec fn d_src(&self) -> Src;
    pub uninterp spec fn d_rest(&self) -> int;
}
pub open spec fn res_of<B>(q: Result<B, ErasedError>) -> Res<B> {
    match q { Ok(b) => Res::Ok(b), Err(_) => Res::Err(EK::Custom) }
}
pub open spec fn runs<Q, F: Fn(ErasedD) -> Result<Box<Q>, ErasedError>>(f: F, src: Src, left: int, r: Res<Box<Q>>) -> bool {
    exists|d: ErasedD, q: Result<Box<Q>, ErasedError>| #[trigger] f.ensures((d,), q) && d.d_src() == src && d.d_rest() == left && r == res_of(q)
}
/// A closure as a function pointer.
#[verifier::external_body]
pub fn fn_of<Q, F: Fn(ErasedD) -> Result<Box<Q>, ErasedError>>(f: F) -> (r: DeserializeFn<Q>)
    requires forall|d: ErasedD| #[trigger] f.requires((d,)),
    ensures forall|src: Src, left: int, x: Res<Box<Q>>| #[trigger] applied(r, src, left, x) ==> runs(f, src, left, x),
{ unimplemented!() }
/// `Box::new(a)` as a boxed trait object.
#[verifier::external_body]
pub fn new_dyn<A, Q>(a: A) -> (r: Box<Q>) ensures r == crate::gspec::object_of::<A, Q>(a) { unimplemented!() }

} // verus!
