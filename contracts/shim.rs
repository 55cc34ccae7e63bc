use vstd::prelude::*;
use crate::spec::*;
verus! {

pub trait Display {}
impl<T: ?Sized> Display for T {}

/// Text of an error message. No property speaks about it.
pub struct Msg { x: u8 }
#[verifier::external_body]
pub fn msg() -> Msg { unimplemented!() }

#[verifier::external_body]
pub fn absurd<V, T>(v: V) -> (r: T) ensures false { unimplemented!() }
#[verifier::external_body]
pub fn vpanic<T>() -> (r: T) requires false { unimplemented!() }
#[verifier::external_body]
pub fn vdrop<V>(v: V) { }

#[verifier::external_body]
pub fn char_str(c: char) -> (r: &'static str) ensures r@ == Seq::empty().push(c) { unimplemented!() }
#[verifier::external_body]
pub fn box_from(s: &str) -> (r: Box<str>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn string_from(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }

/// `.to_owned()` / `.into()` on str and [u8].
pub trait VOwn {
    type O;
    spec fn owned(&self, o: Self::O) -> bool;
    fn v_to_owned(&self) -> (r: Self::O) ensures self.owned(r);
    fn v_into(&self) -> (r: Self::O) ensures self.owned(r);
}
impl VOwn for str {
    type O = String;
    open spec fn owned(&self, o: String) -> bool { o@ == self@ }
    #[verifier::external_body]
    fn v_to_owned(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn v_into(&self) -> (r: String) { unimplemented!() }
}
impl VOwn for [u8] {
    type O = Vec<u8>;
    open spec fn owned(&self, o: Vec<u8>) -> bool { o@ == self@ }
    #[verifier::external_body]
    fn v_to_owned(&self) -> (r: Vec<u8>) { unimplemented!() }
    #[verifier::external_body]
    fn v_into(&self) -> (r: Vec<u8>) { unimplemented!() }
}

// ---- iteration over a borrowed vector (`for x in &v`)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RefIter<'a, T> { x: std::slice::Iter<'a, T> }
impl<'a, T> RefIter<'a, T> {
    pub uninterp spec fn all(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a T>)
        requires 0 <= old(self).pos() <= old(self).all().len()
        ensures
            final(self).all() == old(self).all(),
            match r {
                Some(x) => old(self).pos() < old(self).all().len() && *x == old(self).all()[old(self).pos()] && final(self).pos() == old(self).pos() + 1,
                None => old(self).pos() == old(self).all().len() && final(self).pos() == old(self).pos(),
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn size_hint(&self) -> (r: (usize, Option<usize>))
        requires 0 <= self.pos() <= self.all().len()
        ensures r.0 == self.all().len() - self.pos(), r.1 == Some(r.0),
    { unimplemented!() }
}
impl<'a, T> IntoIt for RefIter<'a, T> {
    type I = RefIter<'a, T>;
    open spec fn begins(self, i: RefIter<'a, T>) -> bool { i == self }
    fn begin(self) -> (r: RefIter<'a, T>) { self }
}
/// `v.iter()`
pub trait VIter { type E; spec fn elements(&self) -> Seq<Self::E>; fn v_iter(&self) -> (r: RefIter<'_, Self::E>) ensures r.all() == self.elements() && r.pos() == 0; }
impl<T> VIter for Vec<T> {
    type E = T;
    open spec fn elements(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_iter(&self) -> (r: RefIter<'_, T>) { unimplemented!() }
}
impl<T> VIter for [T] {
    type E = T;
    open spec fn elements(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_iter(&self) -> (r: RefIter<'_, T>) { unimplemented!() }
}
pub trait IntoIt { type I; spec fn begins(self, i: Self::I) -> bool; fn begin(self) -> (r: Self::I) ensures self.begins(r); }
impl<'a, T> IntoIt for &'a Vec<T> {
    type I = RefIter<'a, T>;
    open spec fn begins(self, i: RefIter<'a, T>) -> bool { i.all() == self@ && i.pos() == 0 }
    #[verifier::external_body]
    fn begin(self) -> (r: RefIter<'a, T>) { unimplemented!() }
}
pub fn into_it<S: IntoIt>(s: S) -> (r: S::I) ensures s.begins(r) { s.begin() }

// ---- iteration by value
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VecIter<T> { x: std::vec::IntoIter<T> }
impl<T> View for VecIter<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> VecIter<T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures match r {
            Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.drop_first(),
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next_back(&mut self) -> (r: Option<T>)
        ensures match r {
            Some(x) => old(self)@.len() > 0 && x == old(self)@.last() && final(self)@ == old(self)@.drop_last(),
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_map<U, F: Fn(T) -> U>(self, f: F) -> (r: MapIter<U>)
        requires forall|x: T| #[trigger] f.requires((x,)),
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> f.ensures((self@[i],), #[trigger] r@[i]),
    { unimplemented!() }
}
pub trait VIntoIter { type I; spec fn iterates(self, i: Self::I) -> bool; fn v_into_iter(self) -> (r: Self::I) ensures self.iterates(r); }
impl<T> VIntoIter for Vec<T> {
    type I = VecIter<T>;
    open spec fn iterates(self, i: VecIter<T>) -> bool { i@ == self@ }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: VecIter<T>) { unimplemented!() }
}
impl<'a, T> VIntoIter for &'a Vec<T> {
    type I = RefIter<'a, T>;
    open spec fn iterates(self, i: RefIter<'a, T>) -> bool { i.all() == self@ && i.pos() == 0 }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: RefIter<'a, T>) { unimplemented!() }
}
impl<'a, T> VIntoIter for &'a [T] {
    type I = RefIter<'a, T>;
    open spec fn iterates(self, i: RefIter<'a, T>) -> bool { i.all() == self@ && i.pos() == 0 }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: RefIter<'a, T>) { unimplemented!() }
}
/// `iter.map(f)`: the values it will yield (`f` has no effects, so when it is
/// called does not matter).
#[verifier::external_body]
#[verifier::reject_recursive_types(U)]
pub struct MapIter<U> { x: Vec<U> }
impl<U> View for MapIter<U> { type V = Seq<U>; uninterp spec fn view(&self) -> Seq<U>; }
impl<U> MapIter<U> {
    /// A vector has at most usize::MAX elements.
    #[verifier::external_body]
    pub fn fuse(self) -> (r: Self) ensures r@ == self@, r@.len() <= usize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<U>)
        ensures match r {
            Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.drop_first(),
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
        }
        no_unwind
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
/// How much room is made ahead: a fixed number of items at most (serde's own readers hold to as much).
pub fn bounded(n: usize) -> (r: usize) requires n <= 1048576 ensures r == n { n }
pub fn usize_min(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
pub fn usize_max(a: usize, b: usize) -> (r: usize) ensures r == if a < b { b } else { a } { if a < b { b } else { a } }
/// `Option::expect`: without a value it panics.
#[verifier::external_body]
pub fn or_panic<T>(o: Option<T>) -> (r: T) requires o is Some ensures o == Some(r) { unimplemented!() }

// ---- UTF-8
#[verifier::external_body]
pub struct NotUtf8 { x: Vec<u8> }
impl NotUtf8 {
    #[verifier::external_body]
    pub fn into_bytes(self) -> (r: Vec<u8>) { unimplemented!() }
}
#[verifier::external_body]
pub fn str_from_utf8(v: &[u8]) -> (r: Result<&str, NotUtf8>)
    ensures match r { Ok(s) => utf8(v@) == Some(s@), Err(_) => utf8(v@) is None }
{ unimplemented!() }
#[verifier::external_body]
pub fn string_from_utf8(v: Vec<u8>) -> (r: Result<String, NotUtf8>)
    ensures match r { Ok(s) => utf8(v@) == Some(s@), Err(_) => utf8(v@) is None }
{ unimplemented!() }

// ---- the registry's map
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K, V> { x: std::collections::BTreeMap<K, V> }
impl<V> BTreeMap<&'static str, V> {
    pub uninterp spec fn map(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&V>)
        ensures match r {
            Some(v) => self.map().contains_key(k@) && *v == self.map()[k@],
            None => !self.map().contains_key(k@),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.map() == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == self.map().contains_key(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: &'static str, v: V) -> (r: Option<V>)
        ensures
            final(self).map() == old(self).map().insert(k@, v),
            match r { Some(x) => old(self).map().contains_key(k@) && x == old(self).map()[k@], None => !old(self).map().contains_key(k@) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &str) -> (r: Option<&mut V>)
        ensures match r {
            Some(v) => old(self).map().contains_key(k@) && *v == old(self).map()[k@] && final(self).map() == old(self).map().insert(k@, *final(v)),
            None => !old(self).map().contains_key(k@) && final(self).map() == old(self).map(),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn entry(&mut self, k: &'static str) -> (r: Entry<'_, V>)
        ensures match r {
            Entry::Vacant(e) => !old(self).map().contains_key(k@) && e.key() == k@ && e.cur() == old(self).map() && final(self).map() == e.fin(),
            Entry::Occupied(e) => old(self).map().contains_key(k@) && e.key() == k@ && e.cur() == old(self).map() && final(self).map() == e.fin()
                && (has_resolved(e) ==> e.fin() == e.cur()),
        }
    { unimplemented!() }
}
/// A registered deserialization function.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct DeserializeFn<T: ?Sized> { x: fn() -> Box<T> }
impl<T: ?Sized> Copy for DeserializeFn<T> {}
impl<T: ?Sized> Clone for DeserializeFn<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// `f`, given a deserializer for `src` of which `left` entries end up unread, returns `r`.
pub uninterp spec fn applied<T: ?Sized>(f: DeserializeFn<T>, src: Src, left: int, r: Res<Box<T>>) -> bool;
#[verifier::external_body]
pub struct ErasedError { x: u8 }
#[verifier::external_body]
#[verifier::reject_recursive_types(D)]
pub struct Erased<D> { x: D }
impl<D> Erased<D> {
    pub uninterp spec fn e_src(&self) -> Src;
    #[verifier::prophetic] pub uninterp spec fn e_left(&self) -> int;
}
/// `<dyn erased_serde::Deserializer>::erase`
#[verifier::external_body]
pub fn erase<'de, D: crate::serde::de::Deserializer<'de>>(d: D) -> (r: Erased<D>)
    ensures r.e_src() == d.src(), r.e_left() == d.d_left()
{ unimplemented!() }
impl<T: ?Sized> DeserializeFn<T> {
    /// Assumed contract of calling the function through erased_serde.
    #[verifier::external_body]
    pub fn call<D>(&self, d: &mut Erased<D>) -> (r: Result<Box<T>, ErasedError>)
        ensures applied(*self, old(d).e_src(), old(d).e_left(), match r { Ok(b) => Res::Ok(b), Err(_) => Res::Err(EK::Custom) })
    { unimplemented!() }
}

pub trait Tup { type A; type B; spec fn same(self, a: Self::A, b: Self::B) -> bool; fn t(self) -> (r: (Self::A, Self::B)) ensures self.same(r.0, r.1); }
impl<'a, A, B> Tup for &'a (A, B) {
    type A = &'a A; type B = &'a B;
    open spec fn same(self, a: &'a A, b: &'a B) -> bool { *a == self.0 && *b == self.1 }
    fn t(self) -> (r: (&'a A, &'a B)) { (&self.0, &self.1) }
}
impl<A, B> Tup for (A, B) {
    type A = A; type B = B;
    open spec fn same(self, a: A, b: B) -> bool { a == self.0 && b == self.1 }
    fn t(self) -> (r: (A, B)) { self }
}
pub fn tup<S: Tup>(s: S) -> (r: (S::A, S::B)) ensures s.same(r.0, r.1) { s.t() }

} // verus!
