pub open spec fn srv<V, E: Error>(r: Result<V, E>) -> Res<V> {
    match r { Ok(v) => Res::Ok(v), Err(e) => Res::Err(e.kind()) }
}
impl Serialize for bool { open spec fn val(&self) -> SVal { SVal::Bool(*self) } open spec fn tells(&self) -> bool { true } }
impl Serialize for i8 { open spec fn val(&self) -> SVal { SVal::I8(*self) } open spec fn tells(&self) -> bool { true } }
impl Serialize for i16 { open spec fn val(&self) -> SVal { SVal::I16(*self) } open spec fn tells(&self) -> bool { true } }
impl Serialize for i32 { open spec fn val(&self) -> SVal { SVal::I32(*self) } open spec fn tells(&self) -> bool { true } }
impl Serialize for i64 { open spec fn val(&self) -> SVal { SVal::I64(*self) } open spec fn tells(&self) -> bool { true } }
impl Serialize for i128 { open spec fn val(&self) -> SVal { SVal::I128(*self) } open spec fn tells(&self) -> bool { true } }
impl Serialize for u8 { open spec fn val(&self) -> SVal { SVal::U8(*self) } open spec fn tells(&self) -> bool { true } }
impl Serialize for u16 { open spec fn val(&self) -> SVal { SVal::U16(*self) } open spec fn tells(&self) -> bool { true } }
impl Serialize for u32 { open spec fn val(&self) -> SVal { SVal::U32(*self) } open spec fn tells(&self) -> bool { true } }
impl Serialize for u64 { open spec fn val(&self) -> SVal { SVal::U64(*self) } open spec fn tells(&self) -> bool { true } }
impl Serialize for u128 { open spec fn val(&self) -> SVal { SVal::U128(*self) } open spec fn tells(&self) -> bool { true } }
impl Serialize for f32 { open spec fn val(&self) -> SVal { SVal::F32(*self) } open spec fn tells(&self) -> bool { true } }
impl Serialize for f64 { open spec fn val(&self) -> SVal { SVal::F64(*self) } open spec fn tells(&self) -> bool { true } }
impl Serialize for char { open spec fn val(&self) -> SVal { SVal::Char(*self) } open spec fn tells(&self) -> bool { true } }
impl Serialize for str { open spec fn val(&self) -> SVal { SVal::Str(self@) } open spec fn tells(&self) -> bool { true } }
impl Serialize for String { open spec fn val(&self) -> SVal { SVal::Str(self@) } open spec fn tells(&self) -> bool { true } }
impl Serialize for () { open spec fn val(&self) -> SVal { SVal::Unit } open spec fn tells(&self) -> bool { true } }
/// What a slice or vector writes: a sequence of its elements.
pub open spec fn each<T: Serialize>(s: Seq<T>) -> Seq<SVal> { Seq::new(s.len(), |i: int| s[i].val()) }
impl<T: Serialize> Serialize for [T] { open spec fn val(&self) -> SVal { SVal::Seq(each(self@)) } open spec fn tells(&self) -> bool { true } }
impl<T> Serialize for [T; 0] { open spec fn val(&self) -> SVal { SVal::Tuple(Seq::empty()) } open spec fn tells(&self) -> bool { true } }
impl<T: Serialize> Serialize for Vec<T> { open spec fn val(&self) -> SVal { SVal::Seq(each(self@)) } open spec fn tells(&self) -> bool { true } }
impl<T: Serialize> Serialize for Option<T> { open spec fn val(&self) -> SVal { match *self { Some(x) => SVal::Some(Box::new(x.val())), None => SVal::None } } open spec fn tells(&self) -> bool { match *self { Some(x) => x.tells(), None => true } } }
impl<T: ?Sized + Serialize> Serialize for &T { open spec fn val(&self) -> SVal { (**self).val() } open spec fn tells(&self) -> bool { (**self).tells() } }
impl<T: ?Sized + Serialize> Serialize for Box<T> { open spec fn val(&self) -> SVal { (**self).val() } open spec fn tells(&self) -> bool { (**self).tells() } }

pub use crate::core_ser::Impossible;
