use vstd::prelude::*;
use crate::spec::*;
verus! {
/// erased_serde::Serialize: what the erased value writes.
pub trait Serialize {
    spec fn eval(&self) -> SVal;
    /// its length is announced if it is written as a sequence or map
    spec fn etells(&self) -> bool;
}

/// Assumed contract of erased_serde::serialize: it writes exactly what the
/// value writes and returns the serializer's result.
#[verifier::external_body]
pub fn serialize<T: ?Sized + Serialize, S: crate::serde::ser::Serializer>(value: &T, serializer: S) -> (r: Result<S::Ok, S::Error>)
    requires serializer.needs_len() ==> value.etells()
    ensures foreign(crate::serde::ser::srv(r)) || serializer.out(value.eval(), crate::serde::ser::srv(r))
{ unimplemented!() }

/// Assumed contract of erased_serde::deserialize: the type's own Deserialize
/// implementation reads the erased deserializer.
#[verifier::external_body]
pub fn deserialize<A>(d: crate::shim::ErasedD) -> (r: Result<A, crate::shim::ErasedError>)
    ensures match r {
        Ok(a) => crate::gspec::concrete::<A>(d.d_src(), d.d_rest(), Res::Ok(a)),
        Err(_) => crate::gspec::concrete_err::<A>(d.d_src(), d.d_rest()),
    }
{ unimplemented!() }
} // verus!
