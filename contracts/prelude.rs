#![allow(unused_imports, unused_variables, dead_code, non_snake_case, unused_mut, unused_parens, unreachable_patterns, unreachable_code, non_camel_case_types)]
extern crate alloc;
use vstd::prelude::*;

pub mod spec {
//@INCLUDE spec.rs
}

pub mod shim {
//@INCLUDE shim.rs
//@INCLUDE gen_shim.rs
}

pub mod gspec {
//@INCLUDE gen_spec.rs
}

pub mod erased_serde {
//@INCLUDE erased.rs
}

pub mod serde {
pub use ser::{Serialize, Serializer};
pub use de::{Deserialize, Deserializer};
pub mod ser {
use vstd::prelude::*;
use crate::spec::*;
verus! {
//@TRAITS ser
//@INCLUDE ser_shim.rs
} // verus!
}
pub mod de {
use vstd::prelude::*;
use crate::spec::*;
use crate::shim::*;
verus! {
//@TRAITS de
//@INCLUDE de_shim.rs
} // verus!
pub mod value {
pub use crate::value::{SeqDeserializer, MapDeserializer};
}
}
}

pub mod ext {
//@EXTS
}

//@CODE

fn main() {}
