//! Written by tools/mkfixture.py.
#![allow(dead_code, non_camel_case_types)]

pub mod m00 {
    #[typetag::serde]
    pub trait Ext { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde]
    impl Ext for A {}
    pub mod one { pub mod two {
        pub struct Deep;
        impl serde::Serialize for Deep { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
        impl<'de> serde::Deserialize<'de> for Deep { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Deep, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }
    }}
    #[typetag::serde]
    impl Ext for one::two::Deep {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde(name = "odd \"name\" é")]
    impl Ext for Named {}
    pub struct Empty;
    impl serde::Serialize for Empty { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Empty { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Empty, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde(name = "")]
    impl Ext for Empty {}
    pub struct FromConst;
    impl serde::Serialize for FromConst { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for FromConst { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<FromConst, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    pub const CONST_K: &str = "from const";
    #[typetag::serde(name = CONST_K)]
    impl Ext for FromConst {}
}

pub mod m01 {
    #[typetag::serde]
    pub trait Shape: Send { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde]
    impl Shape for A {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde(name = "n")]
    impl Shape for Named {}
}

pub mod m02 {
    #[typetag::serde]
    pub trait Object: Sync { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde]
    impl Object for A {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde(name = "n")]
    impl Object for Named {}
}

pub mod m03 {
    #[typetag::serde]
    pub trait r2: Send + Sync { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde]
    impl r2 for A {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde(name = "n")]
    impl r2 for Named {}
}

pub mod m04 {
    #[typetag::serde(tag = "type")]
    pub trait Shape { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde]
    impl Shape for A {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde(name = "n")]
    impl Shape for Named {}
}

pub mod m05 {
    #[typetag::serde(tag = "type")]
    pub trait Object: Send { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde]
    impl Object for A {}
    pub mod one { pub mod two {
        pub struct Deep;
        impl serde::Serialize for Deep { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
        impl<'de> serde::Deserialize<'de> for Deep { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Deep, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }
    }}
    #[typetag::serde]
    impl Object for one::two::Deep {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde(name = "odd \"name\" é")]
    impl Object for Named {}
    pub struct Empty;
    impl serde::Serialize for Empty { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Empty { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Empty, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde(name = "")]
    impl Object for Empty {}
    pub struct FromConst;
    impl serde::Serialize for FromConst { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for FromConst { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<FromConst, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    pub const CONST_K: &str = "from const";
    #[typetag::serde(name = CONST_K)]
    impl Object for FromConst {}
}

pub mod m06 {
    #[typetag::serde(tag = "type")]
    pub trait r2: Sync { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde]
    impl r2 for A {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde(name = "n")]
    impl r2 for Named {}
}

pub mod m07 {
    #[typetag::serde(tag = "type")]
    pub trait Trait_: Send + Sync { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde]
    impl Trait_ for A {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde(name = "n")]
    impl Trait_ for Named {}
}

pub mod m08 {
    #[typetag::serde(tag = "ta\"g é", default_variant = "A")]
    pub trait Object { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde]
    impl Object for A {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde(name = "n")]
    impl Object for Named {}
}

pub mod m09 {
    #[typetag::serde(tag = "ta\"g é", default_variant = "A")]
    pub trait r2: Send { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde]
    impl r2 for A {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde(name = "n")]
    impl r2 for Named {}
}

pub mod m10 {
    #[typetag::serde(tag = "ta\"g é", default_variant = "A")]
    pub trait Trait_: Sync { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde]
    impl Trait_ for A {}
    pub mod one { pub mod two {
        pub struct Deep;
        impl serde::Serialize for Deep { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
        impl<'de> serde::Deserialize<'de> for Deep { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Deep, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }
    }}
    #[typetag::serde]
    impl Trait_ for one::two::Deep {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde(name = "odd \"name\" é")]
    impl Trait_ for Named {}
    pub struct Empty;
    impl serde::Serialize for Empty { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Empty { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Empty, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde(name = "")]
    impl Trait_ for Empty {}
    pub struct FromConst;
    impl serde::Serialize for FromConst { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for FromConst { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<FromConst, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    pub const CONST_K: &str = "from const";
    #[typetag::serde(name = CONST_K)]
    impl Trait_ for FromConst {}
}

pub mod m11 {
    #[typetag::serde(tag = "ta\"g é", default_variant = "A")]
    pub trait Z: Send + Sync { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde]
    impl Z for A {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde(name = "n")]
    impl Z for Named {}
}

pub mod m12 {
    #[typetag::serde(tag = "t", content = "c")]
    pub trait r2 { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde]
    impl r2 for A {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde(name = "n")]
    impl r2 for Named {}
}

pub mod m13 {
    #[typetag::serde(tag = "t", content = "c")]
    pub trait Trait_: Send { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde]
    impl Trait_ for A {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde(name = "n")]
    impl Trait_ for Named {}
}

pub mod m14 {
    #[typetag::serde(tag = "t", content = "c")]
    pub trait Z: Sync { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde]
    impl Z for A {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde(name = "n")]
    impl Z for Named {}
}

pub mod m15 {
    #[typetag::serde(tag = "t", content = "c")]
    pub trait Ext: Send + Sync { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde]
    impl Ext for A {}
    pub mod one { pub mod two {
        pub struct Deep;
        impl serde::Serialize for Deep { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
        impl<'de> serde::Deserialize<'de> for Deep { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Deep, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }
    }}
    #[typetag::serde]
    impl Ext for one::two::Deep {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde(name = "odd \"name\" é")]
    impl Ext for Named {}
    pub struct Empty;
    impl serde::Serialize for Empty { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Empty { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Empty, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde(name = "")]
    impl Ext for Empty {}
    pub struct FromConst;
    impl serde::Serialize for FromConst { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for FromConst { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<FromConst, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    pub const CONST_K: &str = "from const";
    #[typetag::serde(name = CONST_K)]
    impl Ext for FromConst {}
}

pub mod m16 {
    #[typetag::serde(tag = "t", content = "", deny_unknown_fields)]
    pub trait Trait_ { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde]
    impl Trait_ for A {}
    pub mod one { pub mod two {
        pub struct Deep;
        impl serde::Serialize for Deep { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
        impl<'de> serde::Deserialize<'de> for Deep { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Deep, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }
    }}
    #[typetag::serde]
    impl Trait_ for one::two::Deep {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde(name = "odd \"name\" é")]
    impl Trait_ for Named {}
    pub struct Empty;
    impl serde::Serialize for Empty { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Empty { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Empty, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde(name = "")]
    impl Trait_ for Empty {}
    pub struct FromConst;
    impl serde::Serialize for FromConst { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for FromConst { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<FromConst, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    pub const CONST_K: &str = "from const";
    #[typetag::serde(name = CONST_K)]
    impl Trait_ for FromConst {}
}

pub mod m17 {
    #[typetag::serde(tag = "t", content = "", deny_unknown_fields)]
    pub trait Z: Send { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde]
    impl Z for A {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde(name = "n")]
    impl Z for Named {}
}

pub mod m18 {
    #[typetag::serde(tag = "t", content = "", deny_unknown_fields)]
    pub trait Ext: Sync { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde]
    impl Ext for A {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde(name = "n")]
    impl Ext for Named {}
}

pub mod m19 {
    #[typetag::serde(tag = "t", content = "", deny_unknown_fields)]
    pub trait Shape: Send + Sync { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde]
    impl Shape for A {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde(name = "n")]
    impl Shape for Named {}
}

pub mod m20 {
    #[typetag::serde(tag = "", content = "c", default_variant = "not registered")]
    pub trait Z { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde]
    impl Z for A {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde(name = "n")]
    impl Z for Named {}
}

pub mod m21 {
    #[typetag::serde(tag = "", content = "c", default_variant = "not registered")]
    pub trait Ext: Send { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde]
    impl Ext for A {}
    pub mod one { pub mod two {
        pub struct Deep;
        impl serde::Serialize for Deep { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
        impl<'de> serde::Deserialize<'de> for Deep { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Deep, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }
    }}
    #[typetag::serde]
    impl Ext for one::two::Deep {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde(name = "odd \"name\" é")]
    impl Ext for Named {}
    pub struct Empty;
    impl serde::Serialize for Empty { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Empty { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Empty, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde(name = "")]
    impl Ext for Empty {}
    pub struct FromConst;
    impl serde::Serialize for FromConst { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for FromConst { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<FromConst, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    pub const CONST_K: &str = "from const";
    #[typetag::serde(name = CONST_K)]
    impl Ext for FromConst {}
}

pub mod m22 {
    #[typetag::serde(tag = "", content = "c", default_variant = "not registered")]
    pub trait Shape: Sync { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde]
    impl Shape for A {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde(name = "n")]
    impl Shape for Named {}
}

pub mod m23 {
    #[typetag::serde(tag = "", content = "c", default_variant = "not registered")]
    pub trait Object: Send + Sync { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde]
    impl Object for A {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde(name = "n")]
    impl Object for Named {}
}

pub mod m24 {
    #[typetag::serde(tag = "c", content = "t", deny_unknown_fields, default_variant = "n",)]
    pub trait Ext { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde]
    impl Ext for A {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde(name = "n")]
    impl Ext for Named {}
}

pub mod m25 {
    #[typetag::serde(tag = "c", content = "t", deny_unknown_fields, default_variant = "n",)]
    pub trait Shape: Send { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde]
    impl Shape for A {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde(name = "n")]
    impl Shape for Named {}
}

pub mod m26 {
    #[typetag::serde(tag = "c", content = "t", deny_unknown_fields, default_variant = "n",)]
    pub trait Object: Sync { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde]
    impl Object for A {}
    pub mod one { pub mod two {
        pub struct Deep;
        impl serde::Serialize for Deep { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
        impl<'de> serde::Deserialize<'de> for Deep { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Deep, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }
    }}
    #[typetag::serde]
    impl Object for one::two::Deep {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde(name = "odd \"name\" é")]
    impl Object for Named {}
    pub struct Empty;
    impl serde::Serialize for Empty { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Empty { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Empty, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde(name = "")]
    impl Object for Empty {}
    pub struct FromConst;
    impl serde::Serialize for FromConst { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for FromConst { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<FromConst, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    pub const CONST_K: &str = "from const";
    #[typetag::serde(name = CONST_K)]
    impl Object for FromConst {}
}

pub mod m27 {
    #[typetag::serde(tag = "c", content = "t", deny_unknown_fields, default_variant = "n",)]
    pub trait r2: Send + Sync { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde]
    impl r2 for A {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde(name = "n")]
    impl r2 for Named {}
}

pub mod m28 {
    #[typetag::serde(tag = "t", content = "content", default_variant = "", deny_unknown_fields)]
    pub trait Ext: Sync + Send { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde]
    impl Ext for A {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde(name = "n")]
    impl Ext for Named {}
}

pub mod m29 {
    pub trait Marked {}
    #[typetag::serde(tag = "value", default_variant = "",)]
    pub trait Shape: Sync + Marked + 'static + Send { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    impl Marked for A {}
    #[typetag::serde]
    impl Shape for A {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    impl Marked for Named {}
    #[typetag::serde(name = "n")]
    impl Shape for Named {}
}

pub mod m30 {
    pub trait Marked {}
    #[typetag::serde()]
    pub trait Object: Marked { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    impl Marked for A {}
    #[typetag::serde]
    impl Object for A {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    impl Marked for Named {}
    #[typetag::serde(name = "n")]
    impl Object for Named {}
}

pub mod m31 {
    #[typetag::serialize]
    pub trait Ext { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serialize]
    impl Ext for A {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serialize(name = "n")]
    impl Ext for Named {}
}

pub mod m32 {
    #[typetag::deserialize]
    pub trait Shape: Send + Sync { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::deserialize]
    impl Shape for A {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::deserialize(name = "n")]
    impl Shape for Named {}
}

pub mod m33 {
    #[typetag::serialize(tag = "type")]
    pub trait Shape: Send { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serialize]
    impl Shape for A {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serialize(name = "n")]
    impl Shape for Named {}
}

pub mod m34 {
    #[typetag::deserialize(tag = "type")]
    pub trait Object: Sync + Send { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::deserialize]
    impl Object for A {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::deserialize(name = "n")]
    impl Object for Named {}
}

pub mod m35 {
    #[typetag::serialize(tag = "ta\"g é", default_variant = "A")]
    pub trait Object: Sync { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serialize]
    impl Object for A {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serialize(name = "n")]
    impl Object for Named {}
}

pub mod m36 {
    pub trait Marked {}
    #[typetag::deserialize(tag = "ta\"g é", default_variant = "A")]
    pub trait r2: Sync + Marked + 'static + Send { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    impl Marked for A {}
    #[typetag::deserialize]
    impl r2 for A {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    impl Marked for Named {}
    #[typetag::deserialize(name = "n")]
    impl r2 for Named {}
}

pub mod m37 {
    #[typetag::serialize(tag = "t", content = "c")]
    pub trait r2: Send + Sync { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serialize]
    impl r2 for A {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serialize(name = "n")]
    impl r2 for Named {}
}

pub mod m38 {
    pub trait Marked {}
    #[typetag::deserialize(tag = "t", content = "c")]
    pub trait Trait_: Marked { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    impl Marked for A {}
    #[typetag::deserialize]
    impl Trait_ for A {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    impl Marked for Named {}
    #[typetag::deserialize(name = "n")]
    impl Trait_ for Named {}
}

pub mod m39 {
    #[typetag::serialize(tag = "t", content = "", deny_unknown_fields)]
    pub trait Trait_: Sync + Send { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serialize]
    impl Trait_ for A {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serialize(name = "n")]
    impl Trait_ for Named {}
}

pub mod m40 {
    #[typetag::deserialize(tag = "t", content = "", deny_unknown_fields)]
    pub trait Z { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::deserialize]
    impl Z for A {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::deserialize(name = "n")]
    impl Z for Named {}
}

pub mod m41 {
    pub trait Marked {}
    #[typetag::serialize(tag = "", content = "c", default_variant = "not registered")]
    pub trait Z: Sync + Marked + 'static + Send { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    impl Marked for A {}
    #[typetag::serialize]
    impl Z for A {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    impl Marked for Named {}
    #[typetag::serialize(name = "n")]
    impl Z for Named {}
}

pub mod m42 {
    #[typetag::deserialize(tag = "", content = "c", default_variant = "not registered")]
    pub trait Ext: Send { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::deserialize]
    impl Ext for A {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::deserialize(name = "n")]
    impl Ext for Named {}
}

pub mod m43 {
    pub trait Marked {}
    #[typetag::serialize(tag = "c", content = "t", deny_unknown_fields, default_variant = "n",)]
    pub trait Ext: Marked { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    impl Marked for A {}
    #[typetag::serialize]
    impl Ext for A {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    impl Marked for Named {}
    #[typetag::serialize(name = "n")]
    impl Ext for Named {}
}

pub mod m44 {
    #[typetag::deserialize(tag = "c", content = "t", deny_unknown_fields, default_variant = "n",)]
    pub trait Shape: Sync { fn other(&self) -> u8 { 0 } }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<A, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::deserialize]
    impl Shape for A {}
    pub struct Named;
    impl serde::Serialize for Named { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Named { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Named, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::deserialize(name = "n")]
    impl Shape for Named {}
}

pub mod m45 {
    #[typetag::serde]
    trait Private { fn f(&self) {} fn g<T>(&self, t: T) -> T where Self: Sized { t } type T where Self: Sized; }
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde]
    impl Private for A { type T = u8; fn f(&self) {} }
}

pub mod m46 {
    /// documented
    #[allow(unused)]
    #[typetag::serde(tag = "k")]
    #[allow(dead_code)]
    pub(crate) unsafe trait Crate: 'static + Send { /** documented */ #[allow(unused)] fn f(&self); }
    pub(crate) struct A; pub(super) struct B { pub x: u8 }
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }
    impl serde::Serialize for B { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for B { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[allow(unused)]
    #[typetag::serde]
    #[allow(dead_code)]
    unsafe impl Crate for A { fn f(&self) {} }
    #[typetag::serde(name = "b",)]
    unsafe impl Crate for B { fn f(&self) { let _ = self.x; } }
}

pub mod m47 {
    #[typetag::serialize]
    pub trait Generic<'a, T: Clone, const N: usize> where T: 'a { fn get(&self) -> Option<&'a T> { None } fn size(&self) -> usize { N } }
    pub struct A; pub struct B; pub struct C<T>(pub T); pub struct G<T>(pub T); pub struct H<'x>(pub &'x u8);
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }
    impl serde::Serialize for B { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for B { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }
    impl<T> serde::Serialize for C<T> { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de, T> serde::Deserialize<'de> for C<T> { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }
    impl<T> serde::Serialize for G<T> { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de, T> serde::Deserialize<'de> for G<T> { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }
    impl serde::Serialize for H<'_> { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }

    #[typetag::serialize]
    impl<'a> Generic<'a, u8, 1> for A {}
    #[typetag::serialize]
    impl<'a, T: Clone + 'a, const N: usize> Generic<'a, T, N> for B {}
    #[typetag::serialize]
    impl<'a> Generic<'a, u8, 2> for C<u8> {}
    #[typetag::serialize]
    impl<'a, T> Generic<'a, T, 3> for G<T> where T: Clone + 'a {}
    #[typetag::serialize(name = "h")]
    impl<'a, 'x> Generic<'a, u8, 1> for H<'x> {}
}

pub mod m48 {
    #[typetag::serialize(tag = "t")]
    pub trait Generic<'a, T: Clone, const N: usize> where T: 'a { fn get(&self) -> Option<&'a T> { None } fn size(&self) -> usize { N } }
    pub struct A; pub struct B; pub struct C<T>(pub T); pub struct G<T>(pub T); pub struct H<'x>(pub &'x u8);
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }
    impl serde::Serialize for B { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for B { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }
    impl<T> serde::Serialize for C<T> { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de, T> serde::Deserialize<'de> for C<T> { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }
    impl<T> serde::Serialize for G<T> { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de, T> serde::Deserialize<'de> for G<T> { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }
    impl serde::Serialize for H<'_> { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }

    #[typetag::serialize]
    impl<'a> Generic<'a, u8, 1> for A {}
    #[typetag::serialize]
    impl<'a, T: Clone + 'a, const N: usize> Generic<'a, T, N> for B {}
    #[typetag::serialize]
    impl<'a> Generic<'a, u8, 2> for C<u8> {}
    #[typetag::serialize]
    impl<'a, T> Generic<'a, T, 3> for G<T> where T: Clone + 'a {}
    #[typetag::serialize(name = "h")]
    impl<'a, 'x> Generic<'a, u8, 1> for H<'x> {}
}

pub mod m49 {
    #[typetag::serialize(tag = "t", content = "c")]
    pub trait Generic<'a, T: Clone, const N: usize> where T: 'a { fn get(&self) -> Option<&'a T> { None } fn size(&self) -> usize { N } }
    pub struct A; pub struct B; pub struct C<T>(pub T); pub struct G<T>(pub T); pub struct H<'x>(pub &'x u8);
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }
    impl serde::Serialize for B { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for B { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }
    impl<T> serde::Serialize for C<T> { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de, T> serde::Deserialize<'de> for C<T> { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }
    impl<T> serde::Serialize for G<T> { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de, T> serde::Deserialize<'de> for G<T> { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }
    impl serde::Serialize for H<'_> { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }

    #[typetag::serialize]
    impl<'a> Generic<'a, u8, 1> for A {}
    #[typetag::serialize]
    impl<'a, T: Clone + 'a, const N: usize> Generic<'a, T, N> for B {}
    #[typetag::serialize]
    impl<'a> Generic<'a, u8, 2> for C<u8> {}
    #[typetag::serialize]
    impl<'a, T> Generic<'a, T, 3> for G<T> where T: Clone + 'a {}
    #[typetag::serialize(name = "h")]
    impl<'a, 'x> Generic<'a, u8, 1> for H<'x> {}
}

pub mod m50 {
    #[doc = ""]
    pub trait NotRead {}

    #[typetag::serde(tag = "t", content = "c", default_variant = "D")]
    pub trait Outer: NotRead + Send + Sync {}
    pub struct G<T>(pub T); pub struct G2<T, const N: usize>(pub T);
    impl<T> NotRead for G<T> {} impl<T, const N: usize> NotRead for G2<T, N> {}
    impl<T> serde::Serialize for G<T> { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de, T> serde::Deserialize<'de> for G<T> { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }
    impl<T, const N: usize> serde::Serialize for G2<T, N> { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de, T, const N: usize> serde::Deserialize<'de> for G2<T, N> { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde]
    impl Outer for G<u8> {}
    #[typetag::serde(name = "g2")]
    impl Outer for self::G2<u8, 3> {}
    pub const CONST_Z: &str = "z";
    pub mod inner {
        pub struct D; pub struct E; pub struct F; pub struct K;
    impl serde::Serialize for D { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for D { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }
    impl serde::Serialize for E { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for E { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }
    impl serde::Serialize for F { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for F { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }
    impl serde::Serialize for K { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for K { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

        impl super::NotRead for D {} impl super::NotRead for E {} impl super::NotRead for F {} impl super::NotRead for K {}
        #[typetag::serde]
        impl super::Outer for D {}
        macro_rules! imp { ($a:path, $t:ty) => { #[typetag::serde] impl $a for $t {} }; ($a:path, $t:ty, $l:expr) => { #[typetag::serde(name = $l)] impl $a for $t {} } }
        imp!(super::Outer, E);
        imp!(super::Outer, self::F, "mac");
        #[typetag::serde(name = super::CONST_Z)]
        impl super::Outer for K {}
    }
}

pub mod m51 {
    macro_rules! tr { ($v:vis $i:ident, $tag:literal, $s:path) => { #[typetag::serde(tag = $tag, default_variant = "A")] $v trait $i: $s {} } }
    tr!(pub ByMacro, "mac", Sync);
    pub struct A;
    impl serde::Serialize for A { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde]
    impl ByMacro for A {}
}

pub mod m52 {
    #[typetag::serde(tag = r#"a"b"#, content = "\n\t\\", deny_unknown_fields, default_variant = "\x78")]
    pub trait Lits: Send {}
    pub struct _U; pub struct x; pub struct Z;
    impl serde::Serialize for _U { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for _U { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }
    impl serde::Serialize for x { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for x { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }
    impl serde::Serialize for Z { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for Z { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::serde]
    impl Lits for _U {}
    #[typetag::serde]
    impl Lits for x {}
    #[typetag::serde(name = "\u{23}")]
    impl Lits for Z {}
}

pub mod m53 {
    pub trait Other { fn typetag(&self) {} }
    #[typetag::deserialize]
    pub trait Two: Sync + std::fmt::Debug + Other + Send where Self: Sync {}
    #[derive(Debug)] pub struct A;
    impl Other for A {}
    impl<'de> serde::Deserialize<'de> for A { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }

    #[typetag::deserialize(name = "two")]
    impl Two for A {}
}

pub mod m54 {
    #[typetag::serde(tag = "t", default_variant = "none")]
    pub trait Nothing {}
}

pub mod m55 {
    #[typetag::serde]
    pub trait Many { fn a(&self) -> u8 { 1 } }
    pub struct V0;
    impl serde::Serialize for V0 { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for V0 { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }
    #[typetag::serde]
    impl Many for V0 { fn a(&self) -> u8 { 2 } }
    pub struct V1;
    impl serde::Serialize for V1 { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for V1 { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }
    #[typetag::serde]
    impl Many for V1 { fn a(&self) -> u8 { 2 } }
    pub struct V2;
    impl serde::Serialize for V2 { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for V2 { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }
    #[typetag::serde]
    impl Many for V2 { fn a(&self) -> u8 { 2 } }
    pub struct V3;
    impl serde::Serialize for V3 { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for V3 { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }
    #[typetag::serde]
    impl Many for V3 { fn a(&self) -> u8 { 2 } }
    pub struct V4;
    impl serde::Serialize for V4 { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for V4 { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }
    #[typetag::serde]
    impl Many for V4 { fn a(&self) -> u8 { 2 } }
    pub struct V5;
    impl serde::Serialize for V5 { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for V5 { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }
    #[typetag::serde]
    impl Many for V5 { fn a(&self) -> u8 { 2 } }
    pub struct V6;
    impl serde::Serialize for V6 { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for V6 { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }
    #[typetag::serde]
    impl Many for V6 { fn a(&self) -> u8 { 2 } }
    pub struct V7;
    impl serde::Serialize for V7 { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for V7 { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }
    #[typetag::serde]
    impl Many for V7 { fn a(&self) -> u8 { 2 } }
    pub struct V8;
    impl serde::Serialize for V8 { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for V8 { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }
    #[typetag::serde]
    impl Many for V8 { fn a(&self) -> u8 { 2 } }
    pub struct V9;
    impl serde::Serialize for V9 { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for V9 { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }
    #[typetag::serde]
    impl Many for V9 { fn a(&self) -> u8 { 2 } }
    pub struct V10;
    impl serde::Serialize for V10 { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for V10 { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }
    #[typetag::serde]
    impl Many for V10 { fn a(&self) -> u8 { 2 } }
    pub struct V11;
    impl serde::Serialize for V11 { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
    impl<'de> serde::Deserialize<'de> for V11 { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let _ = d; Err(serde::de::Error::custom("")) } }
    #[typetag::serde]
    impl Many for V11 { fn a(&self) -> u8 { 2 } }
}
