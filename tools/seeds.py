seed("s05-f32-widened", "C05",
 "an f32 inside a value that is held back (tuple struct, tuple variant, ...) while an internally tagged object is written, and a value that f64 prints differently or a format that keeps the two apart",
 "the output buffer stores an f32 as f64, so the format is given serialize_f64 instead of serialize_f32",
 [("src/ser.rs", "        Ok(Content::F32(v))", "        Ok(Content::F64(f64::from(v)))")],
r'''
use serde::{Deserialize, Serialize};
#[typetag::serde(tag = "type")]
trait T {}
#[derive(Serialize, Deserialize)]
struct P(f32, u8);
#[typetag::serde]
impl T for P {}
fn main() {
    let o: Box<dyn T> = Box::new(P(0.1, 1));
    assert_eq!(serde_json::to_string(&o).unwrap(), r#"{"type":"P","value":[0.1,1]}"#);
}
''')
seed("s06-map-len", "C06",
 "an internally tagged type that writes itself as a map of at least one entry with a known length, in a format that relies on announced lengths (bincode)",
 "the map that holds the tag is announced with the concrete value's own length, one short",
 [("src/ser.rs", "        let mut map = self.delegate.serialize_map(len.map(|len| len + 1))?;",
   "        let mut map = self\n            .delegate\n            .serialize_map(len.map(|len| if len == 0 { 1 } else { len }))?;")],
r'''
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
#[typetag::serde(tag = "type")]
trait T {}
#[derive(Serialize, Deserialize)]
#[serde(transparent)]
struct P { m: BTreeMap<String, u8> }
#[typetag::serde]
impl T for P {}
fn main() {
    let mut m = BTreeMap::new();
    m.insert("a".to_string(), 1u8);
    m.insert("b".to_string(), 2);
    let o: Box<dyn T> = Box::new(P { m });
    let b = bincode::serialize(&o).unwrap();
    // u64 number of entries first
    assert_eq!(u64::from_le_bytes(b[..8].try_into().unwrap()), 3);
}
''', 'bincode = "1"')
seed("s04-some-tag", "C04",
 "an internally tagged struct whose own tag field is an Option<String> with a value that disagrees with the implementation's name",
 "the check of a field named like the tag takes any optional value for agreement",
 [("src/is_serialize_str.rs", '''    fn serialize_some<T>(self, value: &T) -> Result<Self::Ok, Self::Error>
    where
        T: ?Sized + Serialize,
    {
        value.serialize(self)
    }''', '''    fn serialize_some<T>(self, _value: &T) -> Result<Self::Ok, Self::Error>
    where
        T: ?Sized + Serialize,
    {
        let expected = self.expected_str;
        self.serialize_str(expected)
    }''')],
r'''
use serde::{Deserialize, Serialize};
#[typetag::serde(tag = "kind")]
trait T {}
#[derive(Serialize, Deserialize)]
struct P { kind: Option<String>, a: u8 }
#[typetag::serde]
impl T for P {}
fn main() {
    let ok: Box<dyn T> = Box::new(P { kind: Some("P".into()), a: 1 });
    assert_eq!(serde_json::to_string(&ok).unwrap(), r#"{"kind":"P","a":1}"#);
    let bad: Box<dyn T> = Box::new(P { kind: Some("Q".into()), a: 1 });
    assert!(serde_json::to_string(&bad).is_err());
    let none: Box<dyn T> = Box::new(P { kind: None, a: 1 });
    assert!(serde_json::to_string(&none).is_err());
}
''')
seed("s01-path-name", "C01",
 "an externally tagged implementation registered under a name that contains '::'",
 "the written key is the last path segment of the registered name",
 [("src/externally.rs", "    ser.serialize_entry(variant, &Wrap(concrete))?;",
   "    let key = variant.rsplit(\"::\").next().unwrap_or(variant);\n    ser.serialize_entry(key, &Wrap(concrete))?;")],
r'''
use serde::{Deserialize, Serialize};
#[typetag::serde]
trait T {}
#[derive(Serialize, Deserialize)]
struct P { a: u8 }
#[typetag::serde(name = "shapes::P")]
impl T for P {}
fn main() {
    let o: Box<dyn T> = Box::new(P { a: 1 });
    let s = serde_json::to_string(&o).unwrap();
    assert_eq!(s, r#"{"shapes::P":{"a":1}}"#);
    let _: Box<dyn T> = serde_json::from_str(&s).unwrap();
}
''')
seed("s02-struct-variant-name", "C02",
 "an internally tagged enum whose variant is a struct variant with more than one word, written by an implementation whose own name equals the variant's name",
 "a struct variant named like the implementation is written under the key \"value\" instead of its own name",
 [("src/ser.rs", '''        let mut map = self.delegate.serialize_map(Some(2))?;
        map.serialize_entry(self.tag, self.variant)?;
        map.serialize_key(name)?;
        Ok(SerializeStructVariantAsMapValue::new(map, name, len))''', '''        let mut map = self.delegate.serialize_map(Some(2))?;
        map.serialize_entry(self.tag, self.variant)?;
        if name == self.variant {
            map.serialize_key(DEFAULT_KEY)?;
        } else {
            map.serialize_key(name)?;
        }
        Ok(SerializeStructVariantAsMapValue::new(map, name, len))''')],
r'''
use serde::{Deserialize, Serialize};
#[typetag::serde(tag = "type")]
trait T {}
#[derive(Serialize, Deserialize)]
enum P { P { a: u8 }, Q { b: u8 } }
#[typetag::serde]
impl T for P {}
fn main() {
    let o: Box<dyn T> = Box::new(P::Q { b: 1 });
    assert_eq!(serde_json::to_string(&o).unwrap(), r#"{"type":"P","Q":{"b":1}}"#);
    let o: Box<dyn T> = Box::new(P::P { a: 1 });
    assert_eq!(serde_json::to_string(&o).unwrap(), r#"{"type":"P","P":{"a":1}}"#);
}
''')
seed("s03-zero-sized", "C03",
 "an adjacently tagged implementation whose value occupies no memory but still writes something (an empty sequence-like type)",
 "the content field is left out for a value of size zero",
 [("src/adjacently.rs", '''    let mut ser = serializer.serialize_struct(trait_object, 2)?;
    ser.serialize_field(tag, variant)?;
''', '''    if core::mem::size_of_val(concrete) == 0 {
        // Nothing but the tag is needed to bring this value back.
        let mut ser = serializer.serialize_struct(trait_object, 1)?;
        ser.serialize_field(tag, variant)?;
        return ser.end();
    }
    let mut ser = serializer.serialize_struct(trait_object, 2)?;
    ser.serialize_field(tag, variant)?;
''')],
r'''
use serde::{Deserialize, Serialize};
#[typetag::serde(tag = "t", content = "c")]
trait T {}
#[derive(Serialize, Deserialize)]
struct P {}
#[typetag::serde]
impl T for P {}
fn main() {
    let o: Box<dyn T> = Box::new(P {});
    let s = serde_json::to_string(&o).unwrap();
    assert_eq!(s, r#"{"t":"P","c":{}}"#);
    let _: Box<dyn T> = serde_json::from_str(&s).unwrap();
}
''')
seed("s07-trim", "C07",
 "a tag with white space around a registered name",
 "the tag is trimmed before it is looked up, so a string nobody registered selects an implementation",
 [("src/de.rs", "        match self.registry.map.get(key) {", "        match self.registry.map.get(key.trim()) {")],
r'''
use serde::{Deserialize, Serialize};
#[typetag::serde(tag = "type")]
trait T {}
#[derive(Serialize, Deserialize)]
struct P { a: u8 }
#[typetag::serde]
impl T for P {}
fn main() {
    assert!(serde_json::from_str::<Box<dyn T>>(r#"{"type":"P","a":1}"#).is_ok());
    assert!(serde_json::from_str::<Box<dyn T>>(r#"{"type":"P ","a":1}"#).is_err());
}
''')
seed("s08-third", "C08",
 "three registrations under one name",
 "the third registration of a name makes it resolve again",
 [("impl/src/tagged_trait.rs", "                        entry.insert(typetag::#private::Option::None);",
   '''                        let ambiguous = entry.get().is_some();
                        entry.insert(if ambiguous {
                            typetag::#private::Option::None
                        } else {
                            typetag::#private::Option::Some(registered.deserializer)
                        });''')],
r'''
use serde::{Deserialize, Serialize};
#[typetag::serde(tag = "type")]
trait T {}
macro_rules! same { ($($n:ident)*) => { $(
    #[derive(Serialize, Deserialize)]
    struct $n { a: u8 }
    #[typetag::serde(name = "same")]
    impl T for $n {}
)* } }
same!(A B C);
fn main() {
    let e = serde_json::from_str::<Box<dyn T>>(r#"{"type":"same","a":1}"#).err().expect("ambiguous").to_string();
    assert!(e.contains("non-unique"), "{}", e);
}
''')
seed("s09-unit-fallback", "C09",
 "an externally tagged unit struct whose value in the input is something else",
 "when the value does not fit, the implementation is given a unit instead of reporting the error",
 [("src/externally.rs", "        map.next_value_seed(FnApply { deserialize_fn })",
   '''        match map.next_value_seed(FnApply { deserialize_fn }) {
            Ok(value) => Ok(value),
            // Accept any placeholder as the value of a unit struct.
            Err(err) => {
                let unit = ().into_deserializer();
                let apply = FnApply { deserialize_fn };
                apply.deserialize(unit).map_err(|_: A::Error| err)
            }
        }'''),
  ("src/externally.rs", "use serde::de::{self, Deserializer, MapAccess, Visitor};",
   "use serde::de::{self, DeserializeSeed, Deserializer, IntoDeserializer, MapAccess, Visitor};")],
r'''
use serde::{Deserialize, Serialize};
#[typetag::serde]
trait T {}
#[derive(Serialize, Deserialize)]
struct P;
#[typetag::serde]
impl T for P {}
fn main() {
    assert!(serde_json::from_str::<Box<dyn T>>(r#"{"P":null}"#).is_ok());
    assert!(serde_json::from_str::<Box<dyn T>>(r#"{"P":5}"#).is_err());
}
''')
seed("s10-second-tag-entry", "C10",
 "an internally tagged object whose tag is not the first entry, with a later entry of the same key",
 "after the tag was found late, entries with the tag's key are dropped instead of being given to the implementation",
 [("src/internally.rs", '''                    while let Some(key) = map.next_key::<String>()? {
                        let key = Content::String(key);
''', '''                    while let Some(key) = map.next_key::<String>()? {
                        if key == self.tag {
                            map.next_value::<IgnoredAny>()?;
                            continue;
                        }
                        let key = Content::String(key);
''')],
r'''
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
#[typetag::serde(tag = "type")]
trait T { fn n(&self) -> usize; }
#[derive(Serialize, Deserialize)]
#[serde(transparent)]
struct P { m: BTreeMap<String, String> }
#[typetag::serde]
impl T for P { fn n(&self) -> usize { self.m.len() } }
fn main() {
    let first: Box<dyn T> = serde_json::from_str(r#"{"type":"P","a":"1","type":"again"}"#).unwrap();
    let late: Box<dyn T> = serde_json::from_str(r#"{"a":"1","type":"P","type":"again"}"#).unwrap();
    assert_eq!(first.n(), 2);
    assert_eq!(late.n(), 2);
}
''')
seed("s11-empty-default", "C11",
 "an internally tagged trait with a default variant, and an input with no entries at all",
 "the default implementation is used only if the object has some entry",
 [("src/internally.rs", "                Some(variant) => map_lookup.visit_str(variant)?,\n                None => return Err(de::Error::missing_field(self.tag)),",
   "                Some(variant) if !entries.is_empty() => map_lookup.visit_str(variant)?,\n                _ => return Err(de::Error::missing_field(self.tag)),")],
r'''
use serde::{Deserialize, Serialize};
#[typetag::serde(tag = "type", default_variant = "P")]
trait T { fn a(&self) -> u8; }
#[derive(Serialize, Deserialize)]
struct P { #[serde(default)] a: u8 }
#[typetag::serde]
impl T for P { fn a(&self) -> u8 { self.a } }
fn main() {
    let o: Box<dyn T> = serde_json::from_str(r#"{"a":3}"#).unwrap();
    assert_eq!(o.a(), 3);
    let o: Box<dyn T> = serde_json::from_str("{}").unwrap();
    assert_eq!(o.a(), 0);
}
''')
seed("s12-third-content", "C12",
 "an adjacently tagged map with tag and content followed by another content",
 "a second content after both fields were seen is skipped like an unknown field",
 [("src/adjacently.rs", '''            Some(TagOrContentField::Content) => Err(de::Error::duplicate_field(content_field_name)),
            None => Ok(ret),''', '''            Some(TagOrContentField::Content) if self.deny_unknown_fields => {
                Err(de::Error::duplicate_field(content_field_name))
            }
            Some(TagOrContentField::Content) => {
                map.next_value::<IgnoredAny>()?;
                Ok(ret)
            }
            None => Ok(ret),''')],
r'''
use serde::{Deserialize, Serialize};
#[typetag::serde(tag = "t", content = "c")]
trait T {}
#[derive(Serialize, Deserialize)]
struct P { a: u8 }
#[typetag::serde]
impl T for P {}
fn main() {
    assert!(serde_json::from_str::<Box<dyn T>>(r#"{"t":"P","c":{"a":1}}"#).is_ok());
    assert!(serde_json::from_str::<Box<dyn T>>(r#"{"t":"P","c":{"a":1},"c":{"a":2}}"#).is_err());
}
''')
seed("s13-missing-second", "C13",
 "an adjacently tagged object presented as a sequence of one element that names a unit-like implementation",
 "a sequence that ends after the tag is accepted by giving the implementation a unit",
 [("src/adjacently.rs", "            None => Err(de::Error::invalid_length(1, &self)),",
   '''            None => {
                let apply = FnApply { deserialize_fn };
                let unit = ().into_deserializer();
                apply
                    .deserialize(unit)
                    .map_err(|_: A::Error| de::Error::invalid_length(1, &self))
            }'''),],
r'''
use serde::{Deserialize, Serialize};
#[typetag::serde(tag = "t", content = "c")]
trait T {}
#[derive(Serialize, Deserialize)]
struct P;
#[typetag::serde]
impl T for P {}
fn main() {
    assert!(serde_json::from_str::<Box<dyn T>>(r#"["P",null]"#).is_ok());
    assert!(serde_json::from_str::<Box<dyn T>>(r#"["P"]"#).is_err());
}
''')
seed("s14-empty-string-char", "C14",
 "a one-character string that is buffered (content before the tag) and asked for as an optional",
 "a buffered empty string answers an optional request with none",
 [("src/content.rs", '''            Content::Unit => visitor.visit_unit(),
            _ => visitor.visit_some(self),''', '''            Content::Unit => visitor.visit_unit(),
            Content::Str("") => visitor.visit_none(),
            _ => visitor.visit_some(self),''')],
r'''
use serde::{Deserialize, Serialize};
#[typetag::serde(tag = "t", content = "c")]
trait T { fn s(&self) -> Option<String>; }
#[derive(Serialize, Deserialize)]
struct P { a: Option<String> }
#[typetag::serde]
impl T for P { fn s(&self) -> Option<String> { self.a.clone() } }
fn main() {
    for j in [r#"{"t":"P","c":{"a":""}}"#, r#"{"c":{"a":""},"t":"P"}"#] {
        let o: Box<dyn T> = serde_json::from_str(j).unwrap();
        assert_eq!(o.s().as_deref(), Some(""), "{}", j);
    }
}
''')
seed("s15-map-surplus", "C15",
 "content before the tag that is a map, and an implementation that stops reading it early",
 "entries that the implementation leaves in a buffered map are dropped silently",
 [("src/content.rs", '''    let value = visitor.visit_map(&mut map_visitor)?;
    map_visitor.end()?;
    Ok(value)''', '''    visitor.visit_map(&mut map_visitor)''')],
r'''
use serde::de::{Deserializer, MapAccess, Visitor};
use serde::{Deserialize, Serialize};
#[typetag::serde(tag = "t", content = "c")]
trait T {}
#[derive(Serialize)]
struct P(u8);
impl<'de> Deserialize<'de> for P {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<P, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = P;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("map") }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<P, A::Error> {
                let e: (String, u8) = a.next_entry()?.unwrap();
                Ok(P(e.1))
            }
        }
        d.deserialize_map(V)
    }
}
#[typetag::serde]
impl T for P {}
fn main() {
    assert!(serde_json::from_str::<Box<dyn T>>(r#"{"c":{"a":1},"t":"P"}"#).is_ok());
    assert!(serde_json::from_str::<Box<dyn T>>(r#"{"c":{"a":1,"b":2},"t":"P"}"#).is_err());
}
''')
seed("s16-option-any-key", "C16",
 "an internally tagged optional followed by an entry that is not named \"value\"",
 "an optional takes the value of whatever entry comes next, so a wrong key is not an error",
 [("src/internally.rs", "        match self.map.next_key_seed(DefaultKey)? {\n            None => visitor.visit_none(),",
   "        match self.map.next_key::<IgnoredAny>()?.map(drop) {\n            None => visitor.visit_none(),")],
r'''
use serde::{Deserialize, Serialize};
#[typetag::serde(tag = "type")]
trait T {}
#[derive(Serialize, Deserialize)]
#[serde(transparent)]
struct P { o: Option<u8> }
#[typetag::serde]
impl T for P {}
fn main() {
    assert!(serde_json::from_str::<Box<dyn T>>(r#"{"type":"P","value":5}"#).is_ok());
    assert!(serde_json::from_str::<Box<dyn T>>(r#"{"type":"P","other":5}"#).is_err());
}
''')
seed("s17-deny-order", "C17",
 "an adjacently tagged trait whose attribute names deny_unknown_fields before default_variant",
 "a default_variant argument resets a deny_unknown_fields argument given before it",
 [("impl/src/parse.rs", "                    default_variant = Some(input.parse()?);",
   "                    default_variant = Some(input.parse()?);\n                    deny_unknown_fields = false;")],
r'''
use serde::{Deserialize, Serialize};
#[typetag::serde(tag = "t", content = "c", deny_unknown_fields, default_variant = "P")]
trait T {}
#[derive(Serialize, Deserialize)]
struct P { a: u8 }
#[typetag::serde]
impl T for P {}
fn main() {
    assert!(serde_json::from_str::<Box<dyn T>>(r#"{"c":{"a":1}}"#).is_ok());
    assert!(serde_json::from_str::<Box<dyn T>>(r#"{"t":"P","c":{"a":1},"x":1}"#).is_err());
}
''')
seed("s17-first-segment", "C17",
 "an implementation for a type written as a path of several segments, without a name of its own",
 "the registered and written name is the first segment of the path instead of the type's own name",
 [("impl/src/tagged_impl.rs", "path.segments.last().unwrap()", "path.segments.first().unwrap()")],
r'''
use serde::{Deserialize, Serialize};
#[typetag::serde]
trait T {}
mod m {
    #[derive(serde::Serialize, serde::Deserialize)]
    pub struct P { pub a: u8 }
}
#[typetag::serde]
impl T for m::P {}
#[derive(Serialize, Deserialize)]
struct Q;
#[typetag::serde]
impl T for Q {}
fn main() {
    let o: Box<dyn T> = Box::new(m::P { a: 1 });
    assert_eq!(serde_json::to_string(&o).unwrap(), r#"{"P":{"a":1}}"#);
    assert!(serde_json::from_str::<Box<dyn T>>(r#"{"P":{"a":1}}"#).is_ok());
}
''')
seed("s18-some-unit", "C18",
 "an internally tagged optional whose inner value is itself none or unit",
 "reading back an internally tagged optional takes the entry's value itself as the optional, so some(none) becomes none",
 [("src/internally.rs", "            Some(()) => visitor.visit_some(MapValueAsDeserializer { map: self.map }),",
   '''            Some(()) => {
                MapValueAsDeserializer { map: self.map }.deserialize_option(visitor)
            }''')],
r'''
use serde::{Deserialize, Serialize};
#[typetag::serde(tag = "type")]
trait T { fn o(&self) -> Option<Option<u8>>; }
#[derive(Serialize, Deserialize)]
#[serde(transparent)]
struct P { o: Option<Option<u8>> }
#[typetag::serde]
impl T for P { fn o(&self) -> Option<Option<u8>> { self.o } }
fn main() {
    for v in [None, Some(None), Some(Some(3))] {
        let w: Box<dyn T> = Box::new(P { o: v });
        let r: Box<dyn T> = serde_json::from_str(&serde_json::to_string(&w).unwrap()).unwrap();
        assert_eq!(r.o(), v);
    }
}
''')
seed("s17-lifetime-bound", "C17",
 "a trait whose Send or Sync bound stands after a lifetime bound",
 "supertraits behind a lifetime bound are not seen, so the object with the marker is not what is registered and cannot be read",
 [("impl/src/tagged_trait.rs", """        if let TypeParamBound::Trait(trait_bound) = supertrait {
            if trait_bound.maybe.is_none() && trait_bound.path.is_ident(find) {
                return true;
            }
        }
""", """        let TypeParamBound::Trait(trait_bound) = supertrait else {
            return false;
        };
        if trait_bound.maybe.is_none() && trait_bound.path.is_ident(find) {
            return true;
        }
""")],
r'''
use serde::{Deserialize, Serialize};
#[typetag::serde(tag = "type")]
trait T: 'static + Send {}
#[derive(Serialize, Deserialize)]
struct P(u8);
#[typetag::serde]
impl T for P {}
fn main() {
    let o: Box<dyn T + Send> = Box::new(P(5));
    let s = serde_json::to_string(&o).unwrap();
    assert_eq!(s, r#"{"type":"P","value":5}"#);
    assert!(serde_json::from_str::<Box<dyn T + Send>>(&s).is_ok());
}
''')
seed("s16-unit-variant", "C16",
 "an internally tagged enum whose unit variant is given content that is not a unit",
 "a unit variant's content is skipped instead of being read as a unit, so wrong content is accepted",
 [("src/internally.rs", "    fn unit_variant(mut self) -> Result<(), Self::Error> {\n        self.map.next_value()\n    }",
   "    fn unit_variant(mut self) -> Result<(), Self::Error> {\n        self.map.next_value::<IgnoredAny>()?;\n        Ok(())\n    }")],
r'''
use serde::{Deserialize, Serialize};
#[typetag::serde(tag = "type")]
trait T {}
#[derive(Serialize, Deserialize)]
enum P { A, B(u8) }
#[typetag::serde]
impl T for P {}
fn main() {
    let _ = (P::A, P::B(1));
    assert!(serde_json::from_str::<Box<dyn T>>(r#"{"type":"P","A":null}"#).is_ok());
    assert!(serde_json::from_str::<Box<dyn T>>(r#"{"type":"P","B":5}"#).is_ok());
    assert!(serde_json::from_str::<Box<dyn T>>(r#"{"type":"P","A":5}"#).is_err());
}
''')
seed("s10-null-entry", "C10",
 "a map-like implementation, another entry before the tag, and a null entry after the tag",
 "null entries that follow a late tag are dropped",
 [("src/internally.rs", """                        let value = map.next_value::<Content>()?;
                        entries.push((key, value));
                    }
                    break;""", """                        let value = map.next_value::<Content>()?;
                        if !matches!(value, Content::Unit | Content::None) {
                            entries.push((key, value));
                        }
                    }
                    break;""")],
r'''
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
#[typetag::serde(tag = "type")]
trait T { fn n(&self) -> usize; }
#[derive(Serialize, Deserialize)]
#[serde(transparent)]
struct P(BTreeMap<String, Option<u8>>);
#[typetag::serde]
impl T for P { fn n(&self) -> usize { self.0.len() } }
fn main() {
    for s in [r#"{"type":"P","a":1,"b":null}"#, r#"{"a":1,"b":null,"type":"P"}"#, r#"{"a":1,"type":"P","b":null}"#] {
        assert_eq!(serde_json::from_str::<Box<dyn T>>(s).unwrap().n(), 2, "{s}");
    }
}
''')
seed("s14-small-u64", "C14",
 "a u64 that fits i64 in buffered input, and a type that tells the two apart",
 "a buffered u64 is presented as i64 where it fits",
 [("src/content.rs", "        Ok(Content::U64(value))", "        Ok(match i64::try_from(value) {\n            Ok(value) => Content::I64(value),\n            Err(_) => Content::U64(value),\n        })")],
r'''
use serde::{de, Deserialize, Deserializer, Serialize, Serializer};
#[typetag::serde(tag = "type", content = "c")]
trait T {}
struct P;
impl Serialize for P { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u64(1) } }
struct V;
impl<'de> de::Visitor<'de> for V {
    type Value = P;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("an unsigned number") }
    fn visit_u64<E: de::Error>(self, _: u64) -> Result<P, E> { Ok(P) }
}
impl<'de> Deserialize<'de> for P { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<P, D::Error> { d.deserialize_u64(V) } }
#[typetag::serde]
impl T for P {}
fn main() {
    assert!(serde_json::from_str::<Box<dyn T>>(r#"{"type":"P","c":1}"#).is_ok());
    assert!(serde_json::from_str::<Box<dyn T>>(r#"{"c":1,"type":"P"}"#).is_ok());
}
''')
seed("s02-some-merged", "C02",
 "an internally tagged type that writes itself as an optional holding a struct or map",
 "a some is written like the value it holds, so a struct's fields appear beside the tag instead of under \"value\"",
 [("src/ser.rs", """    fn serialize_some<T>(self, value: &T) -> Result<Self::Ok, Self::Error>
    where
        T: ?Sized + Serialize,
    {
        self.serialize_default(value)""", """    fn serialize_some<T>(self, value: &T) -> Result<Self::Ok, Self::Error>
    where
        T: ?Sized + Serialize,
    {
        value.serialize(self)""")],
r'''
use serde::{Deserialize, Serialize};
#[typetag::serde(tag = "type")]
trait T {}
#[derive(Serialize, Deserialize)]
struct Q { a: u8 }
#[derive(Serialize, Deserialize)]
#[serde(transparent)]
struct P { q: Option<Q> }
#[typetag::serde]
impl T for P {}
fn main() {
    let o: Box<dyn T> = Box::new(P { q: Some(Q { a: 1 }) });
    assert_eq!(serde_json::to_string(&o).unwrap(), r#"{"type":"P","value":{"a":1}}"#);
}
''')
seed("s05-seq-single", "C05",
 "a sequence with exactly one element nested in a value that is held back",
 "a held-back sequence of one element is written as that element",
 [("src/ser.rs", "            Content::Seq(ref elements) => elements.serialize(serializer),",
   "            Content::Seq(ref elements) => match elements.as_slice() {\n                [Content::Seq(inner)] => inner.serialize(serializer),\n                elements => elements.serialize(serializer),\n            },")],
r'''
use serde::{Deserialize, Serialize};
#[typetag::serde(tag = "type")]
trait T {}
#[derive(Serialize, Deserialize)]
struct P(Vec<Vec<u8>>, u8);
#[typetag::serde]
impl T for P {}
fn main() {
    let o: Box<dyn T> = Box::new(P(vec![vec![1, 2]], 1));
    assert_eq!(serde_json::to_string(&o).unwrap(), r#"{"type":"P","value":[[[1,2]],1]}"#);
}
''')
seed("s12-tag-only-deny", "C12",
 "an adjacently tagged trait that denies unknown fields, and an object that only has the tag",
 "with unknown fields denied, a missing content is an error instead of a unit",
 [("src/adjacently.rs", """                    None => {
                        let fn_apply = FnApply { deserialize_fn };
                        let unit""", """                    None if self.deny_unknown_fields => {
                        return Err(de::Error::missing_field(content_field_name));
                    }
                    None => {
                        let fn_apply = FnApply { deserialize_fn };
                        let unit""")],
r'''
use serde::{Deserialize, Serialize};
#[typetag::serde(tag = "t", content = "c", deny_unknown_fields)]
trait T {}
#[derive(Serialize, Deserialize)]
struct P;
#[typetag::serde]
impl T for P {}
fn main() {
    assert!(serde_json::from_str::<Box<dyn T>>(r#"{"t":"P","c":null}"#).is_ok());
    assert!(serde_json::from_str::<Box<dyn T>>(r#"{"t":"P"}"#).is_ok());
}
''')
seed("s04-char-prefix", "C04",
 "an internally tagged struct whose own tag field is a char that begins the implementation's name",
 "a char agrees with the tag when the name starts with it",
 [("src/is_serialize_str.rs", "        self.serialize_str(ch.encode_utf8(&mut [0u8; 4]))",
   "        if self.expected_str.starts_with(ch) {\n            return Err(SerializerState::Ok);\n        }\n        self.serialize_str(ch.encode_utf8(&mut [0u8; 4]))")],
r'''
use serde::{Deserialize, Serialize};
#[typetag::serde(tag = "type")]
trait T {}
#[derive(Serialize, Deserialize)]
struct Pq { r#type: char }
#[typetag::serde]
impl T for Pq {}
#[derive(Serialize, Deserialize)]
struct P { r#type: char }
#[typetag::serde]
impl T for P {}
fn main() {
    let o: Box<dyn T> = Box::new(P { r#type: 'P' });
    assert_eq!(serde_json::to_string(&o).unwrap(), r#"{"type":"P"}"#);
    let o: Box<dyn T> = Box::new(Pq { r#type: 'P' });
    assert!(serde_json::to_string(&o).is_err());
}
''')
seed("s15-enum-two", "C15",
 "content before the tag that is an enum written as a map with a second entry",
 "a buffered enum may have further entries, which are dropped",
 [("src/content.rs", """                if iter.next().is_some() {
                    return Err(de::Error::invalid_value(""", """                if matches!(value, Content::Unit) && iter.next().is_some() {
                    return Err(de::Error::invalid_value(""")],
r'''
use serde::{Deserialize, Serialize};
#[typetag::serde(tag = "t", content = "c")]
trait T {}
#[derive(Serialize, Deserialize)]
enum P { A(u8), B(u8) }
#[typetag::serde]
impl T for P {}
fn main() {
    let _ = (P::A(1), P::B(1));
    assert!(serde_json::from_str::<Box<dyn T>>(r#"{"c":{"A":1},"t":"P"}"#).is_ok());
    assert!(serde_json::from_str::<Box<dyn T>>(r#"{"c":{"A":1,"B":2},"t":"P"}"#).is_err());
}
''')
seed("s05-newtype-index", "C05",
 "an enum's newtype variant with a non-zero index inside a value that is held back (tuple struct, struct variant, ...) while an internally tagged object is written, and a format that writes variant indices (bincode)",
 "a held-back newtype variant is replayed with variant index 0",
 [("src/ser.rs", '''            Content::NewtypeVariant(n, i, v, ref c) => {
                serializer.serialize_newtype_variant(n, i, v, &**c)
            }''', '''            Content::NewtypeVariant(n, _, v, ref c) => {
                serializer.serialize_newtype_variant(n, 0, v, &**c)
            }''')],
r'''
use serde::{Deserialize, Serialize};
#[typetag::serde(tag = "type")]
trait T {}
#[derive(Serialize, Deserialize)]
enum E { #[allow(dead_code)] A(u8), B(u8) }
#[derive(Serialize, Deserialize)]
struct P(E, u8);
#[typetag::serde]
impl T for P {}
fn main() {
    let o: Box<dyn T> = Box::new(P(E::B(7), 9));
    let b = bincode::serialize(&o).unwrap();
    // ..., variant index, content, second field
    assert_eq!(b[b.len() - 6..], [1, 0, 0, 0, 7, 9]);
}
''', 'bincode = "1"')
seed("s14-borrowed", "C14",
 "an object whose tag or content comes late, a type that asks for a string and takes only one borrowed from the input, or distinguishes the two",
 "a buffered borrowed string is presented as a transient one",
 [("src/content.rs", '''        match self.content {
            Content::String(v) => visitor.visit_string(v),
            Content::Str(v) => visitor.visit_borrowed_str(v),
            Content::ByteBuf(v) => visitor.visit_byte_buf(v),
            Content::Bytes(v) => visitor.visit_borrowed_bytes(v),
            _ => Err(self.invalid_type(&visitor)),
        }
    }

    fn deserialize_bytes<V>''', '''        match self.content {
            Content::String(v) => visitor.visit_string(v),
            Content::Str(v) => visitor.visit_str(v),
            Content::ByteBuf(v) => visitor.visit_byte_buf(v),
            Content::Bytes(v) => visitor.visit_borrowed_bytes(v),
            _ => Err(self.invalid_type(&visitor)),
        }
    }

    fn deserialize_bytes<V>''')],
r'''
use serde::{Deserialize, Deserializer, Serialize};
#[typetag::serde(tag = "t", content = "c")]
trait T { fn len(&self) -> usize; }
#[derive(Serialize)]
struct P(usize);
impl<'de> Deserialize<'de> for P {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<P, D::Error> { Ok(P(<&'de str>::deserialize(d)?.len())) }
}
#[typetag::serde]
impl T for P { fn len(&self) -> usize { self.0 } }
fn main() {
    assert_eq!(serde_json::from_str::<Box<dyn T>>(r#"{"t":"P","c":"abc"}"#).unwrap().len(), 3);
    assert_eq!(serde_json::from_str::<Box<dyn T>>(r#"{"c":"abc","t":"P"}"#).unwrap().len(), 3);
}
''')
seed("s13-length-report", "C13",
 "an adjacently tagged object given as a sequence of one element",
 "a sequence with the tag only is reported as having no element",
 [("src/adjacently.rs", "            None => Err(de::Error::invalid_length(1, &self)),", "            None => Err(de::Error::invalid_length(0, &self)),")],
r'''
use serde::{Deserialize, Serialize};
#[typetag::serde(tag = "t", content = "c")]
trait T {}
#[derive(Serialize, Deserialize)]
struct P(u8);
#[typetag::serde]
impl T for P {}
fn main() {
    let e = |s: &str| serde_json::from_str::<Box<dyn T>>(s).err().unwrap().to_string();
    assert!(e("[]").starts_with("invalid length 0"), "{}", e("[]"));
    assert!(e(r#"["P"]"#).starts_with("invalid length 1"), "{}", e(r#"["P"]"#));
}
''')
seed("s07-names-cut", "C07",
 "a trait with more than eight registered names and an input with an unknown one",
 "the error for an unknown name lists the first eight registered names only",
 [("src/de.rs", "            None => Err(de::Error::unknown_variant(key, &self.registry.names)),",
   '''            None => {
                let names = &self.registry.names;
                let shown = names.len().min(8);
                Err(de::Error::unknown_variant(key, &names[..shown]))
            }''')],
r'''
use serde::{Deserialize, Serialize};
#[typetag::serde]
trait T {}
macro_rules! imp { ($($i:ident)*) => { $(#[derive(Serialize, Deserialize)] struct $i; #[typetag::serde] impl T for $i {})* } }
imp!(A B C D E F G H I);
fn main() {
    let e = serde_json::from_str::<Box<dyn T>>(r#"{"Z":null}"#).err().unwrap().to_string();
    for n in ["A", "B", "C", "D", "E", "F", "G", "H", "I"] { assert!(e.contains(&format!("`{n}`")), "{e}"); }
}
''')
seed("s09-last-entry", "C09",
 "an externally tagged object with two entries, in a format that leaves further entries to the visitor",
 "every entry is read and the last one wins",
 [("src/externally.rs", "        map.next_value_seed(FnApply { deserialize_fn })",
   '''        let mut object = map.next_value_seed(FnApply { deserialize_fn })?;
        while let Some(deserialize_fn) = map.next_key_seed(map_lookup)? {
            object = map.next_value_seed(FnApply { deserialize_fn })?;
        }
        Ok(object)''')],
r'''
use serde::{Deserialize, Serialize};
#[typetag::serde]
trait T { fn get(&self) -> u8; }
#[derive(Serialize, Deserialize)]
struct P(u8);
#[typetag::serde]
impl T for P { fn get(&self) -> u8 { self.0 } }
fn main() {
    assert_eq!(serde_json::from_str::<Box<dyn T>>(r#"{"P":1}"#).unwrap().get(), 1);
    if let Ok(o) = serde_json::from_str::<Box<dyn T>>(r#"{"P":1,"P":2}"#) { assert_eq!(o.get(), 1); }
}
''')
seed("s11-null-tag", "C11",
 "a trait with a default variant and an input whose tag is null",
 "a tag that is null counts as absent, so the default implementation is used",
 [("src/internally.rs", "                    let value = map.next_value_seed(map_lookup)?;\n                    if entries",
   '''                    let value = match self.default_variant {
                        Some(variant) => match map.next_value::<Option<String>>()? {
                            Some(tag) => map_lookup.visit_str(&tag)?,
                            None => map_lookup.visit_str(variant)?,
                        },
                        None => map.next_value_seed(map_lookup)?,
                    };
                    if entries''')],
r'''
use serde::{Deserialize, Serialize};
#[typetag::serde(tag = "type", default_variant = "P")]
trait T {}
#[derive(Serialize, Deserialize)]
struct P { a: u8 }
#[typetag::serde]
impl T for P {}
fn main() {
    assert!(serde_json::from_str::<Box<dyn T>>(r#"{"a":1}"#).is_ok());
    assert!(serde_json::from_str::<Box<dyn T>>(r#"{"type":"P","a":1}"#).is_ok());
    assert!(serde_json::from_str::<Box<dyn T>>(r#"{"type":"Q","a":1}"#).is_err());
    assert!(serde_json::from_str::<Box<dyn T>>(r#"{"type":null,"a":1}"#).is_err());
}
''')
seed("s12-between-unknown", "C12",
 "deny_unknown_fields, the content before the tag, and an unknown field between the two",
 "an unknown field between content and tag is skipped although unknown fields are denied",
 [("src/adjacently.rs", '''                let content = map.next_value::<Content>()?;
                // Visit the second key.
                match next_relevant_key(&mut map)? {''', '''                let content = map.next_value::<Content>()?;
                // Visit the second key.
                let field_seed = TagContentOtherFieldVisitor {
                    field_names: self.field_names,
                    deny_unknown_fields: false,
                };
                let second = loop {
                    match map.next_key_seed(field_seed)? {
                        Some(TagContentOtherField::Tag) => break Some(TagOrContentField::Tag),
                        Some(TagContentOtherField::Content) => break Some(TagOrContentField::Content),
                        Some(TagContentOtherField::Other) => {
                            map.next_value::<IgnoredAny>()?;
                        }
                        None => break None,
                    }
                };
                match second {''')],
r'''
use serde::{Deserialize, Serialize};
#[typetag::serde(tag = "t", content = "c", deny_unknown_fields)]
trait T {}
#[derive(Serialize, Deserialize)]
struct P(u8);
#[typetag::serde]
impl T for P {}
fn main() {
    let r = |s: &str| serde_json::from_str::<Box<dyn T>>(s).is_ok();
    assert!(r(r#"{"c":1,"t":"P"}"#));
    assert!(!r(r#"{"x":0,"c":1,"t":"P"}"#));
    assert!(!r(r#"{"c":1,"x":0,"t":"P"}"#));
    assert!(!r(r#"{"c":1,"t":"P","x":0}"#));
}
''')
seed("s08-sort-len", "C08",
 "names of different lengths whose order by length is not their alphabetical order, and an input with an unknown name",
 "the list of known names is ordered by length first",
 [("impl/src/tagged_trait.rs", "            names.sort_unstable();", "            names.sort_unstable_by_key(|name: &&'static str| (name.len(), *name));")],
r'''
use serde::{Deserialize, Serialize};
#[typetag::serde]
trait T {}
#[derive(Serialize, Deserialize)]
struct Long;
#[typetag::serde]
impl T for Long {}
#[derive(Serialize, Deserialize)]
struct Z;
#[typetag::serde]
impl T for Z {}
fn main() {
    let e = serde_json::from_str::<Box<dyn T>>(r#"{"Y":null}"#).err().unwrap().to_string();
    assert!(e.contains("`Long` or `Z`"), "{e}");
}
''')
seed("s17-empty-name", "C17",
 "an implementation that is given the empty string as its name",
 "an empty name counts as none, so the type's own name is used",
 [("impl/src/tagged_impl.rs", "    let name = match args.name {\n        Some(name) => quote!(#name),",
   '''    let explicit = args
        .name
        .filter(|name| !matches!(name, syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) if s.value().is_empty()));
    let name = match explicit {
        Some(name) => quote!(#name),''')],
r'''
use serde::{Deserialize, Serialize};
#[typetag::serde]
trait T {}
#[derive(Serialize, Deserialize)]
struct P;
#[typetag::serde(name = "")]
impl T for P {}
fn main() {
    let o: Box<dyn T> = Box::new(P);
    assert_eq!(serde_json::to_string(&o).unwrap(), r#"{"":null}"#);
}
''')
seed("s06-map-capacity", "C06",
 "a map of unknown length inside a value that is held back while an internally tagged object is written, in a format that writes announced lengths (bincode)",
 "a held-back map is announced with the room its buffer has, not with the number of its entries",
 [("src/ser.rs", "                let mut map = serializer.serialize_map(Some(entries.len()))?;", "                let mut map = serializer.serialize_map(Some(entries.capacity()))?;")],
r'''
use serde::ser::{SerializeMap, Serializer};
use serde::{Deserialize, Serialize};
#[typetag::serde(tag = "type")]
trait T {}
#[derive(Deserialize)]
struct M;
impl Serialize for M {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_map(None)?;
        m.serialize_entry(&1u8, &2u8)?;
        m.end()
    }
}
#[derive(Serialize, Deserialize)]
struct P(M, u8);
#[typetag::serde]
impl T for P {}
fn main() {
    let o: Box<dyn T> = Box::new(P(M, 9));
    let b = bincode::serialize(&o).unwrap();
    assert_eq!(b[b.len() - 11..], [1, 0, 0, 0, 0, 0, 0, 0, 1, 2, 9]);
}
''', 'bincode = "1"')
seed("s10-case", "C10",
 "an internally tagged input with an entry whose key is the tag in other case, before the tag's own",
 "the tag's key is recognised in any case",
 [("src/internally.rs", "        if value == self.tag {", "        if value.eq_ignore_ascii_case(self.tag) {")],
r'''
use serde::{Deserialize, Serialize};
#[typetag::serde(tag = "type")]
trait T { fn get(&self) -> (u8, &str); }
#[derive(Serialize, Deserialize)]
struct P { a: u8, #[serde(rename = "Type")] t: String }
#[typetag::serde]
impl T for P { fn get(&self) -> (u8, &str) { (self.a, &self.t) } }
fn main() {
    for s in [r#"{"type":"P","Type":"x","a":1}"#, r#"{"Type":"x","a":1,"type":"P"}"#] {
        assert_eq!(serde_json::from_str::<Box<dyn T>>(s).unwrap().get(), (1, "x"));
    }
}
''')
seed("s15-default-surplus", "C15",
 "a trait with a default variant, an input without tag, and a default implementation that stops reading before the last entry",
 "entries that the default implementation leaves unread are dropped silently",
 [("src/internally.rs", "        let deserialize_fn = match deserialize_fn {\n            Some(deserialize_fn) => deserialize_fn,",
   "        let tagged = deserialize_fn.is_some();\n        let deserialize_fn = match deserialize_fn {\n            Some(deserialize_fn) => deserialize_fn,"),
  ("src/internally.rs", "        rest.end()?;\n        Ok(ret)", "        if tagged {\n            rest.end()?;\n        }\n        Ok(ret)")],
r'''
use serde::{Deserialize, Serialize};
#[typetag::serde(tag = "type", default_variant = "P")]
trait T {}
#[derive(Serialize, Deserialize)]
struct P(u8);
#[typetag::serde]
impl T for P {}
fn main() {
    let r = |s: &str| serde_json::from_str::<Box<dyn T>>(s).is_ok();
    assert!(r(r#"{"value":1}"#));
    assert!(r(r#"{"value":1,"type":"P"}"#));
    assert!(!r(r#"{"value":1,"x":2,"type":"P"}"#));
    assert!(!r(r#"{"value":1,"x":2}"#));
}
''')

HOSTILE = r'''
use serde::de::{self, DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::forward_to_deserialize_any;
use serde::Deserialize;
type E = de::value::Error;
#[derive(Clone)]
enum N { Str(&'static str), Seq(Vec<N>), Map(Vec<(N, N)>) }
struct Items(std::vec::IntoIter<N>, usize);
struct Entries(std::vec::IntoIter<(N, N)>, Option<N>, usize);
impl<'de> Deserializer<'de> for N {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self {
            N::Str(s) => v.visit_borrowed_str(s),
            N::Seq(s) => v.visit_seq(Items(s.into_iter(), usize::MAX)),
            N::Map(m) => v.visit_map(Entries(m.into_iter(), None, usize::MAX)),
        }
    }
    forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
impl<'de> SeqAccess<'de> for Items {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, t: T) -> Result<Option<T::Value>, E> {
        self.0.next().map(|n| t.deserialize(n)).transpose()
    }
    fn size_hint(&self) -> Option<usize> { Some(self.1) }
}
impl<'de> MapAccess<'de> for Entries {
    type Error = E;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, t: T) -> Result<Option<T::Value>, E> {
        let Some((k, v)) = self.0.next() else { return Ok(None) };
        self.1 = Some(v);
        t.deserialize(k).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, t: T) -> Result<T::Value, E> {
        t.deserialize(self.1.take().unwrap())
    }
    fn size_hint(&self) -> Option<usize> { Some(self.2) }
}
'''
seed("s19-announced-entries", "C19",
 "a map inside a value that typetag buffers, in a format that announces far more entries than there are",
 "room for as many entries as the input announces is reserved, so a hostile length panics or exhausts memory",
 [("src/content.rs", '''        let mut vec = Vec::new();
        while let Some(kv) =''', '''        let mut vec = Vec::with_capacity(visitor.size_hint().unwrap_or(0));
        while let Some(kv) =''')],
HOSTILE + r'''
#[typetag::deserialize(tag = "type")]
trait T { fn n(&self) -> usize; }
#[derive(Deserialize)]
struct P { m: std::collections::BTreeMap<String, String> }
#[typetag::deserialize]
impl T for P { fn n(&self) -> usize { self.m.len() } }
fn main() {
    let m = N::Map(vec![(N::Str("a"), N::Str("b"))]);
    let o = N::Map(vec![(N::Str("m"), m), (N::Str("type"), N::Str("P"))]);
    let r = <Box<dyn T>>::deserialize(o).unwrap();
    assert_eq!(r.n(), 1);
    let _ = N::Seq(vec![]);
}
''')
seed("s19-announced-cap", "C19",
 "a sequence inside a value that typetag buffers, in a format that announces some thousand million elements",
 "an announced length is capped by what fits into memory addresses, not by a fixed number, so gigabytes are reserved",
 [("src/content.rs", '''        let mut vec = Vec::new();
        while let Some(e) =''', '''        let most = isize::MAX as usize / core::mem::size_of::<Content>();
        let mut vec = Vec::with_capacity(visitor.size_hint().unwrap_or(0).min(most));
        while let Some(e) =''')],
HOSTILE + r'''
struct Watch;
static MOST: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
unsafe impl std::alloc::GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        MOST.fetch_max(l.size(), std::sync::atomic::Ordering::Relaxed);
        if l.size() > 1 << 30 { return std::ptr::null_mut() }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { std::alloc::System.dealloc(p, l) }
}
#[global_allocator]
static A: Watch = Watch;
#[typetag::deserialize(tag = "type", content = "content")]
trait T { fn n(&self) -> usize; }
#[derive(Deserialize)]
struct P(Vec<String>);
#[typetag::deserialize]
impl T for P { fn n(&self) -> usize { self.0.len() } }
fn main() {
    let m = N::Seq(vec![N::Str("a")]);
    let o = N::Map(vec![(N::Str("content"), m), (N::Str("type"), N::Str("P"))]);
    let r = <Box<dyn T>>::deserialize(o).unwrap();
    assert_eq!(r.n(), 1);
    assert!(MOST.load(std::sync::atomic::Ordering::Relaxed) < 1 << 30);
}
''')
seed("s19-empty-enum", "C19",
 "an empty map where an enum is asked for, in a part of the input that typetag buffers",
 "a buffered empty map read as an enum panics instead of being an error",
 [("src/content.rs", '''                let Some((variant, value)) = iter.next() else {
                    return Err(de::Error::invalid_value(
                        Unexpected::Map,
                        &"map with a single key",
                    ));
                };
                // enums are encoded in json as maps with a single key:value pair
                if iter.next().is_some() {''', '''                // enums are encoded in json as maps with a single key:value pair
                let (variant, value) = iter.next().unwrap();
                if iter.len() > 0 {''')],
r'''
use serde::Deserialize;
#[typetag::deserialize(tag = "type")]
trait T {}
#[derive(Deserialize)]
#[allow(dead_code)]
enum X { A(u8), B }
#[derive(Deserialize)]
#[allow(dead_code)]
struct P { x: X }
#[typetag::deserialize]
impl T for P {}
fn main() {
    for x in ["{}", "{\"A\":1,\"B\":null}", "{\"C\":1}", "[]"] {
        for text in [format!("{{\"type\":\"P\",\"x\":{x}}}"), format!("{{\"x\":{x},\"type\":\"P\"}}")] {
            assert!(serde_json::from_str::<Box<dyn T>>(&text).is_err());
        }
    }
    assert!(serde_json::from_str::<Box<dyn T>>("{\"x\":{\"A\":1},\"type\":\"P\"}").is_ok());
}
''')
seed("s19-long-text", "C19",
 "a string of more than 64 bytes with a character across byte 64, buffered and then of the wrong type",
 "the message for a buffered string of the wrong type cuts it inside a character, which panics",
 [("src/content.rs", "            Content::Str(s) => Unexpected::Str(s),", "            Content::Str(s) => Unexpected::Str(if s.len() > 64 { &s[..64] } else { s }),")],
r'''
use serde::Deserialize;
#[typetag::deserialize(tag = "type")]
trait T {}
#[derive(Deserialize)]
#[allow(dead_code)]
struct P { x: u8 }
#[typetag::deserialize]
impl T for P {}
fn main() {
    let long = format!("x{}", "\u{e9}".repeat(60));
    assert!(serde_json::from_str::<Box<dyn T>>(&format!("{{\"x\":\"{long}\",\"type\":\"P\"}}")).is_err());
}
''')
seed("s19-endless", "C19",
 "a sequence inside a value that typetag buffers, in a format that announces more elements than there are",
 "buffering goes on asking for elements until as many as announced have come, so it never ends",
 [("src/content.rs", '''        while let Some(e) = visitor.next_element()? {
            vec.push(e);
        }
''', '''        let announced = visitor.size_hint().unwrap_or(0);
        loop {
            match visitor.next_element()? {
                Some(e) => vec.push(e),
                None if vec.len() < announced => {}
                None => break,
            }
        }
''')],
HOSTILE + r'''
#[typetag::deserialize(tag = "type")]
trait T: Send { fn n(&self) -> usize; }
#[derive(Deserialize)]
struct P { m: Vec<String> }
#[typetag::deserialize]
impl T for P { fn n(&self) -> usize { self.m.len() } }
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let o = N::Map(vec![(N::Str("m"), N::Seq(vec![N::Str("a")])), (N::Str("type"), N::Str("P"))]);
        let _ = tx.send(<Box<dyn T>>::deserialize(o).unwrap());
    });
    assert_eq!(rx.recv_timeout(std::time::Duration::from_secs(10)).expect("it ends").n(), 1);
}
''')
seed("s17-inner-attrs", "C17",
 "an attribute written inside the braces of an implementation",
 "attributes inside the braces of an annotated implementation are dropped",
 [("impl/src/parse.rs", '''            attrs.extend(item.attrs);
            item.attrs = attrs;
            Ok(Input::Impl(item))''', '''            item.attrs = attrs;
            Ok(Input::Impl(item))''')],
r'''
#![deny(unused_variables)]
use serde::{Deserialize, Serialize};
#[typetag::serde]
trait T { fn f(&self, x: u8) -> u8; }
#[derive(Serialize, Deserialize)]
struct P;
#[typetag::serde]
impl T for P {
    #![allow(unused_variables)]
    fn f(&self, x: u8) -> u8 { 1 }
}
fn main() {
    let t: Box<dyn T> = serde_json::from_str("{\"P\":null}").unwrap();
    assert_eq!(t.f(0), 1);
}
''')
LOGGED = r'''
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::Deserialize;
type E = de::value::Error;
#[derive(Clone)]
#[allow(dead_code)]
enum N { Str(&'static str), F32(f32), Bytes(&'static [u8]), Unit, Enum(&'static str), Seq(Vec<N>), Map(Vec<(N, N)>) }
std::thread_local!(static LOG: std::cell::RefCell<Vec<String>> = Default::default());
#[allow(dead_code)]
fn log() -> Vec<String> { LOG.with(|l| l.take()) }
fn note(s: String) { LOG.with(|l| l.borrow_mut().push(s)) }
struct Items(std::vec::IntoIter<N>);
struct Entries(std::vec::IntoIter<(N, N)>, Option<N>);
struct Variant(&'static str);
macro_rules! asked {
    ($($m:ident($($a:ident: $t:ty),*))*) => {$(
        fn $m<V: Visitor<'de>>(self $(, $a: $t)*, v: V) -> Result<V::Value, E> {
            note(format!(concat!(stringify!($m), "{:?}"), ($(&$a,)*)));
            match stringify!($m) {
                "deserialize_newtype_struct" => v.visit_newtype_struct(self),
                _ => self.give(v),
            }
        }
    )*};
}
impl N {
    fn give<'de, V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self {
            N::Str(s) => v.visit_borrowed_str(s),
            N::F32(f) => v.visit_f32(f),
            N::Bytes(b) => v.visit_borrowed_bytes(b),
            N::Unit => v.visit_unit(),
            N::Enum(n) => v.visit_enum(Variant(n)),
            N::Seq(s) => v.visit_seq(Items(s.into_iter())),
            N::Map(m) => v.visit_map(Entries(m.into_iter(), None)),
        }
    }
}
impl<'de> Deserializer<'de> for N {
    type Error = E;
    asked! { deserialize_any() deserialize_bool() deserialize_i8() deserialize_i16() deserialize_i32() deserialize_i64()
        deserialize_u8() deserialize_u16() deserialize_u32() deserialize_u64() deserialize_f32() deserialize_f64()
        deserialize_char() deserialize_str() deserialize_string() deserialize_bytes() deserialize_byte_buf()
        deserialize_option() deserialize_unit() deserialize_unit_struct(n: &'static str) deserialize_newtype_struct(n: &'static str)
        deserialize_seq() deserialize_tuple(n: usize) deserialize_tuple_struct(n: &'static str, l: usize) deserialize_map()
        deserialize_struct(n: &'static str, f: &'static [&'static str]) deserialize_enum(n: &'static str, f: &'static [&'static str])
        deserialize_identifier() }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { v.visit_unit() }
}
impl<'de> SeqAccess<'de> for Items {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, t: T) -> Result<Option<T::Value>, E> {
        self.0.next().map(|n| t.deserialize(n)).transpose()
    }
}
impl<'de> MapAccess<'de> for Entries {
    type Error = E;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, t: T) -> Result<Option<T::Value>, E> {
        let Some((k, v)) = self.0.next() else { return Ok(None) };
        self.1 = Some(v);
        t.deserialize(k).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, t: T) -> Result<T::Value, E> {
        t.deserialize(self.1.take().unwrap())
    }
}
impl<'de> EnumAccess<'de> for Variant {
    type Error = E;
    type Variant = ();
    fn variant_seed<T: DeserializeSeed<'de>>(self, t: T) -> Result<(T::Value, ()), E> { Ok((t.deserialize(N::Str(self.0))?, Unit)) }
}
#[allow(non_upper_case_globals)]
const Unit: () = ();
struct U;
impl<'de> VariantAccess<'de> for U {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> { Ok(()) }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, t: T) -> Result<T::Value, E> { t.deserialize(N::Unit) }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, E> { v.visit_unit() }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], v: V) -> Result<V::Value, E> { v.visit_unit() }
}
'''.replace("type Variant = ();", "type Variant = U;").replace("(T::Value, ())", "(T::Value, U)").replace("?, Unit))", "?, U))").replace("#[allow(non_upper_case_globals)]\nconst Unit: () = ();\n", "")
seed("s12-skip-buffered", "C12",
 "an unknown field whose value is an enum of the format (or anything else that cannot be buffered)",
 "unknown fields are skipped by buffering their value, so one that cannot be buffered makes the input invalid",
 [("src/adjacently.rs", "                        map.next_value::<IgnoredAny>()?;", "                        map.next_value::<Content>()?;"),
  ("src/adjacently.rs", '''    self, DeserializeSeed, Deserializer, IgnoredAny, IntoDeserializer, MapAccess, SeqAccess,
    Visitor,''', '''    self, DeserializeSeed, Deserializer, IntoDeserializer, MapAccess, SeqAccess, Visitor,''')],
LOGGED + r'''
#[typetag::deserialize(tag = "type", content = "content")]
trait T { fn n(&self) -> &str; }
#[derive(Deserialize)]
struct P(String);
#[typetag::deserialize]
impl T for P { fn n(&self) -> &str { &self.0 } }
fn main() {
    for at in 0..3 {
        let mut m = vec![(N::Str("type"), N::Str("P")), (N::Str("content"), N::Str("x"))];
        m.insert(at, (N::Str("other"), N::Enum("A")));
        assert_eq!(<Box<dyn T>>::deserialize(N::Map(m)).unwrap().n(), "x");
    }
}
''')
seed("s13-one-name", "C13",
 "a format that uses the announced field names (a sequence of as many elements, or named columns)",
 "the reader announces the tag's field only for traits with a default variant",
 [("src/adjacently.rs", "    deserializer.deserialize_struct(trait_object, field_names, visitor)", '''    let announced = if default_variant.is_some() { &field_names[1..] } else { field_names };
    deserializer.deserialize_struct(trait_object, announced, visitor)''')],
LOGGED + r'''
#[typetag::deserialize(tag = "type", content = "content", default_variant = "P")]
trait T { fn n(&self) -> &str; }
#[derive(Deserialize)]
struct P(String);
#[typetag::deserialize]
impl T for P { fn n(&self) -> &str { &self.0 } }
fn main() {
    let r = <Box<dyn T>>::deserialize(N::Seq(vec![N::Str("P"), N::Str("x")])).unwrap();
    assert_eq!(r.n(), "x");
    assert_eq!(log()[0], "deserialize_struct(\"T\", [\"type\", \"content\"])");
}
''')
seed("s01-length-unknown", "C01",
 "a format that needs the length of a map in advance, and a value of 64 bytes or more",
 "the map is announced without a length when the concrete value takes much memory",
 [("src/externally.rs", "    let mut ser = serializer.serialize_map(Some(1))?;", "    let len = (core::mem::size_of_val(concrete) < 64).then_some(1);\n    let mut ser = serializer.serialize_map(len)?;")],
r'''
use serde::ser::{Impossible, SerializeMap, Serializer};
use serde::Serialize;
type E = serde::de::value::Error;
struct Len;
struct M(Option<usize>);
macro_rules! no { ($($m:ident($($t:ty),*))*) => {$( fn $m(self $(, _: $t)*) -> Result<Option<usize>, E> { unreachable!() } )*}; }
impl Serializer for Len {
    type Ok = Option<usize>;
    type Error = E;
    type SerializeSeq = Impossible<Option<usize>, E>;
    type SerializeTuple = Impossible<Option<usize>, E>;
    type SerializeTupleStruct = Impossible<Option<usize>, E>;
    type SerializeTupleVariant = Impossible<Option<usize>, E>;
    type SerializeMap = M;
    type SerializeStruct = Impossible<Option<usize>, E>;
    type SerializeStructVariant = Impossible<Option<usize>, E>;
    no! { serialize_bool(bool) serialize_i8(i8) serialize_i16(i16) serialize_i32(i32) serialize_i64(i64) serialize_u8(u8)
        serialize_u16(u16) serialize_u32(u32) serialize_u64(u64) serialize_f32(f32) serialize_f64(f64) serialize_char(char)
        serialize_str(&str) serialize_bytes(&[u8]) serialize_none() serialize_unit() serialize_unit_struct(&'static str)
        serialize_unit_variant(&'static str, u32, &'static str) }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<Option<usize>, E> { unreachable!() }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<Option<usize>, E> { unreachable!() }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Option<usize>, E> { unreachable!() }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, E> { unreachable!() }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, E> { unreachable!() }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E> { unreachable!() }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> { unreachable!() }
    fn serialize_map(self, n: Option<usize>) -> Result<M, E> { Ok(M(n)) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, E> { unreachable!() }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> { unreachable!() }
}
impl SerializeMap for M {
    type Ok = Option<usize>;
    type Error = E;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, _: &T) -> Result<(), E> { Ok(()) }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, _: &T) -> Result<(), E> { Ok(()) }
    fn end(self) -> Result<Option<usize>, E> { Ok(self.0) }
}
#[typetag::serialize]
trait T {}
#[derive(Serialize)]
struct A([u64; 8]);
#[typetag::serialize]
impl T for A {}
#[derive(Serialize)]
struct B(u8);
#[typetag::serialize]
impl T for B {}
fn main() {
    assert_eq!((&B(1) as &dyn T).serialize(Len).unwrap(), Some(1));
    assert_eq!((&A([0; 8]) as &dyn T).serialize(Len).unwrap(), Some(1));
}
''')
seed("s03-error-lost", "C03",
 "a content that fails to serialize after the format has accepted the field, in a format that can go on",
 "an error of the content field is dropped when the struct can still be ended",
 [("src/adjacently.rs", '''    ser.serialize_field(content, &Wrap(concrete))?;
    ser.end()''', '''    let written = ser.serialize_field(content, &Wrap(concrete));
    ser.end().or_else(|end| written.and(Err(end)))''')],
r'''
use serde::{Serialize, Serializer};
#[typetag::serialize(tag = "type", content = "content")]
trait T {}
struct A;
impl Serialize for A {
    fn serialize<S: Serializer>(&self, _: S) -> Result<S::Ok, S::Error> { Err(serde::ser::Error::custom("no")) }
}
#[typetag::serialize]
impl T for A {}
fn main() {
    assert!(serde_json::to_string(&A as &dyn T).is_err());
    assert!(serde_json::to_value(&A as &dyn T).is_err());
}
''')
seed("s08-ambiguous-hidden", "C08",
 "a name registered twice, and an input that names something unknown",
 "names that are registered more than once are missing in the list of known names",
 [("impl/src/tagged_trait.rs", '''            names.sort_unstable();''', '''            names.retain(|name| typetag::#private::Option::is_some(&map[name]));
            names.sort_unstable();''')],
r'''
use serde::Deserialize;
#[typetag::deserialize]
trait T {}
#[derive(Deserialize)]
struct A;
#[typetag::deserialize]
impl T for A {}
#[derive(Deserialize)]
struct B;
#[typetag::deserialize(name = "twice")]
impl T for B {}
#[derive(Deserialize)]
struct C;
#[typetag::deserialize(name = "twice")]
impl T for C {}
fn main() {
    let e = serde_json::from_str::<Box<dyn T>>("{\"x\":null}").err().unwrap().to_string();
    assert!(e.contains("A") && e.contains("twice"), "{e}");
}
''')
seed("s14-f32-widened", "C14",
 "a value of the format's 32-bit float kind in a part of the input that typetag buffers",
 "a buffered f32 is presented as an f64",
 [("src/content.rs", '''        Ok(Content::F32(value))''', '''        Ok(Content::F64(f64::from(value)))''')],
LOGGED + r'''
#[typetag::deserialize(tag = "type")]
trait T { fn n(&self) -> &str; }
#[derive(Deserialize)]
struct P { x: X }
struct X(&'static str);
impl<'de> Deserialize<'de> for X {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<X, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = X;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("a float") }
            fn visit_f32<E>(self, _: f32) -> Result<X, E> { Ok(X("f32")) }
            fn visit_f64<E>(self, _: f64) -> Result<X, E> { Ok(X("f64")) }
        }
        d.deserialize_any(V)
    }
}
#[typetag::deserialize]
impl T for P { fn n(&self) -> &str { self.x.0 } }
fn main() {
    for late in [false, true] {
        let mut m = vec![(N::Str("type"), N::Str("P")), (N::Str("x"), N::F32(0.1))];
        if late { m.reverse() }
        assert_eq!(<Box<dyn T>>::deserialize(N::Map(m)).unwrap().n(), "f32");
    }
}
''')
seed("s16-tuple-length", "C16",
 "a format that uses the requested length of a tuple, and an internally tagged optional tuple with the tag first",
 "a tuple in an optional is asked for as a sequence without a length",
 [("src/internally.rs", "        deserialize_map_value!(self, deserialize_tuple, visitor, len: usize)", "        let _ = len;\n        deserialize_map_value!(self, deserialize_seq, visitor)")],
LOGGED + r'''
#[typetag::deserialize(tag = "type")]
trait T { fn n(&self) -> usize; }
struct P(usize);
impl<'de> Deserialize<'de> for P {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<P, D::Error> {
        <Option<[String; 2]>>::deserialize(d).map(|x| P(x.map_or(0, |x| x.len())))
    }
}
#[typetag::deserialize]
impl T for P { fn n(&self) -> usize { self.0 } }
fn main() {
    let m = vec![(N::Str("type"), N::Str("P")), (N::Str("value"), N::Seq(vec![N::Str("a"), N::Str("b")]))];
    assert_eq!(<Box<dyn T>>::deserialize(N::Map(m)).unwrap().n(), 2);
    assert!(log().contains(&"deserialize_tuple(2,)".to_string()));
}
''')
seed("s06-empty-map-unannounced", "C06",
 "an empty map inside an enum variant of an internally tagged object, in a format that needs lengths",
 "a held-back map without entries is announced without a length",
 [("src/ser.rs", "                let mut map = serializer.serialize_map(Some(entries.len()))?;", "                let mut map = serializer.serialize_map(entries.first().map(|_| entries.len()))?;")],
r'''
use serde::Serialize;
#[typetag::serialize(tag = "type")]
trait T {}
#[derive(Serialize)]
#[allow(dead_code)]
enum A { V(u8, std::collections::BTreeMap<u8, u8>) }
#[typetag::serialize]
impl T for A {}
fn main() {
    let v = A::V(1, Default::default());
    bincode::serialize(&v).unwrap();
    bincode::serialize(&v as &dyn T).unwrap();
    let v = A::V(1, [(2, 3)].into_iter().collect());
    bincode::serialize(&v as &dyn T).unwrap();
}
''', 'bincode = "1"')
