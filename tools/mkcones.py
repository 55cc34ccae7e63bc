#!/usr/bin/env python3
"""Writes contracts/cones.json: which functions decide which property, and what is assumed."""
import json
P = {}
def p(i, functions, **k): P[i] = {"functions": functions, **k}
SER, DE = "core_ser::.*", "core_de::.*"
WRAP = "ser::Wrap as Serialize::serialize"
CAPTURE = ["content::Content as Deserialize::deserialize", "content::ContentVisitor as Visitor::.*"]
p("C01", ["externally::serialize", WRAP, SER])
p("C02", ["internally::serialize", "ser::(?!Content).*", "is_serialize_str::.*", SER])
p("C03", ["adjacently::serialize", WRAP, SER])
p("C04", ["ser::SerializeStructAsMap.*", "ser::InternallyTaggedSerializer as Serializer::serialize_(struct|newtype_struct)", "is_serialize_str::.*", SER])
p("C05", ["ser::Content.*", "ser::Serialize.*AsMapValue.*", SER])
p("C06", ["ser::(?!Wrap).*", "externally::serialize", "internally::serialize", "adjacently::serialize", SER])
p("C07", ["de::.*", "externally::TaggedVisitor as Visitor::visit_map", "internally::TaggedVisitor as Visitor::visit_map",
          "adjacently::TaggedVisitor as Visitor::visit_(map|seq)"])
p("C08", [r"fx_m\d+::deserialize_.*", r"fx_m\d+::submit__.*", r"fx_m\d+::.*::typetag_register"], gen=True)
p("C09", ["externally::deserialize", "externally::TaggedVisitor.*", "de::.*"])
p("C10", ["internally::deserialize", "internally::TaggedVisitor.*", "internally::KeyVisitor.*", "internally::StringKey.*",
          "internally::MapWithStringKeys as MapAccess::.*", "internally::MapWithStringKeys as Deserializer::deserialize_(any|map|struct)",
          "content::MapDeserializer.*", "content::ContentDeserializer::new", "de::.*", DE] + CAPTURE)
p("C11", ["internally::TaggedVisitor as Visitor::visit_map", "adjacently::TaggedVisitor as Visitor::visit_(map|seq)", "internally::KeyVisitor.*",
          "adjacently::TagContentOtherFieldVisitor.*", "internally::deserialize", "adjacently::deserialize", "de::MapLookupVisitor.*"])
p("C12", ["adjacently::deserialize", "adjacently::TaggedVisitor as Visitor::visit_map", "adjacently::TagContentOtherFieldVisitor.*",
          "content::Content as IntoDeserializer.*", "content::ContentDeserializer::new", "de::FnApply.*", DE] + CAPTURE)
p("C13", ["adjacently::deserialize", "adjacently::TaggedVisitor as Visitor::visit_seq", "de::.*"])
p("C14", ["content::.*", "value::.*", DE])
p("C15", ["content::visit_content_(seq|map)", "value::.*", "content::(Seq|Map)Deserializer.*", "content::ContentDeserializer as Deserializer::deserialize_(any|seq|tuple|tuple_struct|map|struct|enum)",
          "content::VariantDeserializer as VariantAccess::.*", "content::EnumDeserializer.*", "internally::TaggedVisitor as Visitor::visit_map"])
p("C16", ["internally::(MapWithStringKeys|MapEntryAsEnum|MapValueAsDeserializer|StringKey|DefaultKey|Wrap__).*"])
p("C17", [r"fx_m\d+::.*", "(externally|internally|adjacently)::(serialize|deserialize)", "attr::.*"], gen=True, attr=True, macros=True,
  theorems=["asyn::writing_is_read", "asyn::reading_is_written"],
  trusted_base=["assumed contracts of syn's parse stream, tokens and syntax tree as far as the attribute parser uses them (contracts/attr_shim.rs)"],
  assumptions=["the generated code is proved for every attribute form of /verif/fixture; no proof looks inside a literal, so each stands for every literal the macro copies there (that it copies literals unchanged is checked by the bounded harness)"])
p("C18", ["externally::.*", "internally::.*", "adjacently::.*", "ser::.*", "is_serialize_str::.*", "de::.*", "content::.*", "value::.*", SER, DE],
  append="round",
  theorems=["round::external", "round::adjacent", "round::internal", "round::lemma_shape"],
  assumptions=["the format presents what it was given to write (round.rs: faithful; tag and content, or the tag's entry, at any place), and each value under every kind of request its own type makes",
               "a concrete type reads back from a source that presents its written value (shown) an equal value: its own property, not typetag's"])
p("C19", ["externally::.*", "internally::.*", "adjacently::.*", "ser::.*", "is_serialize_str::.*", "de::.*", "content::.*", "value::.*", SER, DE],
  assumptions=["stack depth is not modelled: how deeply a source nests is the format's to limit", "memory exhausted by what an input really presents (not merely announces) is not modelled",
               "a panic or endless loop inside the format, the concrete type or a registered function is theirs"])
C = {
 "properties": P,
 "trusted_base": [
  "Verus and Z3",
  "the extractor /verif/extract: rewrites of the compiler's expanded source listed in DESIGN.md (dropped: Debug/Display text, lifetimes of local wrappers, size_hint, is_human_readable, visit_i128/u128 defaults)",
  "assumed contracts of serde's traits for the format and for the concrete type (contracts/ser.vc, contracts/de.vc)",
  "assumed contracts of erased_serde::serialize and of a registered function called through erased_serde (contracts/erased.rs, contracts/shim.rs)",
  "assumed contracts of alloc collections and iterators (contracts/shim.rs)", "serde_core's SeqDeserializer and MapDeserializer are read from serde_core's own source (extract/src/value.rs) with the iterator fixed to the one typetag passes; its implementations for plain values, Impossible, () and String from its expanded source (extract/src/serde_impls.rs)",
  "assumed: IgnoredAny (whether a value can be skipped depends on the source alone); of access traits through `&mut`, that what is done through the borrow is done to the borrowed access, and serde's default `next_entry`",
 ],
 "assumptions": [
  "a format or concrete type may fail at any call with an error of its own; every other result obeys the contracts of serde's traits in contracts/*.vc",
  "an access whose end has been reached (Ok(None)) stays at its end",
  "floating point values are compared as the verifier's uninterpreted equality of f32/f64 (no arithmetic is done on them in the code except casts, which are named functions)",
  "error messages are not specified, only error kinds",
 ],
 "note": "Every obligation of the named functions of /repo's current source is discharged by Verus for all inputs, against the contracts in contracts/*.vc. Trusted: the extraction steps and external contracts listed in DESIGN.md and in the evidence.",
}
json.dump(C, open("/verif/contracts/cones.json", "w"), indent=1)
