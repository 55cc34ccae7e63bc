#!/usr/bin/env python3
"""Writes /verif/fixture/src/lib.rs (traits and implementations in every attribute
configuration) and /verif/gen/gen.vc (what the code typetag generates
for them has to do)."""
import itertools, json
V = "/verif"

def lit(s): return json.dumps(s, ensure_ascii=False)

SUPERS = {"": (), "Send": ("Send",), "Sync": ("Sync",), "Send + Sync": ("Send", "Sync"), "Sync + Send": ("Send", "Sync"),
          "Sync + Marked + 'static + Send": ("Send", "Sync"), "Marked": ()}
src = ["//! Written by tools/mkfixture.py.", "#![allow(dead_code, non_camel_case_types)]", ""]
vc = ["// Written by tools/mkfixture.py: contracts of the code generated for /verif/fixture.", ""]

def serde_for(t, ind="        "):
    return f"""{ind}impl serde::Serialize for {t} {{ fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {{ s.serialize_unit() }} }}
{ind}impl<'de> serde::Deserialize<'de> for {t} {{ fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<{t}, D::Error> {{ let _ = d; Err(serde::de::Error::custom("")) }} }}
"""

def marks(m): return "".join("_" + x for x in sorted(m))

def module(mod, mode, attr, kind, trait, sup, impls):
    """kind: ('ext',) | ('int', tag, default) | ('adj', tag, content, default, deny)"""
    m = SUPERS[sup]
    ser, de = mode in ("serde", "serialize"), mode in ("serde", "deserialize")
    a = f"typetag::{mode}" + (f"({attr})" if attr is not None else "")
    s = [f"pub mod {mod} {{"]
    if "Marked" in sup: s.append("    pub trait Marked {}")
    s.append(f"    #[{a}]\n    pub trait {trait}{': ' + sup if sup else ''} {{ fn other(&self) -> u8 {{ 0 }} }}")
    for i, (ty, arg, name) in enumerate(impls):
        segs = ty.split("::")
        if len(segs) > 1:
            s.append("    pub mod " + " { pub mod ".join(segs[:-1]) + " {\n        pub struct " + segs[-1] + ";\n" + serde_for(segs[-1]) + "    " + "}" * (len(segs) - 1))
        else:
            s.append(f"    pub struct {ty};\n" + serde_for(ty, "    "))
        if arg and arg.startswith("CONST"):
            s.append(f"    pub const {arg}: &str = {lit(name)};")
        if "Marked" in sup: s.append(f"    impl Marked for {ty} {{}}")
        s.append(f"    #[typetag::{mode}" + (f"(name = {arg})" if arg else "") + f"]\n    impl {trait} for {ty} {{}}")
    s.append("}\n")
    src.append("\n".join(s))
    contracts(mod, mode, kind, trait, m, impls)

def custom(mod, mode, kind, trait, m, impls, text):
    """as module, from source text"""
    src.append(f"pub mod {mod} {{\n{text.strip(chr(10))}\n}}\n")
    contracts(mod, mode, kind, trait, m, impls)

def contracts(mod, mode, kind, trait, m, impls):
    """impls: (type, how it is named, name); the type may have arguments"""
    ser, de = mode in ("serde", "serialize"), mode in ("serde", "deserialize")
    f = "fx_" + mod
    D = "Dyn_" + trait
    S = D + marks(m)
    def want(ty, arg, name): return f"{arg}@" if arg and arg.startswith("CONST") else f"{lit(name)}@"
    if ser:
        val = {"ext": "SVal::Map(one((SVal::Str(self.name()), self.eval())))",
               "adj": lambda: f"SVal::Struct({lit(trait)}@, cons(({lit(kind[1])}@, SVal::Str(self.name())), cons(({lit(kind[2])}@, self.eval()), Seq::empty())))",
               "int": None}[kind[0]]
        if callable(val): val = val()
        for mk in ((), ("Send",), ("Sync",), ("Send", "Sync")):
            vc.append(f"@im {f}::{D}{marks(mk)} as Serialize::serialize")
            if kind[0] == "int":
                t = f"{lit(kind[1])}@, self.name(), crate::erased_serde::Serialize::eval(self)"
                vc.append(f"""    requires $1.needs_len() ==> crate::erased_serde::Serialize::etells(self)
    ensures foreign(crate::serde::ser::srv($r))
        || ($r is Err && its_out_err({t}))
        || (!its_rejects({t}) && $1.out(its_shape({t}), crate::serde::ser::srv($r)))""")
            else:
                vc.append(f"    ensures foreign(crate::serde::ser::srv($r)) || $1.out({val.replace('self.eval()', 'crate::erased_serde::Serialize::eval(self)')}, crate::serde::ser::srv($r))")
            vc.append("@end")
    for ty, arg, name in impls:
        t = ty.split("::")[-1]
        base = t.split("<")[0]
        if ser:
            vc.append(f"@fn {f}::typetag_name__{base}\n    ensures r@ == {want(ty, arg, name)}\n@end")
        if de:
            vc.append(f"@fn {f}::submit__{base}\n    ensures r.name@ == {want(ty, arg, name)}, makes::<{t}, {S}>(r.deserializer)\n@end")
            vc.append(f"""@closure {f}::submit__{base} 0
 -> (__o: Result<Box<{S}>, crate::shim::ErasedError>)
    ensures made::<{t}, {S}>(__d.d_src(), __d.d_rest(), res_of(__o))
@end""")
    if de:
        style = {"ext": "externally", "int": "internally", "adj": "adjacently"}[kind[0]]
        def dflt(x): return f"v.default_variant is None" if x is None else f"v.default_variant is Some && v.default_variant->0@ == {lit(x)}@"
        if kind[0] == "ext":
            cfg, hint = f"v.trait_object@ == {lit(trait)}@", "Hint::Map"
        elif kind[0] == "int":
            cfg, hint = f"v.trait_object@ == {lit(trait)}@ && v.tag@ == {lit(kind[1])}@ && {dflt(kind[2])}", "Hint::Map"
        else:
            cfg = f"v.trait_object@ == {lit(trait)}@ && v.field_names@.len() == 2 && v.field_names@[0]@ == {lit(kind[1])}@ && v.field_names@[1]@ == {lit(kind[2])}@ && {dflt(kind[3])} && v.deny_unknown_fields == {str(kind[4]).lower()}"
            hint = f"Hint::Struct({lit(trait)}@, names_of(v.field_names@))"
        vc.append(f"""@bcast {f}
crate::gspec::group_registry
@end
@extra {f}
/// the first n registrations
pub open spec fn first(n: int) -> Seq<(Seq<char>, TypetagFn)>
    decreases n
{{ if n <= 0 {{ Seq::empty() }} else {{ first(n - 1).push((registered::<TypetagRegistration<TypetagFn>>()[n - 1].name@, registered::<TypetagRegistration<TypetagFn>>()[n - 1].deserializer)) }} }}
pub open spec fn known() -> Seq<(Seq<char>, TypetagFn)> {{ first(registered::<TypetagRegistration<TypetagFn>>().len() as int) }}
/// the registry is what the registrations make it
pub open spec fn right(r: crate::private::Registry<{S}>) -> bool {{
    resolves(r.map.map(), known()) && lists(r.names@, known()) && sorted(r.names@)
}}
pub open spec fn configured(v: crate::{style}::TaggedVisitor<{S}>) -> bool {{ {cfg} && right(*v.registry) }}
pub open spec fn read(src: Src, left: int, r: Res<Box<{S}>>) -> bool {{
    exists|v: crate::{style}::TaggedVisitor<{S}>| configured(v) && #[trigger] crate::serde::de::delivered(v, src, {hint}, left, r)
}}
@end""")
        vc.append(f"""@fn {f}::deserialize_{S}
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || read($1.src(), $1.d_left(), crate::serde::de::srv(r))
@end""")
        vc.append(f"""@closure {f}::deserialize_{S} 0
 -> (__o: Box<crate::private::Registry<{S}>>)
    ensures right(*__o)
@end
@loop {f}::deserialize_{S} 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        $it.all() == registered::<TypetagRegistration<TypetagFn>>(),
        resolves($map.map(), first($it.pos())),
        lists($vec@, first($it.pos())),
    ensures
        $it.pos() == $it.all().len(),
    decreases $it.all().len() - $it.pos(),
@end""")
        for mk in ((), ("Send",), ("Sync",)):
            if set(mk) < set(m):
                T = D + marks(mk)
                vc.append(f"""@fn {f}::deserialize_{T}
    requires there($1.src())
    ensures foreign(crate::serde::de::srv(r)) || exists|q: Res<Box<{S}>>| #[trigger] read($1.src(), $1.d_left(), q) && crate::serde::de::srv(r) == (match q {{ Res::Ok(b) => Res::Ok(unsized_{S}_{T}(b)), Res::Err(k) => Res::Err(k) }})
@end""")

ALL = [("A", None, "A"), ("one::two::Deep", None, "Deep"), ("Named", '"odd \\"name\\" é"', 'odd "name" é'), ("Empty", '""', ""), ("FromConst", "CONST_K", "from const")]
FEW = [("A", None, "A"), ("Named", '"n"', "n")]
sups = list(SUPERS)
styles = [
    (None, ("ext",)),
    ('tag = "type"', ("int", "type", None)),
    ('tag = "ta\\"g é", default_variant = "A"', ("int", 'ta"g é', "A")),
    ('tag = "t", content = "c"', ("adj", "t", "c", None, False)),
    ('tag = "t", content = "", deny_unknown_fields', ("adj", "t", "", None, True)),
    ('tag = "", content = "c", default_variant = "not registered"', ("adj", "", "c", "not registered", False)),
    ('tag = "c", content = "t", deny_unknown_fields, default_variant = "n",', ("adj", "c", "t", "n", True)),
    ('tag = "t", content = "content", default_variant = "", deny_unknown_fields', ("adj", "t", "content", "", True)),
    ('tag = "value", default_variant = "",', ("int", "value", "")),
    ('', ("ext",)),
]
n = 0
def add(mode, st, sup, trait, impls):
    global n
    module(f"m{n:02}", mode, st[0], st[1], trait, sup, impls)
    n += 1
names = ["Ext", "Shape", "Object", "r2", "Trait_", "Z"]
for i, st in enumerate(styles[:7]):
    for j, sup in enumerate(["", "Send", "Sync", "Send + Sync"]):
        add("serde", st, sup, names[(i + j) % 6], ALL if j == i % 4 else FEW)
for i, st in enumerate(styles[7:]):
    add("serde", st, sups[4 + i], names[i], FEW)
for i, st in enumerate(styles[:7]):
    add("serialize", st, sups[i], names[i % 6], FEW)
    add("deserialize", st, sups[(i + 3) % 7], names[(i + 1) % 6], FEW)
# ---- shapes of traits and implementations the tables above do not reach
D_OF = "if let Err(e) = <u8 as serde::Deserialize>::deserialize(d) { return Err(e); } Err(serde::de::Error::custom(\"\"))"
def sd(t, g="", ser=True, de=True):
    o = ""
    gi = f"<{g}>" if g else ""
    if ser: o += f"    impl{gi} serde::Serialize for {t} {{ fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {{ s.serialize_unit() }} }}\n"
    gd = f"<'de, {g}>" if g else "<'de>"
    if de: o += f"    impl{gd} serde::Deserialize<'de> for {t} {{ fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {{ let _ = d; Err(serde::de::Error::custom(\"\")) }} }}\n"
    return o
def extra(mode, kind, trait, m, impls, text):
    global n
    custom(f"m{n:02}", mode, kind, trait, m, impls, text)
    n += 1

# private and restricted traits, unsafe, attributes, items of every kind
extra("serde", ("ext",), "Private", (), [("A", None, "A")], """
    #[typetag::serde]
    trait Private { fn f(&self) {} fn g<T>(&self, t: T) -> T where Self: Sized { t } type T where Self: Sized; }
    pub struct A;
""" + sd("A") + """
    #[typetag::serde]
    impl Private for A { type T = u8; fn f(&self) {} }
""")
extra("serde", ("int", "k", None), "Crate", ("Send",), [("A", None, "A"), ("B", None, "b")], """
    /// documented
    #[allow(unused)]
    #[typetag::serde(tag = "k")]
    #[allow(dead_code)]
    pub(crate) unsafe trait Crate: 'static + Send { /** documented */ #[allow(unused)] fn f(&self); }
    pub(crate) struct A; pub(super) struct B { pub x: u8 }
""" + sd("A") + sd("B") + """
    #[allow(unused)]
    #[typetag::serde]
    #[allow(dead_code)]
    unsafe impl Crate for A { fn f(&self) {} }
    #[typetag::serde(name = "b",)]
    unsafe impl Crate for B { fn f(&self) { let _ = self.x; } }
""")
# generic traits and implementations, which can be serialized only
for kind, a in ((("ext",), ""), (("int", "t", None), '(tag = "t")'), (("adj", "t", "c", None, False), '(tag = "t", content = "c")')):
    extra("serialize", kind, "Generic", (), [("A", None, "A"), ("B", None, "B"), ("C<u8>", None, "C"), ("G<T>", None, "G"), ("H", None, "h")], f"""
    #[typetag::serialize{a}]
    pub trait Generic<'a, T: Clone, const N: usize> where T: 'a {{ fn get(&self) -> Option<&'a T> {{ None }} fn size(&self) -> usize {{ N }} }}
    pub struct A; pub struct B; pub struct C<T>(pub T); pub struct G<T>(pub T); pub struct H<'x>(pub &'x u8);
""" + sd("A") + sd("B") + sd("C<T>", "T") + sd("G<T>", "T") + sd("H<'_>", de=False) + """
    #[typetag::serialize]
    impl<'a> Generic<'a, u8, 1> for A {}
    #[typetag::serialize]
    impl<'a, T: Clone + 'a, const N: usize> Generic<'a, T, N> for B {}
    #[typetag::serialize]
    impl<'a> Generic<'a, u8, 2> for C<u8> {}
    #[typetag::serialize]
    impl<'a, T> Generic<'a, T, 3> for G<T> where T: Clone + 'a {}
    #[typetag::serialize(name = "h")]
    impl<'a, 'x> Generic<'a, u8, 1> for H<'x> {}
""")
# types with arguments, written in full, through macros, other modules' traits
extra("serde", ("adj", "t", "c", "D", False), "Outer", ("Send", "Sync"), [("G<u8>", None, "G"), ("G2<u8, 3>", '"g2"', "g2"), ("D", None, "D"), ("E", None, "E"), ("F", '"mac"', "mac"), ("K", "CONST_Z", "z")], """
    #[typetag::serde(tag = "t", default_variant = "no", content = "c")]
    pub trait NotRead {}
""".replace('#[typetag::serde(tag = "t", default_variant = "no", content = "c")]\n', "#[doc = \"\"]\n") + """
    #[typetag::serde(tag = "t", content = "c", default_variant = "D")]
    pub trait Outer: NotRead + Send + Sync {}
    pub struct G<T>(pub T); pub struct G2<T, const N: usize>(pub T);
    impl<T> NotRead for G<T> {} impl<T, const N: usize> NotRead for G2<T, N> {}
""" + sd("G<T>", "T") + sd("G2<T, N>", "T, const N: usize") + """
    #[typetag::serde]
    impl Outer for G<u8> {}
    #[typetag::serde(name = "g2")]
    impl Outer for self::G2<u8, 3> {}
    pub const CONST_Z: &str = "z";
    pub mod inner {
        pub struct D; pub struct E; pub struct F; pub struct K;
""" + sd("D") + sd("E") + sd("F") + sd("K") + """
        impl super::NotRead for D {} impl super::NotRead for E {} impl super::NotRead for F {} impl super::NotRead for K {}
        #[typetag::serde]
        impl super::Outer for D {}
        macro_rules! imp { ($a:path, $t:ty) => { #[typetag::serde] impl $a for $t {} }; ($a:path, $t:ty, $l:expr) => { #[typetag::serde(name = $l)] impl $a for $t {} } }
        imp!(super::Outer, E);
        imp!(super::Outer, self::F, "mac");
        #[typetag::serde(name = super::CONST_Z)]
        impl super::Outer for K {}
    }
""")
# a trait written by a macro
extra("serde", ("int", "mac", "A"), "ByMacro", ("Sync",), [("A", None, "A")], """
    macro_rules! tr { ($v:vis $i:ident, $tag:literal, $s:path) => { #[typetag::serde(tag = $tag, default_variant = "A")] $v trait $i: $s {} } }
    tr!(pub ByMacro, "mac", Sync);
    pub struct A;
""" + sd("A") + """
    #[typetag::serde]
    impl ByMacro for A {}
""")
# literals written in other ways, names of one letter, odd identifiers
extra("serde", ("adj", "a\"b", "\n\t\\", "x", True), "Lits", ("Send",), [("_U", None, "_U"), ("x", None, "x"), ("Z", '"#"', "#")], r'''
    #[typetag::serde(tag = r#"a"b"#, content = "\n\t\\", deny_unknown_fields, default_variant = "\x78")]
    pub trait Lits: Send {}
    pub struct _U; pub struct x; pub struct Z;
''' + sd("_U") + sd("x") + sd("Z") + r'''
    #[typetag::serde]
    impl Lits for _U {}
    #[typetag::serde]
    impl Lits for x {}
    #[typetag::serde(name = "\u{23}")]
    impl Lits for Z {}
''')
# one mode for the trait, none of its own items; several traits for one type
extra("deserialize", ("ext",), "Two", ("Send", "Sync"), [("A", '"two"', "two")], """
    pub trait Other { fn typetag(&self) {} }
    #[typetag::deserialize]
    pub trait Two: Sync + std::fmt::Debug + Other + Send where Self: Sync {}
    #[derive(Debug)] pub struct A;
    impl Other for A {}
""" + sd("A", ser=False) + """
    #[typetag::deserialize(name = "two")]
    impl Two for A {}
""")
# nothing registered, many registered
extra("serde", ("int", "t", "none"), "Nothing", (), [], """
    #[typetag::serde(tag = "t", default_variant = "none")]
    pub trait Nothing {}
""")
many = [f"V{i}" for i in range(12)]
extra("serde", ("ext",), "Many", (), [(v, None, v) for v in many], """
    #[typetag::serde]
    pub trait Many { fn a(&self) -> u8 { 1 } }
""" + "".join(f"    pub struct {v};\n" + sd(v) + f"    #[typetag::serde]\n    impl Many for {v} {{ fn a(&self) -> u8 {{ 2 }} }}\n" for v in many))

open(f"{V}/fixture/src/lib.rs", "w").write("\n".join(src))
open(f"{V}/gen/gen.vc", "w").write("\n".join(vc) + "\n")
print(n, "modules")
