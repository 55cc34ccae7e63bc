//! Implementations of serde's traits for types of the standard library, and the
//! helpers serde_core brings, read from serde_core's expanded source: the
//! serializers of plain values, `Impossible`, the deserializers of `()`, `String`
//! and a `PhantomData` seed, and `()` as a deserializer. Method bodies are taken
//! as they are; paths into serde_core become paths into the same traits.
use crate::ts;
use syn::visit_mut::{self, VisitMut};
use syn::*;

const SER: &[&str] = &[
    "bool", "i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128", "f32", "f64", "char", "str", "String", "()", "Option<T>",
    "[T;0]", "&'aT", "Box<T>", "Vec<T>", "[T]",
];
const DE: &[&str] = &["()", "String", "UnitVisitor", "StringVisitor", "PhantomData<T>", "UnitDeserializer<E>"];

struct L;
impl VisitMut for L {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        let names: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let skip = match names.iter().map(String::as_str).collect::<Vec<_>>()[..] {
            ["crate", "__private", "Result"] => 2,
            _ => 0,
        };
        if names.len() > 2 && names[0] == "crate" && (names[1] == "de" || names[1] == "ser") {
            p.segments[0].ident = parse_quote!(serde);
        }
        if skip > 0 {
            p.segments = p.segments.iter().skip(skip).cloned().collect();
        }
        match names.iter().map(String::as_str).collect::<Vec<_>>()[..] {
            ["str", "from_utf8"] => *p = parse_quote!(crate::shim::str_from_utf8),
            ["String", "from_utf8"] => *p = parse_quote!(crate::shim::string_from_utf8),
            _ => {}
        }
        visit_mut::visit_path_mut(self, p);
    }
}

/// `match x { Ok(v) => v, Err(e) => return Err(e) }` is `x?`.
struct Q;
impl VisitMut for Q {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Match(m) = e {
            let arms: Vec<String> = m.arms.iter().map(|a| format!("{}=>{}", ts(&a.pat), ts(&a.body)).replace(' ', "")).collect();
            if arms == ["Ok(val)=>val", "Err(err)=>returnErr(err)"] {
                let x = &m.expr;
                *e = parse_quote!(#x?);
            }
        }
    }
}

/// `serializer.collect_seq(self)` by the body of the trait's own `collect_seq`.
struct Collect(Block);
impl VisitMut for Collect {
    fn visit_block_mut(&mut self, b: &mut Block) {
        if b.stmts.len() == 1 && ts(&b.stmts[0]).replace(' ', "") == "serializer.collect_seq(self)" {
            struct S;
            impl VisitMut for S {
                fn visit_path_mut(&mut self, p: &mut Path) {
                    if p.is_ident("self") {
                        *p = parse_quote!(__to);
                    }
                    visit_mut::visit_path_mut(self, p);
                }
            }
            let mut n = self.0.clone();
            S.visit_block_mut(&mut n);
            Q.visit_block_mut(&mut n);
            n.stmts.insert(0, parse_quote!(let __to = serializer;));
            n.stmts.insert(1, parse_quote!(let iter = self;));
            *b = n;
        }
    }
}

/// serde's `iterator_len_hint`, for the one kind of iterator it is used with here.
fn len_hint(ser: &[Item]) -> Option<Item> {
    let mut f = ser.iter().find_map(|i| match i {
        Item::Fn(f) if f.sig.ident == "iterator_len_hint" => Some(f.clone()),
        _ => None,
    })?;
    let n = f.sig.generics.type_params().next()?.ident.clone();
    f.sig.generics = parse_quote!(<'a, T>);
    f.sig.inputs = f
        .sig
        .inputs
        .into_iter()
        .map(|mut a| {
            if let FnArg::Typed(t) = &mut a {
                if ts(&t.ty) == format!("& {n}") {
                    t.ty = parse_quote!(&crate::shim::RefIter<'a, T>);
                }
            }
            a
        })
        .collect();
    f.attrs.clear();
    Some(Item::Fn(f))
}

fn collect_seq(ser: &[Item]) -> Option<Block> {
    ser.iter().find_map(|i| match i {
        Item::Trait(t) if t.ident == "Serializer" => t.items.iter().find_map(|i| match i {
            TraitItem::Fn(f) if f.sig.ident == "collect_seq" && f.sig.inputs.len() == 2 && ts(&f.sig.inputs[1]).starts_with("iter :") => f.default.clone(),
            _ => None,
        }),
        _ => None,
    })
}

fn find<'a>(items: &'a [Item], name: &str) -> &'a [Item] {
    for it in items {
        if let Item::Mod(m) = it {
            if m.ident == name {
                return m.content.as_ref().map(|c| &c.1[..]).unwrap_or(&[]);
            }
        }
    }
    &[]
}

fn take(from: &[Item], types: &[&str], traits: &[&str], out: &mut Vec<Item>) {
    for it in from {
        let mut it = it.clone();
        match &mut it {
            Item::Struct(s) => {
                let n = s.ident.to_string();
                if !types.iter().any(|t| t.split('<').next().unwrap() == n) {
                    continue;
                }
            }
            Item::Enum(s) => {
                if !types.contains(&s.ident.to_string().as_str()) {
                    continue;
                }
            }
            Item::Impl(im) => {
                let tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string()).unwrap_or_default();
                if !traits.contains(&tr.as_str()) {
                    continue;
                }
                if !types.contains(&ts(&im.self_ty).replace(' ', "").as_str()) {
                    continue;
                }
                if let Type::Reference(r) = &mut *im.self_ty {
                    if r.lifetime.is_none() {
                        r.lifetime = Some(parse_quote!('__a));
                        im.generics.params.insert(0, parse_quote!('__a));
                    }
                }
                if traits.contains(&"SeqAccess") {
                    // the traits are Sized here
                    for p in im.generics.where_clause.iter_mut().flat_map(|w| w.predicates.iter_mut()) {
                        if let WherePredicate::Type(t) = p {
                            t.bounds = t.bounds.iter().filter(|b| !matches!(b, TypeParamBound::Trait(t) if matches!(t.modifier, TraitBoundModifier::Maybe(_)))).cloned().collect();
                        }
                    }
                }
                im.items.retain(|i| !matches!(i, ImplItem::Fn(f) if f.sig.ident == "deserialize_in_place"));
            }
            _ => continue,
        }
        L.visit_item_mut(&mut it);
        out.push(it);
    }
}

/// (module, items)
pub fn lower(expanded: &str) -> (Vec<(&'static str, Vec<Item>)>, Vec<String>) {
    let Ok(f) = parse_file(expanded) else {
        return (vec![], vec!["serde_core's expanded source is not read".into()]);
    };
    let ser = find(&f.items, "ser");
    let de = find(&f.items, "de");
    let mut a: Vec<Item> = vec![
        parse_quote!(use serde::ser::{self, Serialize, Serializer, SerializeSeq, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, SerializeMap, SerializeStruct, SerializeStructVariant};),
        parse_quote!(use core::marker::PhantomData;),
    ];
    a.extend(len_hint(ser));
    take(find(ser, "impls"), SER, &["Serialize"], &mut a);
    if let Some(b) = collect_seq(ser) {
        let mut c = Collect(b);
        for i in &mut a {
            c.visit_item_mut(i);
        }
    }
    take(
        find(ser, "impossible"),
        &["Impossible<Ok,Error>", "Void"],
        &["SerializeSeq", "SerializeTuple", "SerializeTupleStruct", "SerializeTupleVariant", "SerializeMap", "SerializeStruct", "SerializeStructVariant"],
        &mut a,
    );
    let mut b: Vec<Item> = vec![
        parse_quote!(use serde::de::{self, Deserialize, DeserializeSeed, Deserializer, Error, IntoDeserializer, MapAccess, SeqAccess, Unexpected, Visitor};),
        parse_quote!(use core::marker::PhantomData;),
    ];
    let own: Vec<&str> = DE.iter().copied().filter(|t| !t.contains('<')).collect();
    take(find(de, "impls"), &own, &["Deserialize", "Visitor"], &mut b);
    take(de, DE, &["DeserializeSeed"], &mut b);
    take(de, &["&mutA"], &["SeqAccess", "MapAccess"], &mut b);
    take(find(de, "value"), &["UnitDeserializer<E>"], &["Deserializer", ""], &mut b);
    take(find(de, "value"), &["()"], &["IntoDeserializer"], &mut b);
    (vec![("core_ser", a), ("core_de", b)], vec![])
}
