//! serde_core's SeqDeserializer and MapDeserializer (src/de/value.rs), which the
//! buffered content deserializer hands its sequences and maps to. The source is
//! read as it is written, with the iterator fixed to the one typetag passes (a
//! vector's elements through `map`): `I` becomes MapIter<U> or MapIter<(A, B)>,
//! `First<I::Item>` and `Second<I::Item>` become A and B, `Fuse<I>` becomes the
//! iterator itself and `Pair::split` of a pair the pair. Only the functions that
//! typetag's use reaches are read: new, end, next_pair and the access traits'
//! methods.
use crate::ts;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct L {
    map: bool,
}

impl L {
    fn last(p: &Path) -> String {
        p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
    }
    fn ours(n: &str) -> bool {
        n == "SeqDeserializer" || n == "MapDeserializer"
    }
    fn generics(&self, g: &mut Generics, own: bool) {
        let keep: Vec<GenericParam> = g
            .params
            .iter()
            .filter(|p| match p {
                GenericParam::Type(t) => !["I", "T"].contains(&t.ident.to_string().as_str()),
                GenericParam::Lifetime(l) => !own && l.lifetime.ident == "de",
                _ => true,
            })
            .cloned()
            .collect();
        g.params.clear();
        for p in keep.iter().filter(|p| matches!(p, GenericParam::Lifetime(_))) {
            g.params.push(p.clone());
        }
        if self.map {
            g.params.push(parse_quote!(A));
            g.params.push(parse_quote!(B));
        } else {
            g.params.push(parse_quote!(U));
        }
        for p in keep.iter().filter(|p| !matches!(p, GenericParam::Lifetime(_))) {
            g.params.push(p.clone());
        }
        if let Some(w) = &mut g.where_clause {
            let keep: Vec<WherePredicate> = w
                .predicates
                .iter()
                .filter(|p| match p {
                    WherePredicate::Type(t) => !["I", "I :: Item"].contains(&ts(&t.bounded_ty).as_str()),
                    _ => true,
                })
                .cloned()
                .collect();
            w.predicates = keep.into_iter().collect();
            if w.predicates.is_empty() {
                g.where_clause = None;
            }
        }
    }
}

impl VisitMut for L {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            match (Self::last(&p.path).as_str(), ts(&*p)) {
                (_, s) if s == "I" => {
                    *t = if self.map { parse_quote!(MapIter<(A, B)>) } else { parse_quote!(MapIter<U>) };
                    return;
                }
                (_, s) if s.replace(' ', "") == "iter::Fuse<I>" => {
                    *t = if self.map { parse_quote!(MapIter<(A, B)>) } else { parse_quote!(MapIter<U>) };
                    return;
                }
                (_, s) if s.replace(' ', "") == "First<I::Item>" => {
                    *t = parse_quote!(A);
                    return;
                }
                (_, s) if s.replace(' ', "") == "Second<I::Item>" => {
                    *t = parse_quote!(B);
                    return;
                }
                (n, _) if Self::ours(n) => {
                    let map = self.map;
                    if let PathArguments::AngleBracketed(a) = &mut p.path.segments.last_mut().unwrap().arguments {
                        a.args = if map { parse_quote!(A, B, E) } else { parse_quote!(U, E) };
                    }
                    return;
                }
                _ => {}
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_where_predicate_mut(&mut self, w: &mut WherePredicate) {
        if let (WherePredicate::Type(t), false) = (&mut *w, self.map) {
            // `I: Iterator<Item = T>`, T: ..
            if ts(&t.bounded_ty) == "T" {
                t.bounded_ty = parse_quote!(U);
            }
        }
        visit_mut::visit_where_predicate_mut(self, w);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Macro(m) if m.mac.path.is_ident("tri") => {
                let x: Expr = parse2(m.mac.tokens.clone()).expect("tri!");
                let mut x = x;
                self.visit_expr_mut(&mut x);
                *e = parse_quote!(#x?);
            }
            Expr::Call(c) if ts(&c.func).replace(' ', "") == "private::Pair::split" && c.args.len() == 1 => {
                *e = c.args[0].clone();
            }
            Expr::MethodCall(m) if m.method == "expect" && m.args.len() == 1 => {
                let r = &m.receiver;
                *e = parse_quote!(crate::shim::or_panic(#r));
            }
            Expr::Struct(s) => {
                let keep: Vec<FieldValue> = s
                    .fields
                    .iter()
                    .filter(|f| !matches!(&f.member, Member::Named(n) if n == "lifetime"))
                    .cloned()
                    .collect();
                s.fields = keep.into_iter().collect();
            }
            _ => {}
        }
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        visit_mut::visit_field_value_mut(self, f);
    }
}

pub fn lower(serde: &str) -> (Vec<Item>, Vec<String>) {
    let path = format!("{serde}/de/value.rs");
    let Some(f) = std::fs::read_to_string(&path).ok().and_then(|t| parse_file(&t).ok()) else {
        return (vec![], vec![format!("value: {path} is not read")]);
    };
    let mut out: Vec<Item> = vec![
        parse_quote!(use serde::de::{self, DeserializeSeed, IntoDeserializer};),
        parse_quote!(use core::marker::PhantomData;),
    ];
    for mut it in f.items {
        match &mut it {
            Item::Struct(s) => {
                let n = s.ident.to_string();
                if n.starts_with("ExpectedIn") {
                    L { map: false }.visit_item_struct_mut(s);
                } else if L::ours(&n) {
                    let mut l = L { map: n.starts_with("Map") };
                    l.generics(&mut s.generics, true);
                    if let Fields::Named(fs) = &mut s.fields {
                        let keep: Vec<Field> = fs
                            .named
                            .iter()
                            .filter(|f| f.ident.as_ref().unwrap() != "lifetime")
                            .cloned()
                            .collect();
                        fs.named = keep.into_iter().collect();
                    }
                    l.visit_item_struct_mut(s);
                } else {
                    continue;
                }
            }
            Item::Impl(im) => {
                let Type::Path(p) = &*im.self_ty else { continue };
                let n = L::last(&p.path);
                if !L::ours(&n) {
                    continue;
                }
                let map = n.starts_with("Map");
                let tr = im.trait_.as_ref().map(|(_, p, _)| L::last(p));
                match (tr.as_deref(), map) {
                    (None, _) | (Some("SeqAccess"), false) | (Some("MapAccess"), true) => {}
                    _ => continue,
                }
                let mut l = L { map };
                l.generics(&mut im.generics, tr.is_none());
                im.items.retain(|i| !matches!(i, ImplItem::Fn(f) if f.sig.ident == "size_hint"));
                l.visit_item_impl_mut(im);
            }
            _ => continue,
        }
        out.push(it);
    }
    (out, vec![])
}
