//! The attribute parser (/repo/impl/src): the functions that turn the arguments
//! of an attribute into a configuration, read from the source as it is written
//! and brought into the form the rest of the extractor reads. syn's parse stream
//! is passed by exclusive reference, `Token![..]` and `kw::..` become types, and
//! nothing is dropped from a function body.
use crate::ts;
use quote::format_ident;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

const ROOTS: &[&str] = &["TraitArgs", "ImplArgs", "has_supertrait", "type_name"];

fn tok(t: &proc_macro2::TokenStream) -> Ident {
    format_ident!(
        "{}",
        match t.to_string().as_str() {
            "=" => "Tok_eq".to_string(),
            "," => "Tok_comma".to_string(),
            "?" => "Tok_question".to_string(),
            s => format!("Tok_unknown_{}", s.chars().map(|c| if c.is_alphanumeric() { c } else { '_' }).collect::<String>()),
        }
    )
}

struct L;

impl L {
    fn path(p: &mut Path) {
        if p.segments.len() == 2 && p.segments[0].ident == "kw" {
            let w = format_ident!("kw_{}", p.segments[1].ident);
            *p = parse_quote!(#w);
        }
    }
}

impl VisitMut for L {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        Self::path(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Macro(m) = t {
            if m.mac.path.is_ident("Token") {
                let i = tok(&m.mac.tokens);
                *t = parse_quote!(#i);
                return;
            }
        }
        if let Type::Path(p) = t {
            if p.path.is_ident("ParseStream") {
                *t = parse_quote!(&mut Stream);
                return;
            }
            let s = p.path.segments.last_mut().unwrap();
            if s.ident == "Result" {
                if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                    if a.args.len() == 1 {
                        a.args.push(parse_quote!(SynErr));
                    }
                }
                let a = s.arguments.clone();
                let mut q: Path = parse_quote!(core::result::Result);
                q.segments.last_mut().unwrap().arguments = a;
                p.path = q;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::MethodCall(m) = e {
            if m.method == "peek" && m.args.len() == 1 {
                let ty: Option<Type> = match &m.args[0] {
                    Expr::Path(p) => {
                        let mut p = p.path.clone();
                        Self::path(&mut p);
                        Some(parse_quote!(#p))
                    }
                    Expr::Macro(k) if k.mac.path.is_ident("Token") => {
                        let i = tok(&k.mac.tokens);
                        Some(parse_quote!(#i))
                    }
                    _ => None,
                };
                if let Some(t) = ty {
                    m.args.clear();
                    m.turbofish = Some(parse_quote!(::<#t>));
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn names(i: &Item) -> Option<String> {
    Some(match i {
        Item::Fn(f) => f.sig.ident.to_string(),
        Item::Struct(s) => s.ident.to_string(),
        Item::Enum(s) => s.ident.to_string(),
        Item::Const(s) => s.ident.to_string(),
        Item::Impl(i) => ts(&i.self_ty),
        _ => return None,
    })
}

pub fn lower(dir: &str) -> (Vec<Item>, String, Vec<String>) {
    let mut kept = vec![];
    let mut extra = String::new();
    let mut notes = vec![];
    for file in ["parse.rs", "tagged_trait.rs", "tagged_impl.rs"] {
        let Ok(text) = std::fs::read_to_string(format!("{dir}/{file}")) else {
            notes.push(format!("attr: no {file}"));
            continue;
        };
        let Ok(f) = parse_file(&text) else {
            notes.push(format!("attr: {file} is not read"));
            continue;
        };
        let mut by: BTreeMap<String, Vec<Item>> = BTreeMap::new();
        for it in f.items {
            if let Item::Mod(m) = &it {
                if m.ident == "kw" {
                    for k in m.content.iter().flat_map(|c| &c.1) {
                        if let Item::Macro(k) = k {
                            if k.mac.path.segments.last().unwrap().ident == "custom_keyword" {
                                let w = k.mac.tokens.to_string();
                                extra.push_str(&format!(
                                    "pub struct kw_{w} {{ }}\n\
                                     impl Parsed for kw_{w} {{ open spec fn takes(before: Seq<Tok>, r: Result<Self, SynErr>, after: Seq<Tok>) -> bool {{ takes_one(word(before, 0, \"{w}\"@), before, r is Ok, after) }} }}\n\
                                     impl Peeked for kw_{w} {{ open spec fn ahead(t: Seq<Tok>) -> bool {{ word(t, 0, \"{w}\"@) }} }}\n"
                                ));
                            }
                        }
                    }
                }
                continue;
            }
            if let Some(n) = names(&it) {
                by.entry(n).or_default().push(it);
            }
        }
        // what the roots reach in this file
        let mut todo: Vec<String> = ROOTS.iter().filter(|r| by.contains_key(**r)).map(|r| r.to_string()).collect();
        let mut seen = BTreeSet::new();
        while let Some(n) = todo.pop() {
            if !seen.insert(n.clone()) {
                continue;
            }
            struct V<'a>(&'a BTreeMap<String, Vec<Item>>, &'a mut Vec<String>);
            impl<'a> Visit<'a> for V<'_> {
                fn visit_ident(&mut self, i: &'a Ident) {
                    let n = i.to_string();
                    if self.0.contains_key(&n) {
                        self.1.push(n);
                    }
                }
            }
            for it in &by[&n] {
                V(&by, &mut todo).visit_item(it);
            }
        }
        for n in &seen {
            for it in &by[n] {
                let mut it = it.clone();
                if let Item::Impl(im) = &mut it {
                    if let Some((_, p, _)) = &im.trait_ {
                        if p.segments.last().unwrap().ident != "Parse" {
                            continue;
                        }
                        im.trait_ = None;
                    }
                }
                L.visit_item_mut(&mut it);
                kept.push(it);
            }
        }
    }
    (kept, extra, notes)
}
