//! Generated code: what typetag's attribute macros expand to for the traits and
//! implementations of /verif/fixture, brought into the form the rest of the
//! extractor reads. Trait objects become opaque types, one per set of markers;
//! nothing is dropped from a function body.
use crate::ts;
use quote::{format_ident, quote};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Lowered {
    pub name: String,
    pub items: Vec<Item>,
    /// declarations of the opaque types
    pub extra: String,
    pub notes: Vec<String>,
}

struct L {
    trait_name: String,
    /// bare object -> strictest object
    strictest: BTreeMap<String, String>,
    dyns: BTreeSet<String>,
    locals: BTreeMap<String, String>,
    inner_mods: BTreeSet<String>,
    /// `Box<dyn ..>` the function being read belongs to
    cur_box: Option<String>,
    in_submit: bool,
    notes: Vec<String>,
}

fn dyn_name(t: &TypeTraitObject) -> Option<String> {
    let mut base = None;
    let mut marks = BTreeSet::new();
    for b in &t.bounds {
        match b {
            TypeParamBound::Lifetime(_) => {}
            TypeParamBound::Trait(t) => {
                let n = t.path.segments.last().unwrap().ident.to_string();
                if n == "Send" || n == "Sync" {
                    marks.insert(n);
                } else if base.is_none() {
                    base = Some(n);
                } else {
                    return None;
                }
            }
            _ => return None,
        }
    }
    let mut s = format!("Dyn_{}", base?);
    for m in marks {
        s.push('_');
        s.push_str(&m);
    }
    Some(s)
}

fn private_at(p: &Path) -> bool {
    p.segments.len() >= 2 && p.segments[0].ident == "typetag" && p.segments[1].ident.to_string().starts_with("__private")
}

impl L {
    /// `typetag::__privateN::X..` as the extracted code names it
    fn fix(&self, p: &mut Path) {
        // the fixture's inner modules are flattened into one
        while p.segments.len() > 1 && (p.segments[0].ident == "super" || p.segments[0].ident == "self") {
            p.segments = p.segments.iter().skip(1).cloned().collect();
        }
        if private_at(p) {
            let rest: Vec<PathSegment> = p.segments.iter().skip(2).cloned().collect();
            let first = rest[0].ident.to_string();
            let head: &[&str] = match first.as_str() {
                "externally" | "internally" | "adjacently" | "erased_serde" => &["crate"],
                "serde" => &[],
                "Registry" => &["crate", "private"],
                "BTreeMap" | "DeserializeFn" | "BTreeMapEntry" | "btree_map" | "once_cell" => &["crate", "shim"],
                _ => &[],
            };
            let mut segs: Vec<PathSegment> = head.iter().map(|h| PathSegment::from(Ident::new(h, proc_macro2::Span::call_site()))).collect();
            let tail: Vec<PathSegment> = match first.as_str() {
                "btree_map" => rest[1..].to_vec(),
                "once_cell" => rest[rest.len().min(2)..].to_vec(),
                _ => rest,
            };
            segs.extend(tail);
            p.leading_colon = None;
            p.segments = segs.into_iter().collect();
        } else if p.segments.len() > 1 && self.inner_mods.contains(&p.segments[0].ident.to_string()) {
            let last = p.segments.last().unwrap().clone();
            *p = parse_quote!(#last);
        }
    }

    fn dyn_of(&self, t: &Type) -> Option<String> {
        match t {
            Type::TraitObject(t) => dyn_name(t),
            Type::Paren(p) => self.dyn_of(&p.elem),
            Type::Group(p) => self.dyn_of(&p.elem),
            Type::Path(p) if p.qself.is_none() => p.path.get_ident().map(|i| i.to_string()).filter(|n| n.starts_with("Dyn_")),
            _ => None,
        }
    }

    fn boxed(&self, t: &Type) -> Option<String> {
        let Type::Path(p) = t else { return None };
        let s = p.path.segments.last()?;
        if s.ident != "Box" {
            return None;
        }
        let PathArguments::AngleBracketed(a) = &s.arguments else { return None };
        let Some(GenericArgument::Type(t)) = a.args.first() else { return None };
        if let Type::Path(q) = t {
            // <dyn X as Strictest>::Object
            if let Some(qs) = &q.qself {
                let d = self.dyn_of(&qs.ty)?;
                return self.strictest.get(&d).cloned();
            }
            if q.path.is_ident("TypetagStrictest") {
                return self.strictest.values().next().cloned();
            }
        }
        self.dyn_of(t)
    }
}

impl L {
    /// The trait object an expression is, where that can be seen.
    fn dyn_expr(&self, e: &Expr) -> Option<String> {
        match e {
            Expr::Cast(k) => match &*k.ty {
                Type::Reference(r) => self.dyn_of(&r.elem),
                _ => None,
            },
            Expr::Paren(p) => self.dyn_expr(&p.expr),
            Expr::Path(p) => self.locals.get(&p.path.get_ident()?.to_string()).cloned(),
            _ => None,
        }
    }
}

impl VisitMut for L {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        self.fix(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Paren(p) = t {
            *t = (*p.elem).clone();
        }
        if let Type::TraitObject(o) = t {
            if let Some(n) = dyn_name(o) {
                self.dyns.insert(n.clone());
                let i = Ident::new(&n, proc_macro2::Span::call_site());
                *t = parse_quote!(#i);
                return;
            }
        }
        if let Type::Path(p) = t {
            if let Some(q) = &p.qself {
                if p.path.segments.last().unwrap().ident == "Object" {
                    if let Some(s) = self.dyn_of(&q.ty).and_then(|d| self.strictest.get(&d)) {
                        let i = Ident::new(s, proc_macro2::Span::call_site());
                        *t = parse_quote!(#i);
                        return;
                    }
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        for s in &mut b.stmts {
            // a local that is a trait object
            if let Stmt::Local(l) = s {
                let named = match &l.pat {
                    Pat::Type(t) => match (&*t.pat, &*t.ty) {
                        (Pat::Ident(i), Type::Reference(r)) => self.dyn_of(&r.elem).map(|d| (i.ident.to_string(), d)),
                        _ => None,
                    },
                    _ => None,
                };
                if let (Some((i, d)), Some(init)) = (named, &mut l.init) {
                    if self.dyn_expr(&init.expr).is_none() {
                        self.dyns.insert(d.clone());
                        let m = format_ident!("as_{}", d);
                        let x = &init.expr;
                        *init.expr = parse_quote!((#x).#m());
                    }
                    self.locals.insert(i, d);
                } else if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                    match self.dyn_expr(&init.expr) {
                        Some(d) => self.locals.insert(i.ident.to_string(), d),
                        None => self.locals.remove(&i.ident.to_string()),
                    };
                }
            }
            // a static that only this function sees
            if let Stmt::Item(Item::Static(st)) = s {
                let (i, t, e) = (&st.ident, &st.ty, &st.expr);
                *s = parse_quote!(let #i: #t = #e;);
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
        self.locals.clear();
        visit_mut::visit_impl_item_fn_mut(self, f);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // what an implementation's type makes of a trait object's method
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let last = p.path.segments.last().unwrap().ident.to_string();
                let n = p.path.segments.len();
                if last == "typetag_name" {
                    let a = &c.args;
                    *e = parse_quote!(Self::typetag_name(#a));
                    return visit_mut::visit_expr_mut(self, e);
                }
                // Serialize::serialize(x as &dyn Y, s), <dyn Y as Serialize>::serialize(x, s)
                if last == "serialize" && n >= 2 && p.path.segments[n - 2].ident == "Serialize" && c.args.len() == 2 {
                    let q = p.qself.as_ref().and_then(|q| self.dyn_of(&q.ty));
                    let d = c.args.first().and_then(|a| self.dyn_expr(a));
                    let (x, s) = (&c.args[0], &c.args[1]);
                    *e = match (q, d) {
                        (Some(q), None) => {
                            self.dyns.insert(q.clone());
                            let (q, m) = (format_ident!("{}", q), format_ident!("as_{}", q));
                            parse_quote!(#q::Serialize__serialize((#x).#m(), #s))
                        }
                        (q, Some(d)) if q.is_none() || q.as_ref() == Some(&d) => {
                            let d = format_ident!("{}", d);
                            parse_quote!(#d::Serialize__serialize(#x, #s))
                        }
                        _ => parse_quote!(crate::shim::serialize_of_what(#x, #s)),
                    };
                    return visit_mut::visit_expr_mut(self, e);
                }
                // <Box<dyn Y> as Deserialize>::deserialize(d)
                if let Some(q) = &p.qself {
                    if last == "deserialize" {
                        if let Some(d) = self.boxed(&q.ty) {
                            let f = format_ident!("deserialize_{}", d);
                            self.dyns.insert(d.clone());
                            let a = &c.args;
                            *e = match &self.cur_box {
                                Some(t) if *t != d => {
                                    let up = format_ident!("unsize_{}_{}", d, t);
                                    parse_quote!(#up(#f(#a)))
                                }
                                _ => parse_quote!(#f(#a)),
                            };
                            return visit_mut::visit_expr_mut(self, e);
                        }
                    }
                }
                if self.in_submit && last == "new" && n >= 2 && p.path.segments[n - 2].ident == "Box" {
                    let a = &c.args;
                    *e = parse_quote!(crate::shim::new_dyn(#a));
                    return visit_mut::visit_expr_mut(self, e);
                }
            }
        }
        // x.serialize(s)
        if let Expr::MethodCall(m) = e {
            if m.method == "serialize" && m.args.len() == 1 {
                let (x, s) = (&m.receiver, &m.args[0]);
                *e = match self.dyn_expr(x) {
                    Some(d) => {
                        let d = format_ident!("{}", d);
                        parse_quote!(#d::Serialize__serialize(#x, #s))
                    }
                    None => parse_quote!(crate::shim::serialize_of_what(#x, #s)),
                };
                return visit_mut::visit_expr_mut(self, e);
            }
        }
        match e {
            Expr::Path(p) if p.qself.is_some() => {
                if let Some(d) = self.dyn_of(&p.qself.as_ref().unwrap().ty) {
                    let d = Ident::new(&d, proc_macro2::Span::call_site());
                    let rest: Vec<PathSegment> = p.path.segments.iter().skip(p.qself.as_ref().unwrap().position).cloned().collect();
                    *e = parse_quote!(#d #(::#rest)*);
                    return visit_mut::visit_expr_mut(self, e);
                }
            }
            // inventory::iter::<T>
            Expr::Path(p) => {
                let n = p.path.segments.len();
                if n >= 2 && p.path.segments[n - 1].ident == "iter" && p.path.segments[n - 2].ident == "inventory" {
                    let a = p.path.segments[n - 1].arguments.clone();
                    let mut q: Path = parse_quote!(crate::shim::inventory_iter);
                    q.segments.last_mut().unwrap().arguments = a;
                    *e = parse_quote!(#q());
                    return visit_mut::visit_expr_mut(self, e);
                }
            }
            Expr::Cast(k) => {
                if let Type::Reference(r) = &*k.ty {
                    if let Some(d) = self.dyn_of(&r.elem) {
                        self.dyns.insert(d.clone());
                        let m = format_ident!("as_{}", d);
                        let x = &k.expr;
                        *e = parse_quote!((#x).#m());
                        return visit_mut::visit_expr_mut(self, e);
                    }
                }
                if self.boxed(&k.ty).is_some() {
                    *e = (*k.expr).clone();
                    return self.visit_expr_mut(e);
                }
                if let Type::Path(p) = &*k.ty {
                    let s = p.path.segments.last().unwrap();
                    if s.ident == "DeserializeFn" || s.ident == "TypetagFn" {
                        let mut x = (*k.expr).clone();
                        while let Expr::Paren(q) = x {
                            x = *q.expr;
                        }
                        if let Expr::Closure(c) = &mut x {
                            if let Some(p) = c.inputs.first().cloned() {
                                let p = match p {
                                    Pat::Type(t) => *t.pat,
                                    p => p,
                                };
                                let b = &c.body;
                                *c.body = parse_quote!({ let #p = __d; #b });
                                let i: PatType = PatType { attrs: vec![], pat: Box::new(Pat::Ident(PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: format_ident!("__d"), subpat: None })), colon_token: Default::default(), ty: parse_quote!(crate::shim::ErasedD) };
                                c.inputs = std::iter::once(Pat::Type(i)).collect();
                            }
                        }
                        let args = match &s.arguments {
                            PathArguments::AngleBracketed(a) => {
                                let t = a.args.first().unwrap();
                                quote!(::<#t, _>)
                            }
                            _ => quote!(),
                        };
                        let f: Expr = parse2(quote!(crate::shim::fn_of #args)).unwrap();
                        *e = parse_quote!(#f(#x));
                        return visit_mut::visit_expr_mut(self, e);
                    }
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if matches!(n.as_str(), "sort" | "sort_unstable") && m.args.is_empty() {
                    m.method = format_ident!("v_{}", n);
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_generics_mut(&mut self, g: &mut Generics) {
        let keep: Vec<GenericParam> = g
            .params
            .iter()
            .filter(|p| !matches!(p, GenericParam::Lifetime(l) if l.lifetime.ident == "typetag"))
            .cloned()
            .collect();
        g.params = keep.into_iter().collect();
        visit_mut::visit_generics_mut(self, g);
    }
}

fn last(p: &Path) -> String {
    p.segments.last().unwrap().ident.to_string()
}

fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => last(&p.path),
        Type::Group(g) => ty_name(&g.elem),
        Type::Paren(g) => ty_name(&g.elem),
        t => ts(t).chars().map(|c| if c.is_alphanumeric() { c } else { '_' }).collect(),
    }
}

pub fn lower(name: &str, items: &[Item]) -> Lowered {
    let mut l = L {
        trait_name: String::new(),
        strictest: BTreeMap::new(),
        dyns: BTreeSet::new(),
        inner_mods: BTreeSet::new(),
        cur_box: None,
        in_submit: false,
        notes: vec![],
        locals: BTreeMap::new(),
    };
    // flatten `const _: () = { .. }` and inner modules
    let mut flat: Vec<Item> = vec![];
    fn flatten(l: &mut L, items: &[Item], out: &mut Vec<Item>) {
        for it in items {
            match it {
                Item::Const(c) if c.ident == "_" => {
                    if let Expr::Block(b) = &*c.expr {
                        let inner: Vec<Item> = b
                            .block
                            .stmts
                            .iter()
                            .filter_map(|s| match s {
                                Stmt::Item(i) => Some(i.clone()),
                                _ => None,
                            })
                            .collect();
                        flatten(l, &inner, out);
                    }
                }
                Item::Mod(m) => {
                    l.inner_mods.insert(m.ident.to_string());
                    if let Some((_, i)) = &m.content {
                        flatten(l, i, out);
                    }
                }
                i => out.push(i.clone()),
            }
        }
    }
    flatten(&mut l, items, &mut flat);
    for it in &flat {
        match it {
            Item::Trait(t) => l.trait_name = t.ident.to_string(),
            Item::Impl(im) => {
                if let Some((_, p, _)) = &im.trait_ {
                    if last(p) == "Strictest" {
                        for ii in &im.items {
                            if let ImplItem::Type(t) = ii {
                                if let (Some(a), Some(b)) = (l.dyn_of(&im.self_ty), l.dyn_of(&t.ty)) {
                                    l.strictest.insert(a, b);
                                }
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    let mut out: Vec<Item> = vec![];
    let mut current = String::from("none");
    for it in flat {
        match it {
            Item::Use(_) | Item::Trait(_) | Item::Macro(_) | Item::ExternCrate(_) => {}
            Item::Impl(im) => {
                let Some((_, p, _)) = im.trait_.clone() else {
                    let mut im = im;
                    for ii in &mut im.items {
                        if let ImplItem::Fn(f) = ii {
                            f.sig.constness = None;
                        }
                    }
                    l.visit_item_impl_mut(&mut im);
                    out.push(Item::Impl(im));
                    continue;
                };
                let tn = last(&p);
                if tn == "Strictest" || tn == "Collect" {
                    continue;
                }
                if tn == "Serialize" || tn == "Deserialize" {
                    if l.dyn_of(&im.self_ty).is_some() {
                        let mut im = im;
                        // an opaque object has no parameters
                        im.generics = Generics::default();
                        l.visit_item_impl_mut(&mut im);
                        out.push(Item::Impl(im));
                    } else if let Some(d) = l.boxed(&im.self_ty) {
                        l.dyns.insert(d.clone());
                        for ii in im.items.clone() {
                            let ImplItem::Fn(f) = ii else { continue };
                            let mut f2 = ItemFn { attrs: vec![], vis: parse_quote!(pub), sig: f.sig, block: Box::new(f.block) };
                            f2.sig.ident = format_ident!("{}_{}", f2.sig.ident, d);
                            for g in im.generics.params.iter().rev() {
                                f2.sig.generics.params.insert(0, g.clone());
                            }
                            l.cur_box = Some(d.clone());
                            struct SelfTo(Ident);
                            impl VisitMut for SelfTo {
                                fn visit_type_mut(&mut self, t: &mut Type) {
                                    if let Type::Path(p) = t {
                                        if p.qself.is_none() && p.path.is_ident("Self") {
                                            let i = &self.0;
                                            *t = parse_quote!(Box<#i>);
                                            return;
                                        }
                                    }
                                    visit_mut::visit_type_mut(self, t);
                                }
                            }
                            l.visit_item_fn_mut(&mut f2);
                            SelfTo(Ident::new(&d, proc_macro2::Span::call_site())).visit_item_fn_mut(&mut f2);
                            l.cur_box = None;
                            out.push(Item::Fn(f2));
                        }
                    }
                    // a concrete type's own code is not looked at
                    continue;
                }
                if tn == l.trait_name {
                    current = ty_name(&im.self_ty);
                    for ii in im.items.clone() {
                        let ImplItem::Fn(f) = ii else { continue };
                        if f.sig.ident != "typetag_name" {
                            continue;
                        }
                        let ty = &im.self_ty;
                        let id = format_ident!("typetag_name__{}", current);
                        let (ret, b) = (&f.sig.output, &f.block);
                        // the parameters of the implementation, without their bounds
                        let mut g = im.generics.clone();
                        g.where_clause = None;
                        for p in &mut g.params {
                            match p {
                                GenericParam::Type(t) => t.bounds.clear(),
                                GenericParam::Lifetime(l) => l.bounds.clear(),
                                GenericParam::Const(_) => {}
                            }
                        }
                        let ts_ = ts(ty);
                        g.params = g
                            .params
                            .into_iter()
                            .filter(|p| match p {
                                GenericParam::Type(t) => ts_.split_whitespace().any(|w| t.ident == w),
                                GenericParam::Lifetime(l) => ts_.split_whitespace().any(|w| l.lifetime.to_string() == w),
                                GenericParam::Const(c) => ts_.split_whitespace().any(|w| c.ident == w),
                            })
                            .collect();
                        let mut f2: ItemFn = parse_quote!(pub fn #id #g (this: &#ty) #ret #b);
                        l.visit_item_fn_mut(&mut f2);
                        out.push(Item::Fn(f2));
                    }
                    continue;
                }
                l.notes.push(format!("{}: impl of {} ignored", name, tn));
            }
            Item::Static(st) if st.ident == "__INVENTORY" => {
                let Expr::Struct(s) = &*st.expr else { continue };
                let Some(v) = s.fields.iter().find(|f| ts(&f.member) == "value") else { continue };
                let mut e = v.expr.clone();
                while let Expr::Reference(r) = e {
                    e = *r.expr;
                }
                let id = format_ident!("submit__{}", current);
                let mut f: ItemFn = parse_quote!(pub fn #id() -> TypetagRegistration<TypetagFn> { #e });
                l.in_submit = true;
                l.visit_item_fn_mut(&mut f);
                l.in_submit = false;
                out.push(Item::Fn(f));
            }
            Item::Static(_) => {}
            Item::Fn(f) if f.sig.ident == "__ctor" => {}
            mut other => {
                l.visit_item_mut(&mut other);
                out.push(other);
            }
        }
    }
    let mut x = String::new();
    for d in &l.dyns {
        x.push_str(&format!(
            "#[verifier::external_body] pub struct {d} {{ x: u8 }}\n\
             impl crate::erased_serde::Serialize for {d} {{ uninterp spec fn eval(&self) -> SVal; uninterp spec fn etells(&self) -> bool; }}\n\
             impl {d} {{\n\
             /// what the implementation's typetag_name returns\n\
             pub uninterp spec fn name(&self) -> Seq<char>;\n\
             #[verifier::external_body] pub fn typetag_name(&self) -> (r: &'static str) ensures r@ == self.name() {{ unimplemented!() }}\n"
        ));
        for e in &l.dyns {
            x.push_str(&format!(
                "#[verifier::external_body] pub fn as_{e}(&self) -> (r: &{e}) ensures r.name() == self.name(), crate::erased_serde::Serialize::eval(r) == crate::erased_serde::Serialize::eval(self), crate::erased_serde::Serialize::etells(r) == crate::erased_serde::Serialize::etells(self) {{ unimplemented!() }}\n"
            ));
        }
        x.push_str("}\n");
        for e in &l.dyns {
            if d != e {
                x.push_str(&format!(
                    "pub uninterp spec fn unsized_{d}_{e}(b: Box<{d}>) -> Box<{e}>;\n\
                     #[verifier::external_body] pub fn unsize_{d}_{e}<E>(r: Result<Box<{d}>, E>) -> (q: Result<Box<{e}>, E>)\n\
                     ensures match r {{ Ok(b) => q == Result::<Box<{e}>, E>::Ok(unsized_{d}_{e}(b)), Err(k) => q == Result::<Box<{e}>, E>::Err(k) }} {{ unimplemented!() }}\n"
                ));
            }
        }
    }
    Lowered { name: name.to_string(), items: out, extra: x, notes: l.notes }
}
