//! Source-to-source steps that turn Rust the verifier does not read into Rust
//! it does, one construct at a time. Nothing here looks at what a function
//! means; every step is listed in DESIGN.md.
use crate::{ts, Cx, ImplCtx, Uses};
use quote::{format_ident, quote};
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Res,
    Opt,
    Iter,
    Other,
}

fn ty_kind(t: &Type) -> (Kind, Kind) {
    if let Type::Path(p) = t {
        let s = p.path.segments.last().unwrap();
        let k = match s.ident.to_string().as_str() {
            "Result" => Kind::Res,
            "Option" => Kind::Opt,
            _ => Kind::Other,
        };
        let mut inner = Kind::Other;
        if let PathArguments::AngleBracketed(a) = &s.arguments {
            if let Some(GenericArgument::Type(t)) = a.args.first() {
                inner = ty_kind(t).0;
            }
        }
        return (k, inner);
    }
    (Kind::Other, Kind::Other)
}

pub fn sig_kind(s: &Signature) -> Option<(Kind, Kind)> {
    match &s.output {
        ReturnType::Type(_, t) => Some(ty_kind(t)),
        _ => None,
    }
}

pub fn name_params(sig: &mut Signature) {
    for (i, a) in sig.inputs.iter_mut().enumerate() {
        if let FnArg::Typed(t) = a {
            t.attrs.clear();
            if matches!(&*t.pat, Pat::Wild(_)) {
                let id = format_ident!("_p{}", i);
                *t.pat = parse_quote!(#id);
            }
        }
    }
}

pub fn param_names(sig: &Signature) -> Vec<String> {
    sig.inputs
        .iter()
        .filter_map(|a| match a {
            FnArg::Typed(t) => Some(match &*t.pat {
                Pat::Ident(i) => i.ident.to_string(),
                _ => "_unnamed".into(),
            }),
            _ => None,
        })
        .collect()
}

/// Locals named by the role they play: `$vec` the first local made by
/// `Vec::new()`, `$vec2` the second, `$none` the first `let mut x = None`,
/// `$it`/`$it2` the first and second generated loop iterators, `$mac` the first
/// local built by a method call on a parameter followed by `?`.
pub fn role_names(b: &Block, out: &mut HashMap<String, String>) {
    struct R<'a> {
        vecs: usize,
        nones: usize,
        clos: usize,
        tries: usize,
        ctors: usize,
        calls: usize,
        out: &'a mut HashMap<String, String>,
    }
    impl<'ast> syn::visit::Visit<'ast> for R<'_> {
        fn visit_local(&mut self, l: &'ast Local) {
            let mut p = &l.pat;
            if let Pat::Type(t) = p {
                p = &t.pat;
            }
            if let (Pat::Ident(i), Some(init)) = (p, &l.init) {
                let (c, base) = match &*init.expr {
                    Expr::Call(c) if ts(&c.func).ends_with("BTreeMap :: new") => (1, "map"),
                    Expr::Call(c) if (ts(&c.func).ends_with("Vec :: new") || ts(&c.func).ends_with("Vec :: with_capacity")) => {
                        self.vecs += 1;
                        (self.vecs, "vec")
                    }
                    Expr::Path(p) if p.path.is_ident("None") => {
                        self.nones += 1;
                        (self.nones, "none")
                    }
                    Expr::Closure(_) => {
                        self.clos += 1;
                        (self.clos, "fun")
                    }
                    Expr::Try(_) => {
                        self.tries += 1;
                        (self.tries, "try")
                    }
                    Expr::Struct(_) => {
                        self.ctors += 1;
                        (self.ctors, "ctor")
                    }
                    Expr::MethodCall(_) | Expr::Call(_) => {
                        self.calls += 1;
                        (self.calls, "call")
                    }
                    _ => {
                        syn::visit::visit_local(self, l);
                        return;
                    }
                };
                let key = if c == 1 { base.to_string() } else { format!("{}{}", base, c) };
                self.out.insert(key, i.ident.to_string());
            }
            syn::visit::visit_local(self, l);
        }
    }
    let mut r = R { vecs: 0, nones: 0, clos: 0, tries: 0, ctors: 0, calls: 0, out };
    syn::visit::Visit::visit_block(&mut r, b);
    for k in 0..12 {
        out.insert(if k == 0 { "it".into() } else { format!("it{}", k + 1) }, format!("__it{}", k));
    }
}

/// `x.for_each(|p| b)` and `x.try_for_each(|p| b)?` as loops: the parameter and
/// the loop's body. Not if the closure returns early.
fn looped(m: &ExprMethodCall, tries: bool) -> Option<(Pat, Block)> {
    let Some(Expr::Closure(c)) = m.args.first() else { return None };
    if c.inputs.len() != 1 || m.args.len() != 1 || c.asyncness.is_some() {
        return None;
    }
    #[derive(Default)]
    struct R(bool, bool);
    impl<'ast> syn::visit::Visit<'ast> for R {
        fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, t: &'ast ExprTry) {
            self.1 = true;
            syn::visit::visit_expr_try(self, t);
        }
        fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    }
    let mut r = R::default();
    syn::visit::Visit::visit_expr(&mut r, &c.body);
    if r.0 {
        return None;
    }
    let p = c.inputs[0].clone();
    if let Expr::Block(b) = &*c.body {
        if let (true, Some(Stmt::Expr(Expr::Call(k), None))) = (tries && b.label.is_none(), b.block.stmts.last()) {
            if ts(&k.func).ends_with("Ok") && ts(&k.args) == "()" {
                let mut b = b.block.clone();
                b.stmts.pop();
                return Some((p, b));
            }
        }
    }
    if r.1 {
        return None;
    }
    let b = &c.body;
    Some((p, if tries { parse_quote!({ (#b)?; }) } else { parse_quote!({ #b; }) }))
}

fn pure(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => pure(&f.base),
        Expr::Paren(p) => pure(&p.expr),
        _ => false,
    }
}

/// `{ T { a, b: PhantomData } }` and the like state their own postcondition.
pub fn infer_ctor(b: &Block) -> Option<String> {
    let [Stmt::Expr(e, None)] = b.stmts.as_slice() else { return None };
    match e {
        Expr::Struct(s) if s.rest.is_none() => {
            let mut c = vec!["true".to_string()];
            for f in &s.fields {
                let n = ts(&f.member);
                if pure(&f.expr) {
                    if ts(&f.expr).ends_with("PhantomData") {
                        continue;
                    }
                    if ts(&f.expr) == "None" {
                        c.push(format!("r.{} is None", n));
                        continue;
                    }
                    c.push(format!("r.{} == {}", n, ts(&f.expr)));
                } else if let Expr::Call(k) = &f.expr {
                    let t = ts(&k.func);
                    if t.ends_with("Vec :: with_capacity") || t.ends_with("Vec :: new") {
                        c.push(format!("r.{}@.len() == 0", n));
                    }
                } else if let Expr::MethodCall(m) = &f.expr {
                    if m.method == "into_iter" && pure(&m.receiver) {
                        c.push(format!("r.{}@ == {}@", n, ts(&m.receiver)));
                    }
                }
            }
            Some(c.join(" && "))
        }
        _ => None,
    }
}

/// modules that read
const READS: &[&str] = &["content", "internally", "externally", "adjacently", "de"];
fn is_bounded(e: &Expr) -> bool {
    ts(e).starts_with("crate :: shim :: bounded")
}

pub struct Tx<'a> {
    cx: &'a Cx,
    module: &'a str,
    uses: &'a Uses,
    imp: Option<&'a ImplCtx>,
    id: String,
    pub notes: Vec<String>,
    pub nloops: usize,
    pub nclosures: usize,
    fresh: usize,
    env: HashMap<String, (Kind, Kind)>,
    /// every name bound in this function
    locals: std::collections::HashSet<String>,
    in_sig: bool,
    niter: usize,
}

impl<'a> Tx<'a> {
    pub fn new(cx: &'a Cx, module: &'a str, uses: &'a Uses, imp: Option<&'a ImplCtx>, id: String) -> Self {
        Tx {
            cx,
            module,
            uses,
            imp,
            id,
            notes: vec![],
            nloops: 0,
            nclosures: 0,
            fresh: 0,
            env: HashMap::new(),
            locals: Default::default(),
            in_sig: false,
            niter: 0,
        }
    }

    pub fn init_locals(&mut self, sig: &Signature, b: &Block) {
        struct P<'a>(&'a mut std::collections::HashSet<String>);
        impl<'ast> syn::visit::Visit<'ast> for P<'_> {
            fn visit_pat_ident(&mut self, i: &'ast PatIdent) {
                self.0.insert(i.ident.to_string());
                syn::visit::visit_pat_ident(self, i);
            }
        }
        let mut p = P(&mut self.locals);
        syn::visit::Visit::visit_signature(&mut p, sig);
        syn::visit::Visit::visit_block(&mut p, b);
    }

    pub fn init_env(&mut self, sig: &Signature) {
        for a in &sig.inputs {
            if let FnArg::Typed(t) = a {
                if let Pat::Ident(i) = &*t.pat {
                    self.env.insert(i.ident.to_string(), ty_kind(&t.ty));
                }
            }
        }
    }

    fn kind(&self, e: &Expr) -> (Kind, Kind) {
        match e {
            Expr::Paren(p) => self.kind(&p.expr),
            Expr::Path(p) => p
                .path
                .get_ident()
                .and_then(|i| self.env.get(&i.to_string()).copied())
                .unwrap_or((Kind::Other, Kind::Other)),
            Expr::Try(t) => (self.kind(&t.expr).1, Kind::Other),
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "into_iter" | "iter" | "drain" => (Kind::Iter, Kind::Other),
                    "map" | "as_ref" | "as_mut" | "cloned" | "copied" => (self.kind(&m.receiver).0, Kind::Other),
                    "take" | "next" | "get" | "pop" | "first" | "last" | "ok" | "err" => (Kind::Opt, Kind::Other),
                    "ok_or" | "ok_or_else" | "map_err" => (Kind::Res, Kind::Other),
                    "call" => (Kind::Res, Kind::Other),
                    "collect" | "rev" | "filter" | "zip" => (Kind::Iter, Kind::Other),
                    _ => self.cx.ret_kind.get(&n).copied().unwrap_or((Kind::Other, Kind::Other)),
                }
            }
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => {
                    let s = p.path.segments.last().unwrap().ident.to_string();
                    match s.as_str() {
                        "Ok" | "Err" => (Kind::Res, Kind::Other),
                        "Some" => (Kind::Opt, Kind::Other),
                        _ => self.cx.ret_kind.get(&s).copied().unwrap_or((Kind::Other, Kind::Other)),
                    }
                }
                Expr::Paren(p) if matches!(&*p.expr, Expr::Field(_)) => (Kind::Res, Kind::Other),
                _ => (Kind::Other, Kind::Other),
            },
            _ => (Kind::Other, Kind::Other),
        }
    }

    fn fresh(&mut self, p: &str) -> Ident {
        self.fresh += 1;
        format_ident!("__{}{}", p, self.fresh)
    }

    /// `f(x)` for a combinator argument, as a plain expression.
    fn apply(&mut self, f: &Expr, arg: Option<Expr>) -> Option<Expr> {
        match f {
            Expr::Closure(c) => {
                struct E(bool);
                impl<'ast> syn::visit::Visit<'ast> for E {
                    fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
                        self.0 = true;
                    }
                    fn visit_expr_try(&mut self, _: &'ast ExprTry) {
                        self.0 = true;
                    }
                }
                let mut e = E(false);
                syn::visit::Visit::visit_expr(&mut e, &c.body);
                if e.0 {
                    return None;
                }
                let body = &c.body;
                match (c.inputs.first(), arg) {
                    (Some(p), Some(a)) => {
                        let p = match p {
                            Pat::Type(t) => &*t.pat,
                            p => p,
                        };
                        Some(parse_quote!({ let #p = #a; #body }))
                    }
                    (None, _) => Some((**body).clone()),
                    _ => None,
                }
            }
            Expr::Path(_) => Some(match arg {
                Some(a) => parse_quote!(#f(#a)),
                None => parse_quote!(#f()),
            }),
            _ => None,
        }
    }

    fn combinator(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let k = self.kind(&m.receiver).0;
        let recv = &m.receiver;
        let name = m.method.to_string();
        let v = self.fresh("v");
        let e = self.fresh("e");
        let va: Expr = parse_quote!(#v);
        let ea: Expr = parse_quote!(#e);
        match (name.as_str(), k) {
            ("map", Kind::Opt) => {
                let b = self.apply(&m.args[0], Some(va))?;
                Some(parse_quote!(match #recv { Some(#v) => Some(#b), None => None }))
            }
            ("map", Kind::Res) => {
                let b = self.apply(&m.args[0], Some(va))?;
                Some(parse_quote!(match #recv { Ok(#v) => Ok(#b), Err(#e) => Err(#e) }))
            }
            ("map_err", Kind::Res) => {
                let b = self.apply(&m.args[0], Some(ea))?;
                Some(parse_quote!(match #recv { Ok(#v) => Ok(#v), Err(#e) => Err(#b) }))
            }
            ("and_then", Kind::Res) => {
                let b = self.apply(&m.args[0], Some(va))?;
                Some(parse_quote!(match #recv { Ok(#v) => #b, Err(#e) => Err(#e) }))
            }
            ("and_then", Kind::Opt) => {
                let b = self.apply(&m.args[0], Some(va))?;
                Some(parse_quote!(match #recv { Some(#v) => #b, None => None }))
            }
            ("ok_or_else", _) => {
                let b = self.apply(&m.args[0], None)?;
                Some(parse_quote!(match #recv { Some(#v) => Ok(#v), None => Err(#b) }))
            }
            ("ok_or", _) => {
                let b = &m.args[0];
                Some(parse_quote!({ let #e = #b; match #recv { Some(#v) => Ok(#v), None => Err(#e) } }))
            }
            ("map_or", Kind::Opt) => {
                let d = &m.args[0];
                let b = self.apply(&m.args[1], Some(va))?;
                Some(parse_quote!(match #recv { Some(#v) => #b, None => #d }))
            }
            ("map_or_else", Kind::Opt) => {
                let d = self.apply(&m.args[0], None)?;
                let b = self.apply(&m.args[1], Some(va))?;
                Some(parse_quote!(match #recv { Some(#v) => #b, None => #d }))
            }
            ("unwrap_or_else", Kind::Opt) => {
                let d = self.apply(&m.args[0], None)?;
                Some(parse_quote!(match #recv { Some(#v) => #v, None => #d }))
            }
            _ => None,
        }
    }

    fn marker(&mut self, b: &mut Block, kind: &str, n: usize) {
        let id = format_ident!("{}", kind);
        let lit = proc_macro2::Literal::usize_unsuffixed(n);
        b.stmts.insert(0, parse_quote!(#id!(#lit);));
    }

    fn fix_path(&self, p: &mut Path, qself: bool, value: bool) {
        let _ = qself;
        if value && p.leading_colon.is_none() && p.segments.len() == 1 {
            let n = p.segments[0].ident.to_string();
            if self.locals.contains(&n) && n.starts_with(|c: char| c.is_lowercase() || c == '_') {
                return;
            }
        }
        // Self::Assoc
        if p.leading_colon.is_none() && p.segments.len() >= 2 && p.segments[0].ident == "Self" {
            if let Some(imp) = self.imp {
                if let Some(tp) = &imp.trait_path {
                    let a = p.segments[1].ident.to_string();
                    if imp.assoc.contains(&a) && p.segments.len() == 2 {
                        let _ = tp;
                        return; // handled at type level
                    }
                }
            }
        }
        let abs = self.cx.resolve(self.uses, p);
        // trait method paths: `de::Error::custom`
        if value && abs.len() >= 2 {
            if let Some(k) = self.cx.trait_key(&abs[..abs.len() - 1]) {
                let last = p.segments.last().unwrap().clone();
                let targs = {
                    let n = p.segments.len();
                    if n >= 2 {
                        p.segments[n - 2].arguments.clone()
                    } else {
                        PathArguments::None
                    }
                };
                let mut q: Path = parse_str(&format!("crate::serde::{}Ext", k)).unwrap();
                q.segments.last_mut().unwrap().arguments = targs;
                q.segments.push(last);
                *p = q;
                return;
            }
        }
        let first = p.segments[0].ident.to_string();
        match first.as_str() {
            "serde_core" | "serde" | "erased_serde" | "inventory" | "once_cell" => {
                let known_local = p.leading_colon.is_none() && self.uses.map.contains_key(&first);
                if known_local && first != "serde" {
                    return;
                }
                let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
                if segs.len() >= 3 && segs[1].starts_with("__private") {
                    // ::serde_core::__private::Result
                    let last = p.segments.last().unwrap().clone();
                    *p = parse_quote!(#last);
                    return;
                }
                let root = format_ident!("{}", if first == "serde_core" { "serde" } else { first.as_str() });
                let rest: Vec<_> = p.segments.iter().skip(1).cloned().collect();
                *p = parse_quote!(crate::#root #(::#rest)*);
            }
            "core" | "alloc" if p.segments.len() > 1 => {
                p.leading_colon = None;
                p.segments[0].ident = format_ident!("std");
            }
            _ => {}
        }
        if let (true, Some(abs)) = (p.segments.len() == 1, self.uses.map.get(&first)) {
            // bare trait used as a bound etc. stays; PhantomData in serde bodies
            if first == "PhantomData" && abs.len() == 3 {
                *p = {
                    let a = p.segments[0].arguments.clone();
                    let mut q: Path = parse_quote!(std::marker::PhantomData);
                    q.segments.last_mut().unwrap().arguments = a;
                    q
                };
            } else if abs[0] == "serde" && abs.len() == 3 && self.module != "private" {
                let a = p.segments[0].arguments.clone();
                let mut q: Path = parse_str(&format!("crate::{}", abs.join("::"))).unwrap();
                q.segments.last_mut().unwrap().arguments = a;
                *p = q;
            }
        } else if p.leading_colon.is_none() {
            if let Some(abs) = self.uses.map.get(&first) {
                if abs[0] == "serde" {
                    let rest: Vec<_> = p.segments.iter().skip(1).cloned().collect();
                    let mut q: Path = parse_str(&format!("crate::{}", abs.join("::"))).unwrap();
                    for r in rest {
                        q.segments.push(r);
                    }
                    *p = q;
                }
            }
        }
    }
}

fn is_msg_path(p: &Path) -> bool {
    let s = ts(p).replace(' ', "");
    s.ends_with("__export::must_use") || s.ends_with("alloc::fmt::format") || s.ends_with("std::fmt::format")
}

pub fn pat_names(p: &Pat) -> Vec<Ident> {
    struct V(Vec<Ident>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_pat_ident(&mut self, i: &'a PatIdent) {
            let s = i.ident.to_string();
            if s != "None" {
                self.0.push(i.ident.clone());
            }
            syn::visit::visit_pat_ident(self, i);
        }
    }
    let mut v = V(vec![]);
    syn::visit::Visit::visit_pat(&mut v, p);
    v.0
}

fn place(e: &Expr) -> Option<Expr> {
    match e {
        Expr::Paren(p) => place(&p.expr),
        e => Some(e.clone()),
    }
}

impl VisitMut for Tx<'_> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none()
                && p.path.leading_colon.is_none()
                && p.path.segments.len() == 2
                && p.path.segments[0].ident == "Self"
            {
                if let Some(imp) = self.imp {
                    let a = p.path.segments[1].ident.clone();
                    if let Some(tp) = &imp.trait_path {
                        if imp.assoc.contains(&a.to_string()) {
                            let tp: Path = parse_str(tp).unwrap();
                            *t = parse_quote!(<Self as #tp>::#a);
                            return;
                        }
                    }
                }
            }
            // <Vec<X> as IntoIterator>::IntoIter
            if let Some(q) = &mut p.qself {
                if p.path.segments.last().unwrap().ident == "IntoIter" {
                    if let Type::Path(v) = &mut *q.ty {
                        let s = v.path.segments.last_mut().unwrap();
                        if s.ident == "Vec" {
                            let mut args = s.arguments.clone();
                            if let PathArguments::AngleBracketed(a) = &mut args {
                                for x in a.args.iter_mut() {
                                    self.visit_generic_argument_mut(x);
                                }
                            }
                            let mut n: TypePath = parse_quote!(crate::shim::VecIter);
                            n.path.segments.last_mut().unwrap().arguments = args;
                            *t = Type::Path(n);
                            return;
                        }
                    }
                }
            }
            let s = ts(&p.path).replace(' ', "");
            if s.ends_with("vec::IntoIter") || s.contains("vec::IntoIter<") {
                let mut args = p.path.segments.last().unwrap().arguments.clone();
                if let PathArguments::AngleBracketed(a) = &mut args {
                    for x in a.args.iter_mut() {
                        self.visit_generic_argument_mut(x);
                    }
                }
                let mut n: TypePath = parse_quote!(crate::shim::VecIter);
                n.path.segments.last_mut().unwrap().arguments = args;
                *t = Type::Path(n);
                return;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }

    fn visit_type_path_mut(&mut self, p: &mut TypePath) {
        let before = p.path.segments.len();
        visit_mut::visit_type_path_mut(self, p);
        if let Some(q) = &mut p.qself {
            // `<T as a::Trait>::X`: the trait's path may have grown
            if q.position > 0 {
                q.position = q.position + p.path.segments.len() - before;
            }
        }
    }

    fn visit_trait_bound_mut(&mut self, b: &mut TraitBound) {
        visit_mut::visit_trait_bound_mut(self, b);
    }

    fn visit_path_mut(&mut self, p: &mut Path) {
        self.fix_path(p, false, false);
        visit_mut::visit_path_mut(self, p);
    }

    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.qself.is_none() {
            self.fix_path(&mut p.path, false, true);
            for s in p.path.segments.iter_mut() {
                self.visit_path_arguments_mut(&mut s.arguments);
            }
        } else {
            if let Some(q) = &mut p.qself {
                self.visit_type_mut(&mut q.ty);
                // <X as Trait>::method
                let n = p.path.segments.len();
                if q.position > 0 && q.position == n - 1 {
                    let mut tr = p.path.clone();
                    let last = tr.segments.pop().unwrap().into_value();
                    tr.segments.pop_punct();
                    let abs = self.cx.resolve(self.uses, &tr);
                    if let Some(k) = self.cx.trait_key(&abs) {
                        let mut qn: Path = parse_str(&format!("crate::serde::{}Ext", k)).unwrap();
                        qn.segments.last_mut().unwrap().arguments =
                            tr.segments.last().unwrap().arguments.clone();
                        q.position = qn.segments.len();
                        qn.segments.push(last);
                        p.path = qn;
                    }
                }
            }
            for s in p.path.segments.iter_mut() {
                self.visit_path_arguments_mut(&mut s.arguments);
            }
        }
    }

    fn visit_signature_mut(&mut self, s: &mut Signature) {
        self.in_sig = true;
        visit_mut::visit_signature_mut(self, s);
        self.in_sig = false;
    }

    fn visit_local_mut(&mut self, l: &mut Local) {
        // remember what a plain local holds
        if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
            let k = self.kind(&init.expr);
            self.env.insert(i.ident.to_string(), k);
        }
        visit_mut::visit_local_mut(self, l);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        for st in b.stmts.iter_mut() {
            if let Stmt::Macro(m) = st {
                if m.mac.path.segments.last().unwrap().ident == "tri" {
                    if let Ok(inner) = m.mac.parse_body::<Expr>() {
                        *st = if m.semi_token.is_some() { parse_quote!(#inner?;) } else { Stmt::Expr(parse_quote!(#inner?), None) };
                    }
                }
            }
        }
        // let [a, b] = place;
        let mut out = vec![];
        for s in b.stmts.drain(..) {
            match s {
                Stmt::Local(Local { pat: Pat::Slice(ps), init: Some(LocalInit { expr, diverge: None, .. }), .. })
                    if ps.elems.iter().all(|p| matches!(p, Pat::Ident(_) | Pat::Wild(_))) =>
                {
                    for (i, p) in ps.elems.iter().enumerate() {
                        if matches!(p, Pat::Wild(_)) {
                            continue;
                        }
                        let lit = proc_macro2::Literal::usize_unsuffixed(i);
                        let e = place(&expr).unwrap();
                        out.push(parse_quote!(let #p = (#e)[#lit];));
                    }
                }
                // let P = e else { .. };
                Stmt::Local(Local { pat, init: Some(LocalInit { expr, diverge: Some((_, d)), .. }), .. }) => {
                    let names = pat_names(&pat);
                    out.push(parse_quote!(let (#(#names),*) = match #expr { #pat => (#(#names),*), _ => #d };));
                }
                Stmt::Item(Item::Use(_)) => {}
                s => out.push(s),
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // desugar first, then visit the result
        let new = match e {
            Expr::MethodCall(m) if m.method != "for_each" => {
                let n = m.method.to_string();
                match n.as_str() {
                    "to_owned" | "to_string" if m.args.is_empty() => {
                        m.method = format_ident!("v_to_owned");
                        None
                    }
                    "into" if m.args.is_empty() => {
                        m.method = format_ident!("v_into");
                        None
                    }
                    "into_iter" | "iter" if m.args.is_empty() => {
                        m.method = format_ident!("v_{}", n);
                        None
                    }
                    "encode_utf8" => {
                        let r = &m.receiver;
                        Some(parse_quote!(crate::shim::char_str(#r)))
                    }
                    "map" if self.kind(&m.receiver).0 == Kind::Iter => {
                        m.method = format_ident!("v_map");
                        None
                    }
                    _ => {
                        let m2 = m.clone();
                        self.combinator(&m2)
                    }
                }
            }
            Expr::Call(c) => match &*c.func {
                Expr::Paren(p) if matches!(&*p.expr, Expr::Field(_)) => {
                    let f = &p.expr;
                    let a = &c.args;
                    Some(parse_quote!(#f.call(#a)))
                }
                Expr::Path(p) if is_msg_path(&p.path) => Some(parse_quote!(crate::shim::msg())),
                Expr::Path(p)
                    if p.qself.is_some()
                        && p.path.segments.last().unwrap().ident == "erase"
                        && ts(&p.qself.as_ref().unwrap().ty).contains("dyn") =>
                {
                    let a = &c.args;
                    Some(parse_quote!(crate::shim::erase(#a)))
                }
                // reading: room is made for what is there, not for what the input announces
                Expr::Path(p)
                    if p.path.segments.last().unwrap().ident == "with_capacity"
                        && READS.contains(&self.module)
                        && c.args.len() == 1
                        && !is_bounded(&c.args[0]) =>
                {
                    let (f, a) = (&c.func, &c.args[0]);
                    Some(parse_quote!(#f(crate::shim::bounded(#a))))
                }
                Expr::Path(p) if ts(&p.path).ends_with("cmp :: min") || ts(&p.path).ends_with("cmp :: max") => {
                    let f = format_ident!("usize_{}", p.path.segments.last().unwrap().ident);
                    let a = &c.args;
                    Some(parse_quote!(crate::shim::#f(#a)))
                }
                Expr::Path(p) if p.path.is_ident("drop") => {
                    let a = &c.args;
                    Some(parse_quote!(crate::shim::vdrop(#a)))
                }
                Expr::Path(p) if ts(&p.path).replace(' ', "") == "Box::from" => {
                    let a = &c.args;
                    Some(parse_quote!(crate::shim::box_from(#a)))
                }
                Expr::Path(p) if ts(&p.path).replace(' ', "") == "String::from" => {
                    let a = &c.args;
                    Some(parse_quote!(crate::shim::string_from(#a)))
                }
                Expr::Path(p) if ts(&p.path).contains("core :: panicking") => {
                    Some(parse_quote!(crate::shim::vpanic()))
                }
                _ => None,
            },
            Expr::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                match n.as_str() {
                    "format_args" | "format" => Some(parse_quote!(crate::shim::msg())),
                    "tri" | "try" => {
                        let inner: Expr = m.mac.parse_body().unwrap();
                        Some(parse_quote!(#inner?))
                    }
                    _ => None,
                }
            }
            // x.try_for_each(|p| b)?  and  x.for_each(|p| b)  are loops
            Expr::Try(t) => match &*t.expr {
                Expr::MethodCall(m) if m.method == "try_for_each" => looped(m, true).map(|(p, b)| {
                    let x = &m.receiver;
                    parse_quote!(for #p in #x #b)
                }),
                _ => None,
            },
            Expr::MethodCall(m)
                if (m.method == "reserve" || m.method == "reserve_exact")
                    && READS.contains(&self.module)
                    && m.args.len() == 1
                    && !is_bounded(&m.args[0]) =>
            {
                let (x, a) = (&m.receiver, &m.args[0]);
                Some(parse_quote!(#x.reserve(crate::shim::bounded(#a))))
            }
            Expr::MethodCall(m) if m.method == "for_each" => looped(m, false).map(|(p, b)| {
                let x = &m.receiver;
                parse_quote!(for #p in #x #b)
            }),
            Expr::Match(m) if m.arms.is_empty() => {
                let s = &m.expr;
                Some(parse_quote!(crate::shim::absurd(&#s)))
            }
            Expr::ForLoop(f) => {
                let n = self.niter;
                self.niter += 1;
                let it = format_ident!("__it{}", n);
                let item = format_ident!("__x{}", n);
                let ex = &f.expr;
                let label = &f.label;
                let mut body = f.body.clone();
                let lets: Vec<Stmt> = match &*f.pat {
                    Pat::Reference(r) => match &*r.pat {
                        Pat::Tuple(t) => t
                            .elems
                            .iter()
                            .enumerate()
                            .filter_map(|(i, p)| {
                                let ix = Index::from(i);
                                match p {
                                    Pat::Ident(id) if id.by_ref.is_some() => {
                                        let n = &id.ident;
                                        Some(parse_quote!(let #n = &#item.#ix;))
                                    }
                                    Pat::Ident(id) => Some(parse_quote!(let #id = #item.#ix;)),
                                    Pat::Wild(_) => None,
                                    _ => Some(parse_quote!(let #p = #item.#ix;)),
                                }
                            })
                            .collect(),
                        p => vec![parse_quote!(let #p = *#item;)],
                    },
                    Pat::Tuple(t) => t
                        .elems
                        .iter()
                        .enumerate()
                        .filter_map(|(i, p)| {
                            let ix = Index::from(i);
                            match p {
                                Pat::Wild(_) => None,
                                _ => Some(parse_quote!(let #p = crate::shim::tup(#item).#ix;)),
                            }
                        })
                        .collect(),
                    p => vec![parse_quote!(let #p = #item;)],
                };
                for l in lets.into_iter().rev() {
                    body.stmts.insert(0, l);
                }
                Some(parse_quote!({
                    let mut #it = crate::shim::into_it(#ex);
                    #label while let Some(#item) = #it.next() #body
                }))
            }
            Expr::While(w) => {
                if let Expr::Let(l) = &*w.cond {
                    let (p, ex, body, label) = (&l.pat, &l.expr, &w.body, &w.label);
                    Some(parse_quote!(#label loop { match #ex { #p => #body, _ => { break; } } }))
                } else {
                    None
                }
            }
            Expr::Paren(p) => Some((*p.expr).clone()).filter(|x| matches!(x, Expr::Block(_))),
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
            return self.visit_expr_mut(e);
        }
        match e {
            Expr::Loop(l) => {
                let n = self.nloops;
                self.nloops += 1;
                visit_mut::visit_block_mut(self, &mut l.body);
                self.marker(&mut l.body, "__vinv", n);
            }
            Expr::While(w) => {
                let n = self.nloops;
                self.nloops += 1;
                self.visit_expr_mut(&mut w.cond);
                visit_mut::visit_block_mut(self, &mut w.body);
                self.marker(&mut w.body, "__vinv", n);
            }
            Expr::Closure(c) => {
                let n = self.nclosures;
                self.nclosures += 1;
                let table = self.cx.c.closures.contains_key(&(self.id.clone(), n));
                self.visit_expr_mut(&mut c.body);
                for p in c.inputs.iter_mut() {
                    self.visit_pat_mut(p);
                }
                let mut b: Block = match &*c.body {
                    Expr::Block(b) if b.label.is_none() => b.block.clone(),
                    x => parse_quote!({ #x }),
                };
                self.marker(&mut b, "__vclo", n);
                *c.body = parse_quote!(#b);
                if table {
                    c.output = ReturnType::Default;
                    // parameter pattern of a tuple: bind through one name
                    if let Some(Pat::Tuple(_)) = c.inputs.first() {
                        let p = c.inputs[0].clone();
                        if let Expr::Block(b) = &mut *c.body {
                            b.block.stmts.insert(1, parse_quote!(let #p = __a;));
                        }
                        c.inputs[0] = parse_quote!(__a);
                    }
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
        let _ = quote!();
    }

    fn visit_macro_mut(&mut self, _: &mut Macro) {}
}
