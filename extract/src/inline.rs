//! Functions the contracts do not know (a helper that an edit has extracted) are
//! put back into their callers, where the text allows it: the call becomes a
//! block with the helper's body, the parameters bound to the arguments. A caller
//! is then decided against its own contract, whatever the helper is called.
//! What cannot be put back stays a call of a function without contract.
use crate::ts;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
struct Helper {
    sig: Signature,
    block: Block,
    /// type of the inherent impl
    of: Option<String>,
    /// parameters of impl and function
    params: BTreeSet<String>,
    /// own function parameters only
    own: BTreeSet<String>,
    id: String,
}

type Key = (Option<String>, String);

fn last(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Group(g) => last(&g.elem),
        t => ts(t),
    }
}

fn type_params(g: &Generics) -> BTreeSet<String> {
    g.params
        .iter()
        .filter_map(|p| match p {
            GenericParam::Type(t) => Some(t.ident.to_string()),
            GenericParam::Const(t) => Some(t.ident.to_string()),
            GenericParam::Lifetime(l) => Some(l.lifetime.to_string()),
        })
        .collect()
}

/// `?` and `return` outside closures, and whether every `return` returns `Err(..)`.
#[derive(Default)]
struct Exits {
    tries: bool,
    returns: bool,
    other_returns: bool,
}
impl<'a> Visit<'a> for Exits {
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
    fn visit_expr_try(&mut self, e: &'a ExprTry) {
        self.tries = true;
        visit::visit_expr_try(self, e);
    }
    fn visit_expr_return(&mut self, e: &'a ExprReturn) {
        self.returns = true;
        if !e.expr.as_ref().is_some_and(|e| is_call(e, "Err")) {
            self.other_returns = true;
        }
        visit::visit_expr_return(self, e);
    }
}

fn is_call(e: &Expr, name: &str) -> bool {
    match e {
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => p.path.segments.last().unwrap().ident == name && c.args.len() == 1,
            _ => false,
        },
        _ => false,
    }
}

struct Names {
    idents: BTreeSet<String>,
}
impl<'a> Visit<'a> for Names {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.idents.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
    fn visit_item(&mut self, _: &'a Item) {}
}

struct Used {
    idents: BTreeSet<String>,
}
impl<'a> Visit<'a> for Used {
    fn visit_expr_path(&mut self, p: &'a ExprPath) {
        if let Some(i) = p.path.get_ident() {
            self.idents.insert(i.to_string());
        }
        visit::visit_expr_path(self, p);
    }
    fn visit_item(&mut self, _: &'a Item) {}
}

fn used(e: &Expr) -> BTreeSet<String> {
    let mut u = Used { idents: BTreeSet::new() };
    u.visit_expr(e);
    u.idents
}

/// Renames locals.
struct Rename<'a>(&'a BTreeMap<String, String>);
impl VisitMut for Rename<'_> {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(n) = self.0.get(&p.ident.to_string()) {
            p.ident = Ident::new(n, p.ident.span());
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_field_pat_mut(&mut self, p: &mut FieldPat) {
        if p.colon_token.is_none() {
            p.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_pat_mut(self, p);
    }
    fn visit_field_value_mut(&mut self, p: &mut FieldValue) {
        if p.colon_token.is_none() {
            p.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, p);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if let Some(i) = p.path.get_ident() {
            if let Some(n) = self.0.get(&i.to_string()) {
                let i = Ident::new(n, i.span());
                p.path = parse_quote!(#i);
            }
        }
        visit_mut::visit_expr_path_mut(self, p);
    }
}

fn place(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.qself.is_none() && p.path.get_ident().is_some(),
        Expr::Field(f) => place(&f.base),
        Expr::Paren(p) => place(&p.expr),
        _ => false,
    }
}

/// Puts arguments in place of parameters. `Some(place)`: the argument is a
/// reference to that place, so `p.x` is `place.x` and `*p` is `place`.
struct Subst<'a> {
    map: &'a BTreeMap<String, (Expr, Option<Expr>)>,
    ok: bool,
}
impl Subst<'_> {
    fn get(&self, e: &Expr) -> Option<&(Expr, Option<Expr>)> {
        match e {
            Expr::Path(p) if p.qself.is_none() => self.map.get(&p.path.get_ident()?.to_string()),
            Expr::Paren(p) => self.get(&p.expr),
            _ => None,
        }
    }
}
impl VisitMut for Subst<'_> {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::MethodCall(m) => {
                if let Some((_, Some(pl))) = self.get(&m.receiver) {
                    *m.receiver = pl.clone();
                    for a in m.args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    return;
                }
            }
            Expr::Field(f) => {
                if let Some((_, Some(pl))) = self.get(&f.base) {
                    *f.base = pl.clone();
                    return;
                }
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                if let Some((_, Some(pl))) = self.get(&u.expr) {
                    *e = pl.clone();
                    return;
                }
            }
            Expr::Path(_) => {
                if let Some((x, _)) = self.get(e) {
                    *e = x.clone();
                    return;
                }
            }
            Expr::Struct(s) => {
                for f in s.fields.iter_mut() {
                    f.colon_token = Some(Default::default());
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// `Self` and the helper's own type parameters have no meaning in the caller:
/// inferred, where a type may be.
struct Erase<'a> {
    names: &'a BTreeSet<String>,
    ok: bool,
}
impl VisitMut for Erase<'_> {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_type_mut(&mut self, t: &mut Type) {
        struct Has<'a>(&'a BTreeSet<String>, bool);
        impl<'b> Visit<'b> for Has<'_> {
            fn visit_path(&mut self, p: &'b Path) {
                if self.0.contains(&p.segments[0].ident.to_string()) {
                    self.1 = true;
                }
                visit::visit_path(self, p);
            }
            fn visit_lifetime(&mut self, l: &'b Lifetime) {
                if self.0.contains(&l.to_string()) {
                    self.1 = true;
                }
            }
        }
        let mut h = Has(self.names, false);
        h.visit_type(t);
        if h.1 {
            *t = parse_quote!(_);
        }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if self.names.contains(&p.segments[0].ident.to_string()) {
            self.ok = false;
        }
        visit_mut::visit_path_mut(self, p);
    }
}

/// `e?`, pushed to where `e`'s value is made.
fn push_try(e: &mut Expr) {
    match e {
        Expr::Block(b) if b.label.is_none() => match b.block.stmts.last_mut() {
            Some(Stmt::Expr(x, None)) => push_try(x),
            _ => {}
        },
        Expr::Paren(p) => push_try(&mut p.expr),
        Expr::If(i) => {
            if let Some(Stmt::Expr(x, None)) = i.then_branch.stmts.last_mut() {
                push_try(x);
            }
            if let Some((_, x)) = &mut i.else_branch {
                push_try(x);
            }
        }
        Expr::Match(m) => {
            for a in &mut m.arms {
                push_try(&mut a.body);
            }
        }
        Expr::Return(_) | Expr::Break(_) | Expr::Continue(_) => {}
        _ if is_call(e, "Ok") => {
            let Expr::Call(c) = e else { return };
            let x = c.args.first().unwrap().clone();
            *e = x;
        }
        _ if is_call(e, "Err") => {
            let x = e.clone();
            *e = parse_quote!(return #x);
        }
        _ => {
            let x = e.clone();
            *e = parse_quote!(#x?);
        }
    }
}

/// `e.map(f)`, pushed to where `e`'s value is made.
fn push_map(e: &mut Expr, f: &Expr) {
    match e {
        Expr::Block(b) if b.label.is_none() => match b.block.stmts.last_mut() {
            Some(Stmt::Expr(x, None)) => push_map(x, f),
            _ => {}
        },
        Expr::Paren(p) => push_map(&mut p.expr, f),
        Expr::If(i) => {
            if let Some(Stmt::Expr(x, None)) = i.then_branch.stmts.last_mut() {
                push_map(x, f);
            }
            if let Some((_, x)) = &mut i.else_branch {
                push_map(x, f);
            }
        }
        Expr::Match(m) => {
            for a in &mut m.arms {
                push_map(&mut a.body, f);
            }
        }
        Expr::Return(_) | Expr::Break(_) | Expr::Continue(_) => {}
        _ if is_call(e, "Err") => {}
        _ if is_call(e, "Ok") && matches!(f, Expr::Path(_)) => {
            let Expr::Call(c) = e else { return };
            let x = c.args.first().unwrap().clone();
            *e = parse_quote!(Ok(#f(#x)));
        }
        _ => {
            let x = e.clone();
            *e = parse_quote!(#x.map(#f));
        }
    }
}

fn breaks_value(b: &Block) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_item(&mut self, _: &'a Item) {}
        fn visit_expr_break(&mut self, b: &'a ExprBreak) {
            self.0 |= b.label.is_some();
        }
    }
    let mut v = V(false);
    v.visit_block(b);
    v.0
}

struct In<'a> {
    helpers: &'a BTreeMap<Key, Helper>,
    methods: &'a BTreeMap<String, Key>,
    /// type of the impl the caller stands in, its parameters and the caller's
    of: Option<String>,
    params: BTreeSet<String>,
    count: usize,
    done: BTreeSet<String>,
    budget: usize,
}

#[derive(PartialEq, Clone, Copy)]
enum Mode {
    Any,
    Tail,
    Try,
}

impl In<'_> {
    fn find(&self, e: &Expr) -> Option<(&Helper, Vec<Expr>)> {
        match e {
            Expr::Paren(p) => self.find(&p.expr),
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                if p.qself.is_some() {
                    return None;
                }
                let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let s: Vec<String> = s.into_iter().skip_while(|s| s == "self").collect();
                let k: Key = match s.len() {
                    1 => (None, s[0].clone()),
                    2 if s[0] == "Self" => (self.of.clone(), s[1].clone()),
                    2 => (Some(s[0].clone()), s[1].clone()),
                    _ => return None,
                };
                let h = self.helpers.get(&k)?;
                Some((h, c.args.iter().cloned().collect()))
            }
            Expr::MethodCall(m) => {
                let h = self.helpers.get(self.methods.get(&m.method.to_string())?)?;
                let mut a = vec![(*m.receiver).clone()];
                // the receiver is borrowed as the method says
                if let Some(FnArg::Receiver(r)) = h.sig.inputs.first() {
                    if r.reference.is_some() {
                        let x = a[0].clone();
                        let is_self = matches!(&x, Expr::Path(p) if p.path.is_ident("self"));
                        if !is_self {
                            if !place(&x) {
                                return None;
                            }
                            a[0] = if r.mutability.is_some() { parse_quote!(&mut #x) } else { parse_quote!(&#x) };
                        }
                    }
                }
                a.extend(m.args.iter().cloned());
                Some((h, a))
            }
            _ => None,
        }
    }

    /// the helper's body in place of a call of it
    fn body(&self, h: &Helper, args: &[Expr], mode: Mode, map: Option<&Expr>) -> Option<Expr> {
        if h.sig.inputs.len() != args.len() || h.sig.asyncness.is_some() || breaks_value(&h.block) {
            return None;
        }
        let mut ex = Exits::default();
        ex.visit_block(&h.block);
        match mode {
            Mode::Any if ex.tries || ex.returns => return None,
            Mode::Try if ex.other_returns => return None,
            _ if map.is_some() && (ex.other_returns || mode == Mode::Any) => return None,
            _ => {}
        }
        let mut b = h.block.clone();
        // types
        let mut names: BTreeSet<String> = h.own.clone();
        if h.of.is_some() && h.of != self.of {
            names.insert("Self".into());
        }
        for p in &h.params {
            if !self.params.contains(p) || h.of != self.of {
                names.insert(p.clone());
            }
        }
        let mut er = Erase { names: &names, ok: true };
        er.visit_block_mut(&mut b);
        if !er.ok {
            return None;
        }
        // names of the helper's that would capture the caller's
        let mut a_used = BTreeSet::new();
        for a in args.iter().chain(map) {
            a_used.extend(used(a));
        }
        let mut pnames = vec![];
        for i in &h.sig.inputs {
            match i {
                FnArg::Receiver(r) => {
                    if r.colon_token.is_some() {
                        return None;
                    }
                    pnames.push(("self".to_string(), r.reference.is_none() && r.mutability.is_some()));
                }
                FnArg::Typed(t) => match &*t.pat {
                    Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => pnames.push((i.ident.to_string(), i.mutability.is_some())),
                    _ => return None,
                },
            }
        }
        let mut nb = Names { idents: BTreeSet::new() };
        nb.visit_block(&b);
        let mut ren = BTreeMap::new();
        let mut lets: Vec<Stmt> = vec![];
        let mut sub: BTreeMap<String, (Expr, Option<Expr>)> = BTreeMap::new();
        for n in &nb.idents {
            if a_used.contains(n) {
                ren.insert(n.clone(), format!("{}__in", n));
            }
        }
        for ((n, m), a) in pnames.iter().zip(args) {
            // a parameter that the body binds again
            if nb.idents.contains(n) && !ren.contains_key(n) {
                ren.insert(n.clone(), format!("{}__in", n));
            }
            let simple = match a {
                Expr::Lit(_) => true,
                Expr::Path(p) => p.qself.is_none(),
                Expr::Field(_) => false,
                _ => false,
            };
            let pl = match a {
                Expr::Reference(r) if place(&r.expr) => Some((*r.expr).clone()),
                _ => None,
            };
            let rebound = ren.contains_key(n);
            if !m && !rebound && (simple || pl.is_some()) {
                sub.insert(n.clone(), (a.clone(), pl));
            } else {
                let k = format!("{}__in", n);
                ren.insert(n.clone(), k.clone());
                let i = Ident::new(&k, proc_macro2::Span::call_site());
                lets.push(if *m { parse_quote!(let mut #i = #a;) } else { parse_quote!(let #i = #a;) });
            }
        }
        Rename(&ren).visit_block_mut(&mut b);
        let mut s = Subst { map: &sub, ok: true };
        s.visit_block_mut(&mut b);
        if !s.ok {
            return None;
        }
        let mut stmts = lets;
        stmts.extend(b.stmts);
        let mut e = if stmts.len() == 1 && matches!(stmts[0], Stmt::Expr(_, None)) {
            let Some(Stmt::Expr(e, None)) = stmts.pop() else { return None };
            e
        } else {
            Expr::Block(ExprBlock { attrs: vec![], label: None, block: Block { brace_token: Default::default(), stmts } })
        };
        if let Some(f) = map {
            push_map(&mut e, f);
        }
        if mode == Mode::Try {
            push_try(&mut e);
        }
        Some(e)
    }

    fn try_at(&mut self, e: &mut Expr, mode: Mode) -> bool {
        if self.budget == 0 {
            return false;
        }
        let mut map = None;
        let mut found = self.find(e);
        if let (None, Expr::MethodCall(m)) = (&found, &*e) {
            // `helper(..).map(f)`
            if m.method == "map" && m.args.len() == 1 {
                map = m.args.first();
                found = self.find(&m.receiver);
            }
        }
        let Some((h, args)) = found else { return false };
        let id = h.id.clone();
        let Some(x) = self.body(h, &args, mode, map) else { return false };
        *e = x;
        self.count += 1;
        self.budget -= 1;
        self.done.insert(id);
        true
    }

    fn tail(&mut self, e: &mut Expr) {
        while self.try_at(e, Mode::Tail) {}
        match e {
            Expr::Block(b) if b.label.is_none() => {
                if let Some(Stmt::Expr(x, None)) = b.block.stmts.last_mut() {
                    self.tail(x)
                }
            }
            Expr::Paren(p) => self.tail(&mut p.expr),
            Expr::If(i) => {
                if let Some(Stmt::Expr(x, None)) = i.then_branch.stmts.last_mut() {
                    self.tail(x);
                }
                if let Some((_, x)) = &mut i.else_branch {
                    self.tail(x);
                }
            }
            Expr::Match(m) => {
                for a in &mut m.arms {
                    self.tail(&mut a.body);
                }
            }
            _ => {}
        }
    }

    fn function(&mut self, b: &mut Block) {
        if let Some(Stmt::Expr(x, None)) = b.stmts.last_mut() {
            self.tail(x);
        }
        self.visit_block_mut(b);
    }
}

impl VisitMut for In<'_> {
    fn visit_item_mut(&mut self, i: &mut Item) {
        // a nested item: another context
        if let Item::Fn(_) | Item::Impl(_) = i {
            let (of, ps) = (self.of.clone(), self.params.clone());
            item(self, i);
            self.of = of;
            self.params = ps;
        }
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        self.tail(&mut c.body);
        visit_mut::visit_expr_closure_mut(self, c);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        loop {
            let mut any = false;
            match e {
                Expr::Try(t) => {
                    if self.try_at(&mut t.expr, Mode::Try) {
                        let x = (*t.expr).clone();
                        *e = x;
                        any = true;
                    }
                }
                Expr::Return(r) => {
                    if let Some(x) = &mut r.expr {
                        any = self.try_at(x, Mode::Tail);
                    }
                }
                _ => any = self.try_at(e, Mode::Any),
            }
            if !any {
                break;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn item(v: &mut In, it: &mut Item) {
    match it {
        Item::Fn(f) => {
            v.of = None;
            v.params = type_params(&f.sig.generics);
            v.function(&mut f.block);
        }
        Item::Impl(im) => {
            let t = last(&im.self_ty);
            for ii in &mut im.items {
                if let ImplItem::Fn(f) = ii {
                    v.of = Some(t.clone());
                    v.params = type_params(&im.generics);
                    v.params.extend(type_params(&f.sig.generics));
                    v.function(&mut f.block);
                }
            }
        }
        _ => {}
    }
}

/// Calls in a block, by the last name.
fn calls(b: &Block) -> BTreeSet<String> {
    struct V(BTreeSet<String>);
    impl<'a> Visit<'a> for V {
        fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
            self.0.insert(m.method.to_string());
            visit::visit_expr_method_call(self, m);
        }
        fn visit_expr_path(&mut self, p: &'a ExprPath) {
            self.0.insert(p.path.segments.last().unwrap().ident.to_string());
            visit::visit_expr_path(self, p);
        }
    }
    let mut v = V(BTreeSet::new());
    v.visit_block(b);
    v.0
}

pub fn inline(module: &str, items: &mut Vec<Item>, base: &BTreeSet<String>) -> Vec<String> {
    let mut notes = vec![];
    let mut helpers: BTreeMap<Key, Helper> = BTreeMap::new();
    let mut taken: BTreeSet<String> = BTreeSet::new();
    for it in items.iter() {
        match it {
            Item::Fn(f) => {
                let n = f.sig.ident.to_string();
                let id = format!("{module}::{n}");
                if base.contains(&id) {
                    continue;
                }
                let own = type_params(&f.sig.generics);
                helpers.insert((None, n), Helper { sig: f.sig.clone(), block: (*f.block).clone(), of: None, params: own.clone(), own, id });
            }
            Item::Impl(im) => {
                let t = last(&im.self_ty);
                for ii in &im.items {
                    let ImplItem::Fn(f) = ii else { continue };
                    let n = f.sig.ident.to_string();
                    let id = format!("{module}::{t}::{n}");
                    if im.trait_.is_some() || base.contains(&id) {
                        taken.insert(n);
                        continue;
                    }
                    let own = type_params(&f.sig.generics);
                    let mut params = type_params(&im.generics);
                    params.extend(own.clone());
                    helpers.insert((Some(t.clone()), n), Helper { sig: f.sig.clone(), block: f.block.clone(), of: Some(t.clone()), params, own, id });
                }
            }
            _ => {}
        }
    }
    // a function that reaches itself stays a function
    let names: BTreeMap<String, BTreeSet<String>> = {
        let mut m: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
        for ((_, n), h) in &helpers {
            m.entry(n.clone()).or_default().extend(calls(&h.block));
        }
        m
    };
    let rec: BTreeSet<String> = names
        .keys()
        .filter(|n| {
            let mut seen: BTreeSet<&String> = BTreeSet::new();
            let mut todo: Vec<&String> = names[*n].iter().collect();
            while let Some(x) = todo.pop() {
                if x == *n {
                    return true;
                }
                if let Some(c) = names.get(x) {
                    if seen.insert(x) {
                        todo.extend(c);
                    }
                }
            }
            false
        })
        .cloned()
        .collect();
    helpers.retain(|(_, n), _| !rec.contains(n));
    if helpers.is_empty() {
        return notes;
    }
    // a method is known by its name, where that is clear
    let mut methods: BTreeMap<String, Key> = BTreeMap::new();
    let mut twice = BTreeSet::new();
    for (k, h) in &helpers {
        if matches!(h.sig.inputs.first(), Some(FnArg::Receiver(_))) {
            if methods.insert(k.1.clone(), k.clone()).is_some() || taken.contains(&k.1) {
                twice.insert(k.1.clone());
            }
        }
    }
    methods.retain(|n, _| !twice.contains(n));
    let mut v = In { helpers: &helpers, methods: &methods, of: None, params: BTreeSet::new(), count: 0, done: BTreeSet::new(), budget: 200 };
    for it in items.iter_mut() {
        item(&mut v, it);
    }
    let done = v.done;
    if done.is_empty() {
        return notes;
    }
    // drop those that nothing calls any more
    loop {
        let mut live: BTreeSet<String> = BTreeSet::new();
        let id_of = |t: &Option<String>, n: &str| match t {
            Some(t) => format!("{module}::{t}::{n}"),
            None => format!("{module}::{n}"),
        };
        for it in items.iter() {
            match it {
                Item::Fn(f) => {
                    let mut c = calls(&f.block);
                    c.remove(&f.sig.ident.to_string());
                    live.extend(c);
                }
                Item::Impl(im) => {
                    for ii in &im.items {
                        if let ImplItem::Fn(f) = ii {
                            live.extend(calls(&f.block));
                        }
                    }
                }
                _ => {}
            }
        }
        let dead = |t: &Option<String>, n: &str| done.contains(&id_of(t, n)) && !live.contains(n);
        let before = items.len();
        let mut cut = 0;
        items.retain(|it| match it {
            Item::Fn(f) => !dead(&None, &f.sig.ident.to_string()),
            _ => true,
        });
        for it in items.iter_mut() {
            if let Item::Impl(im) = it {
                if im.trait_.is_none() {
                    let t = Some(last(&im.self_ty));
                    let n = im.items.len();
                    im.items.retain(|ii| match ii {
                        ImplItem::Fn(f) => !dead(&t, &f.sig.ident.to_string()),
                        _ => true,
                    });
                    cut += n - im.items.len();
                }
            }
        }
        if items.len() == before && cut == 0 {
            break;
        }
    }
    for d in &done {
        notes.push(format!("inline: {d} put back into its callers"));
    }
    notes
}
