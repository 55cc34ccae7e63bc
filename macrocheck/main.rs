//! Runs the attribute macros themselves, compiled from /repo/impl/src as an
//! ordinary library, on enumerated and random attributes:
//! - every way to write a configuration expands to the same code,
//! - different configurations expand to different code,
//! - what is not a configuration is refused with a compile error,
//! - a literal is copied as it is, and an implementation without a stated name
//!   expands like one that states its type's own name,
//! - the item itself stays in the expansion as it is written (attributes, bounds,
//!   items), and what can be no trait object, or has no name, is refused.
//! macrocheck TIER SEED: prints one JSON object.
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum T {
    W(&'static str),
    P(char),
    L(String),
    N(i64),
}
use T::*;

fn stream(t: &[T]) -> TokenStream {
    t.iter()
        .map(|t| match t {
            W(w) => TokenTree::from(Ident::new(w, Span::call_site())),
            P(c) => Punct::new(*c, Spacing::Alone).into(),
            L(s) => Literal::string(s).into(),
            N(i) => Literal::i64_unsuffixed(*i).into(),
        })
        .collect()
}

#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
enum Args {
    External,
    Internal(String, Option<String>),
    Adjacent(String, String, Option<String>, bool),
}
use Args::*;

/// The grammar of contracts/attr_shim.rs.
fn reading(t: &[T]) -> Option<Args> {
    let opt = |t: &[T], w: &'static str| -> Option<String> {
        match t {
            [W(x), P('='), L(s), ..] if *x == w => Some(s.clone()),
            _ => None,
        }
    };
    if t.is_empty() {
        return Some(External);
    }
    let tag = opt(t, "tag")?;
    let t = &t[3..];
    if t.is_empty() || t == [P(',')] {
        return Some(Internal(tag, None));
    }
    if t[0] != P(',') {
        return None;
    }
    let t = &t[1..];
    if let Some(d) = opt(t, "default_variant") {
        return if t.len() == 3 || t[3..] == [P(',')] { Some(Internal(tag, Some(d))) } else { None };
    }
    let content = opt(t, "content")?;
    let (mut t, mut d, mut deny) = (&t[3..], None, false);
    while !t.is_empty() {
        if t[0] != P(',') {
            return None;
        }
        t = &t[1..];
        if t.is_empty() {
            break;
        }
        if let (None, Some(x)) = (&d, opt(t, "default_variant")) {
            d = Some(x);
            t = &t[3..];
        } else if !deny && t[0] == W("deny_unknown_fields") {
            deny = true;
            t = &t[1..];
        } else {
            return None;
        }
    }
    Some(Adjacent(tag, content, d, deny))
}

fn put(v: &mut Vec<T>, w: &'static str, s: &str) {
    v.extend([W(w), P('='), L(s.into())]);
}

fn written(a: &Args, swap: bool, end: bool) -> Vec<T> {
    let mut v = vec![];
    match a {
        External => return v,
        Internal(t, d) => {
            put(&mut v, "tag", t);
            if let Some(d) = d {
                v.push(P(','));
                put(&mut v, "default_variant", d);
            }
        }
        Adjacent(t, c, d, deny) => {
            put(&mut v, "tag", t);
            v.push(P(','));
            put(&mut v, "content", c);
            if swap && *deny {
                v.extend([P(','), W("deny_unknown_fields")]);
            }
            if let Some(d) = d {
                v.push(P(','));
                put(&mut v, "default_variant", d);
            }
            if !swap && *deny {
                v.extend([P(','), W("deny_unknown_fields")]);
            }
        }
    }
    if end {
        v.push(P(','));
    }
    v
}

type Mac = fn(TokenStream, TokenStream) -> TokenStream;
const MACROS: [(&str, Mac); 3] = [
    ("serde", macrosrc::serde as Mac),
    ("serialize", macrosrc::serialize as Mac),
    ("deserialize", macrosrc::deserialize as Mac),
];

/// The expansion: None when it is refused. The item itself, which the
/// expansion starts with, is given apart from what is added to it.
fn expand(m: Mac, args: TokenStream, item: TokenStream) -> Result<Option<(String, String)>, String> {
    let out = catch_unwind(AssertUnwindSafe(|| m(args, item))).map_err(|_| "the macro panicked".to_string())?;
    let f: syn::File = match syn::parse2(out.clone()) {
        Ok(f) => f,
        Err(e) => return Err(format!("the expansion is not Rust: {e}: {out}")),
    };
    let refused = |i: &syn::Item| matches!(i, syn::Item::Macro(m) if m.mac.path.segments.last().unwrap().ident == "compile_error");
    if f.items.iter().any(refused) {
        return Ok(None);
    }
    let mut it = f.items.into_iter();
    let first = it.next().map(|i| quote::quote!(#i).to_string()).unwrap_or_default();
    let rest = it.map(|i| quote::quote!(#i)).collect::<TokenStream>().to_string();
    Ok(Some((first, rest)))
}

/// The same tokens with string literals exchanged.
fn exchange(t: TokenStream, m: &BTreeMap<String, TokenStream>) -> TokenStream {
    t.into_iter()
        .flat_map(|t| match t {
            TokenTree::Group(g) => TokenStream::from(TokenTree::from(Group::new(g.delimiter(), exchange(g.stream(), m)))),
            TokenTree::Literal(l) => match m.get(&l.to_string()) {
                Some(n) => n.clone(),
                None => TokenTree::Literal(l).into(),
            },
            t => t.into(),
        })
        .collect()
}

fn exchanged(s: &str, m: &BTreeMap<String, TokenStream>) -> String {
    exchange(s.parse().unwrap(), m).to_string()
}

struct Run {
    evaluations: usize,
    distinct: BTreeSet<String>,
    violations: Vec<String>,
}
/// The case under way and since when.
static NOW: std::sync::Mutex<(Option<std::time::Instant>, String)> = std::sync::Mutex::new((None, String::new()));

/// A case takes microseconds; one that is still running after this does not end.
const HANG: u64 = 60;

fn watchdog() {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(2));
        let now = NOW.lock().unwrap();
        if now.0.map_or(false, |t| t.elapsed().as_secs() >= HANG) {
            let v = format!("{}\n    still running after {HANG} s: it does not end", now.1);
            println!("{{\"evaluations\": 1, \"distinct\": 1, \"samples\": [], \"known\": [], \"violations\": {}}}", json(&[v]));
            std::process::exit(0);
        }
    });
}

impl Run {
    fn case(&mut self, what: String, f: impl FnOnce() -> Result<(), String>) {
        if self.violations.len() >= 5 {
            return;
        }
        self.evaluations += 1;
        {
            let mut now = NOW.lock().unwrap();
            now.0 = Some(std::time::Instant::now());
            now.1.clone_from(&what);
        }
        let r = f();
        NOW.lock().unwrap().0 = None;
        if let Err(e) = r {
            self.violations.push(format!("{what}\n    {e}"));
        }
        self.distinct.insert(what);
    }
}

struct Rng(u64);
impl Rng {
    fn next(&mut self, n: usize) -> usize {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        (self.0 >> 11) as usize % n
    }
}

fn show(t: &[T]) -> String {
    stream(t).to_string()
}

const TRAIT: &str = "pub trait Tr : Other { fn f(&self) -> u8 ; }";

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let thorough = a.get(1).map_or(false, |t| t == "thorough");
    let seed: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut rng = Rng(seed.wrapping_mul(0x9e3779b97f4a7c15) | 1);
    std::panic::set_hook(Box::new(|_| {}));
    watchdog();
    let mut run = Run { evaluations: 0, distinct: BTreeSet::new(), violations: vec![] };
    let tr: TokenStream = TRAIT.parse().unwrap();

    let (t, c, d) = ("TAG", "CONTENT", "DEFAULT");
    let mut configs = vec![External];
    for dd in [None, Some(d.to_string())] {
        configs.push(Internal(t.into(), dd.clone()));
        for deny in [false, true] {
            configs.push(Adjacent(t.into(), c.into(), dd.clone(), deny));
        }
    }
    let words = ["tag", "content", "default_variant", "deny_unknown_fields", "name", "value", "", "a\"b\\c", "\u{e9}\u{1F600}", "Tr", "type", "TAG", "x y", "{}", "\0"];
    let mut made: BTreeMap<(usize, String), Args> = BTreeMap::new();
    let mut seqs: BTreeSet<Vec<T>> = BTreeSet::new();
    for (k, (mname, m)) in MACROS.iter().enumerate() {
        for cfg in &configs {
            let canon = written(cfg, false, false);
            let Ok(Some(base)) = expand(*m, stream(&canon), tr.clone()) else {
                run.case(format!("#[typetag::{mname}({})] {TRAIT}", show(&canon)), || Err("a configuration as documented is refused".into()));
                continue;
            };
            // a configuration that only concerns reading need not show in a serialize-only trait
            let same = *mname == "serialize" && !matches!(cfg, External);
            if !same {
                let key = (k, base.1.clone());
                let other = made.get(&key).cloned();
                run.case(format!("#[typetag::{mname}({})] {TRAIT}", show(&canon)), || match other {
                    Some(o) => Err(format!("expands to the same code as {o:?}")),
                    None => Ok(()),
                });
                made.insert(key, cfg.clone());
            }
            for swap in [false, true] {
                for end in [false, true] {
                    let w = written(cfg, swap, end);
                    seqs.insert(w.clone());
                    for i in 0..words.len() {
                        let (x, y, z) = (words[i], words[rng.next(words.len())], words[rng.next(words.len())]);
                        let x = if i == 0 { t } else { x };
                        let (y, z) = if i == 0 { (c, d) } else { (y, z) };
                        let lits: BTreeMap<String, TokenStream> = [(t, x), (c, y), (d, z)]
                            .iter()
                            .map(|(a, b)| (Literal::string(a).to_string(), TokenStream::from(TokenTree::from(Literal::string(b)))))
                            .collect();
                        let w2: Vec<T> = w
                            .iter()
                            .map(|k| match k {
                                L(s) if s == t => L(x.into()),
                                L(s) if s == c => L(y.into()),
                                L(s) if s == d => L(z.into()),
                                k => k.clone(),
                            })
                            .collect();
                        let want = (base.0.clone(), exchanged(&base.1, &lits));
                        run.case(format!("#[typetag::{mname}({})] {TRAIT}", show(&w2)), || match expand(*m, stream(&w2), tr.clone())? {
                            None => Err("a configuration as documented is refused".into()),
                            Some(got) if got == want => Ok(()),
                            Some(got) => Err(format!("expands to\n      {} {}\n    instead of what {} expands to:\n      {} {}", got.0, got.1, show(&canon), want.0, want.1)),
                        });
                    }
                }
            }
        }
    }

    // everything near a configuration that is none
    let pool = [W("tag"), W("content"), W("default_variant"), W("deny_unknown_fields"), W("name"), W("other"), P('='), P(','), P(';'), L("x".into()), N(7)];
    let good: Vec<Vec<T>> = seqs.iter().cloned().collect();
    let mut near: BTreeSet<Vec<T>> = BTreeSet::new();
    for g in &good {
        for i in 0..=g.len() {
            near.insert(g[..i].to_vec());
            for p in &pool {
                let mut v = g.clone();
                v.insert(i, p.clone());
                near.insert(v);
                if i < g.len() {
                    let mut v = g.clone();
                    v[i] = p.clone();
                    near.insert(v);
                }
            }
            if i < g.len() {
                let mut v = g.clone();
                v.remove(i);
                near.insert(v);
                for j in i + 1..=g.len() {
                    // a part left out, or written twice
                    let mut v = g.clone();
                    v.drain(i..j);
                    near.insert(v);
                    let mut v = g[..j].to_vec();
                    v.extend_from_slice(&g[i..]);
                    near.insert(v);
                }
            }
        }
    }
    // options in every order, with repetitions
    let options: [&[T]; 4] = [
        &[W("tag"), P('='), L("TAG".into())],
        &[W("content"), P('='), L("CONTENT".into())],
        &[W("default_variant"), P('='), L("DEFAULT".into())],
        &[W("deny_unknown_fields")],
    ];
    let deep = if thorough { 6 } else { 5 };
    for n in 0..=deep {
        for mut k in 0..4usize.pow(n) {
            let mut v = vec![];
            for i in 0..n {
                if i > 0 {
                    v.push(P(','));
                }
                v.extend_from_slice(options[k % 4]);
                k /= 4;
            }
            near.insert(v.clone());
            v.push(P(','));
            near.insert(v.clone());
            v.push(P(','));
            near.insert(v);
        }
    }
    for _ in 0..if thorough { 40000 } else { 2000 } {
        let n = rng.next(12);
        near.insert((0..n).map(|_| pool[rng.next(pool.len())].clone()).collect());
    }
    for v in &near {
        let (mname, m) = MACROS[rng.next(3)];
        let want = reading(v);
        run.case(format!("#[typetag::{mname}({})] {TRAIT}", show(v)), || match (want, expand(m, stream(v), tr.clone())?) {
            (None, None) => Ok(()),
            (None, Some(_)) => Err("is accepted, and is no configuration".into()),
            (Some(a), None) => Err(format!("is refused, and states the configuration {a:?}")),
            (Some(a), Some(got)) => match expand(m, stream(&written(&a, false, false)), tr.clone())? {
                Some(w) if w == got => Ok(()),
                w => Err(format!("expands to\n      {got:?}\n    instead of\n      {w:?}")),
            },
        });
    }

    // which markers a trait has, wherever they stand
    let one = ["Send", "Sync", "Marked", "?Sized", "'static", "?Send", "?Sync", "a::Send", "Send2", "Gen<Sync>"];
    let mut sup: Vec<Vec<&str>> = vec![vec![]];
    for a in one {
        sup.push(vec![a]);
        for b in one {
            sup.push(vec![a, b]);
            if thorough || a == "Send" || b == "Sync" || a == "Sync" {
                for c in one {
                    sup.push(vec![a, b, c]);
                }
            }
        }
    }
    let forms: Vec<(&str, Vec<T>)> = configs.iter().map(|c| ("serde", written(c, false, false))).collect();
    for (_, args) in &forms {
        let mut of: BTreeMap<String, (bool, bool)> = BTreeMap::new();
        for mk in [(false, false), (true, false), (false, true), (true, true)] {
            let list = [("Send", mk.0), ("Sync", mk.1)].iter().filter(|x| x.1).map(|x| x.0).collect::<Vec<_>>().join(" + ");
            let item = format!("trait Tr : {list} {{ }}");
            let Ok(Some(base)) = expand(macrosrc::serde, stream(args), item.parse().unwrap()) else { continue };
            let other = of.get(&base.1).copied();
            run.case(format!("#[typetag::serde({})] {item}", show(args)), || match other {
                Some(o) => Err(format!("expands to the same code as the markers {o:?}")),
                None => Ok(()),
            });
            of.insert(base.1.clone(), mk);
            for s in sup.iter().filter(|s| (s.contains(&"Send"), s.contains(&"Sync")) == mk) {
                let item = format!("trait Tr : {} {{ }}", s.join(" + "));
                let Ok(ts) = item.parse::<TokenStream>() else { continue };
                if syn::parse2::<syn::ItemTrait>(ts.clone()).is_err() {
                    continue;
                }
                run.case(format!("#[typetag::serde({})] {item}", show(args)), || match expand(macrosrc::serde, stream(args), ts)? {
                    Some(got) if got.1 == base.1 => Ok(()),
                    got => Err(format!("does not expand as for the markers {list:?}: {got:?}\n    instead of {}", base.1)),
                });
            }
        }
    }

    // implementations
    let types: &[(&str, Option<&str>, bool)] = &[
        ("Foo", Some("Foo"), false),
        ("a::Foo", Some("Foo"), false),
        ("::a::b::Foo", Some("Foo"), false),
        ("crate::a::Foo", Some("Foo"), false),
        ("self::Foo", Some("Foo"), false),
        ("super::x::Foo", Some("Foo"), false),
        ("Foo<u8>", Some("Foo"), false),
        ("a::Foo<b::Bar, 3>", Some("Foo"), false),
        ("a<Bar>::Foo", Some("Foo"), false),
        ("Foo<'static, (Bar, Baz)>", Some("Foo"), false),
        ("(Foo)", None, false),
        ("(Foo, Bar)", None, false),
        ("()", None, false),
        ("[u8; 3]", None, false),
        ("&'static str", None, false),
        ("<Foo as Bar>::Baz", None, false),
        ("<Foo>::Baz", None, false),
        ("dyn Foo", None, false),
        ("fn(u8) -> u8", None, false),
        ("*const u8", None, false),
        ("!", None, false),
        ("Foo", Some("Foo"), true),
        ("a::Foo<u8>", Some("Foo"), true),
        ("(Foo, Bar)", None, true),
    ];
    let path: &[&str] = &["Tr", "a::Tr", "::a::b::Tr"];
    let exprs = ["\"NAME\"", "NAME", "a::NAME", "concat!(\"a\", \"b\")", "name(1, 2)", "if x { \"a\" } else { \"b\" }", "{ 1 }", "\"tag\"", "\"\"", "\"\\u{e9}\\\"\""];
    for (mname, m) in MACROS {
        for p in path {
            for (ty, own, grouped) in types {
                let mut tyt: TokenStream = ty.parse().unwrap();
                for depth in 0..if *grouped { 3 } else { 1 } {
                    if *grouped {
                        tyt = TokenTree::from(Group::new(Delimiter::None, tyt)).into();
                    }
                    let pt: TokenStream = p.parse().unwrap();
                    let item = quote::quote!(impl #pt for #tyt { fn f(&self) -> u8 { 1 } });
                    let show = format!("impl {p} for {ty} (in {depth} groups: {grouped}) {{ .. }}");
                    let Ok(Some(base)) = expand(m, "name = \"NAME\"".parse().unwrap(), item.clone()) else {
                        run.case(format!("#[typetag::{mname}(name = \"NAME\")] {show}"), || Err("is refused".into()));
                        continue;
                    };
                    for e in exprs {
                        for end in ["", ","] {
                            let a = format!("name = {e}{end}");
                            let l: BTreeMap<String, TokenStream> = [("\"NAME\"".to_string(), e.parse().unwrap())].into_iter().collect();
                            let want = (exchanged(&base.0, &l), exchanged(&base.1, &l));
                            run.case(format!("#[typetag::{mname}({a})] {show}"), || match expand(m, a.parse().unwrap(), item.clone())? {
                                Some(got) if got == want => Ok(()),
                                got => Err(format!("expands to {got:?}\n    instead of {want:?}")),
                            });
                        }
                    }
                    let own = own.map(|o| TokenStream::from(TokenTree::from(Literal::string(o))));
                    run.case(format!("#[typetag::{mname}] {show}"), || match (own, expand(m, TokenStream::new(), item.clone())?) {
                        (None, None) => Ok(()),
                        (None, Some(_)) => Err("accepted without a name, and the type has none".into()),
                        (Some(_), None) => Err("refused, and the type has a name".into()),
                        (Some(o), Some(got)) => {
                            let l: BTreeMap<String, TokenStream> = [("\"NAME\"".to_string(), o)].into_iter().collect();
                            let want = (exchanged(&base.0, &l), exchanged(&base.1, &l));
                            if got == want { Ok(()) } else { Err(format!("expands to {got:?}\n    instead of {want:?}")) }
                        }
                    });
                    for bad in ["name", "name =", "= \"x\"", "name \"x\"", "name = ,", "name = \"x\" \"y\"", "name = \"x\",,", "name = \"x\", name = \"y\"", ",", "tag = \"x\"", "\"x\"", "name : \"x\"", "Name = \"x\"", "name == \"x\""] {
                        run.case(format!("#[typetag::{mname}({bad})] {show}"), || match expand(m, bad.parse().unwrap(), item.clone())? {
                            None => Ok(()),
                            Some(_) => Err("is accepted, and states no name".into()),
                        });
                    }
                }
            }
        }
    }

    items(&mut run);

    let samples: Vec<String> = run.distinct.iter().step_by(run.distinct.len() / 3 + 1).cloned().collect();
    println!(
        "{{\"evaluations\": {}, \"distinct\": {}, \"samples\": {}, \"known\": [], \"violations\": {}}}",
        run.evaluations,
        run.distinct.len(),
        json(&samples),
        json(&run.violations)
    );
}

/// What the item says itself: attributes, bounds, generics, items.
fn said(i: &syn::Item) -> Option<(Vec<String>, Vec<String>, String, Vec<String>)> {
    fn t(x: impl quote::ToTokens) -> String {
        quote::quote!(#x).to_string()
    }
    Some(match i {
        syn::Item::Trait(x) => {
            let mut head = x.clone();
            (head.attrs, head.items) = (vec![], vec![]);
            head.supertraits = Default::default();
            head.colon_token = None;
            (x.attrs.iter().map(t).collect(), x.supertraits.iter().map(t).collect(), t(head), x.items.iter().map(t).collect())
        }
        syn::Item::Impl(x) => {
            let mut head = x.clone();
            (head.attrs, head.items) = (vec![], vec![]);
            (x.attrs.iter().map(t).collect(), vec![], t(head), x.items.iter().map(t).collect())
        }
        _ => return None,
    })
}

/// Every part of `a` stands in `b`, in the same order.
fn within(a: &[String], b: &[String]) -> bool {
    let mut b = b.iter();
    a.iter().all(|x| b.any(|y| y == x))
}

fn items(run: &mut Run) {
    let attrs = ["", "#[a]", "/// doc\n", "#[a] #[b(c = \"d\")]", "#[cfg(x)]", "/** b */"];
    let inner = ["", "#![c]", "//! doc\n", "#![c] #![d]"];
    let vis = ["", "pub", "pub(crate)", "pub(in a::b)"];
    let bounds = ["", ":", ": A", ": A + Send", ": Sync + 'static", ": Send + Sync + fmt::Debug", ": for<'a> B<&'a str>"];
    // (item, may be part of a trait object)
    let body: [(&str, bool); 10] = [
        ("", true),
        ("fn f(&self);", true),
        ("fn f(&self) -> u8 { 1 } fn g(&mut self, x: &str);", true),
        ("/// doc\n #[inline] fn f(self: Box<Self>);", true),
        ("fn f() where Self: Sized; fn g<T>(&self) where Self: Sized { }", true),
        ("type T where Self: Sized;", true),
        ("type T: Clone where Self: Sized + Copy; fn f(&self);", true),
        ("fn f(&self); type T;", false),
        ("const C: u8; fn f(&self);", false),
        ("fn f(&self); const C: u8 = 1;", false),
    ];
    let none = TokenStream::new;
    let args = ["", "tag = \"t\"", "tag = \"t\", content = \"c\""];
    for (n, (mname, m)) in MACROS.iter().enumerate() {
        let mut check = |arg: &str, src: String, ok: bool| {
            let Ok(ts) = src.parse::<TokenStream>() else { return };
            let item: syn::Item = match syn::parse2(ts.clone()) {
                Ok(i) => i,
                Err(_) => return,
            };
            let Some((a, b, h, i)) = said(&item) else { return };
            let label = if arg.is_empty() { format!("#[typetag::{mname}] {src}") } else { format!("#[typetag::{mname}({arg})] {src}") };
            run.case(label, || match (expand(*m, if arg.is_empty() { none() } else { arg.parse().unwrap() }, ts)?, ok) {
                (None, false) => Ok(()),
                (None, true) => Err("is refused".into()),
                (Some(_), false) => Err("is accepted, and can be no trait object with a name of its own".into()),
                (Some((first, _)), true) => {
                    let got = syn::parse_str::<syn::Item>(&first).ok().as_ref().and_then(said);
                    let Some((a2, b2, h2, i2)) = got else { return Err(format!("the item is not in the expansion: {first}")) };
                    for (what, ok) in [
                        ("an attribute is lost", within(&a, &a2)),
                        ("a bound is lost", within(&b, &b2)),
                        ("the item's head is changed", h == h2),
                        ("an item is lost", within(&i, &i2)),
                    ] {
                        if !ok {
                            return Err(format!("{what}: {first}"));
                        }
                    }
                    Ok(())
                }
            });
        };
        for a in attrs {
            for i in inner {
                for (k, (b, ok)) in body.iter().enumerate() {
                    for v in vis {
                        let bd = bounds[(k + v.len() + i.len()) % bounds.len()];
                        check(args[k % 3], format!("{a} {v} trait Tr{bd} {{ {i} {b} }}"), *ok);
                    }
                    let b = b.replace(");", ") { }").replace("Sized;", "Sized = u8;").replace("type T;", "type T = u8;").replace("C: u8;", "C: u8 = 2;");
                    // associated types do no harm in an implementation
                    let ok = !b.contains("const");
                    check("", format!("{a} impl Tr for Foo {{ {i} {b} }}"), ok);
                    check("name = \"x\"", format!("{a} impl a::Tr for b::Foo<u8> {{ {i} {b} }}"), ok);
                }
            }
            for bd in bounds {
                check("", format!("{a} trait Tr{bd} {{ fn f(&self); }}"), true);
            }
            // generics: for writing only
            let only = n == 1;
            for g in ["<T>", "<'a>", "<T: Clone, const N: usize>"] {
                for arg in args {
                    check(arg, format!("{a} pub trait Tr{g} where Vec<T>: Clone {{ fn f(&self); }}"), only);
                }
                check("name = \"x\"", format!("{a} impl{g} Tr for Foo<T> where T: Clone {{ fn f(&self) {{ }} }}"), only);
            }
            check("", format!("{a} impl Foo {{ fn f(&self) {{ }} }}"), false);
            check("", format!("{a} unsafe trait Tr {{ }}"), true);
            check("", format!("{a} unsafe impl Tr for Foo {{ }}"), true);
            check("", format!("{a} struct Foo;"), false);
            check("", format!("{a} fn f() {{ }}"), false);
        }
    }
}

fn json(v: &[String]) -> String {
    let q = |s: &String| {
        let mut o = String::from("\"");
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
                c => o.push(c),
            }
        }
        o + "\""
    };
    format!("[{}]", v.iter().map(q).collect::<Vec<_>>().join(", "))
}
