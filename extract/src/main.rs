//! Mechanical extraction of typetag's library code into Verus.
//!
//! Input: `rustc -Zunpretty=expanded` of /repo's current tree, the trait
//! declarations of the serde_core crate it is built against, and the contract
//! tables. Output: one Verus file with the same function bodies, each under its
//! contract, plus a JSON map from line ranges to function ids.
mod attr;
mod inline;
mod contracts;
mod gen;
mod serde_impls;
mod tx;
mod value;

use contracts::{subst, Contracts};
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

pub struct TraitInfo {
    pub module: String,
    pub item: ItemTrait,
}

#[derive(Clone, Default)]
pub struct Uses {
    /// local name -> absolute path
    pub map: HashMap<String, Vec<String>>,
}

pub struct FnInfo {
    pub id: String,
    pub start: usize,
    pub end: usize,
    pub contract: &'static str,
    pub trusted: bool,
    pub origin: &'static str,
    pub notes: Vec<String>,
    pub calls: Vec<String>,
}

pub struct Cx {
    pub traits: BTreeMap<String, TraitInfo>,
    pub c: Contracts,
    pub out: String,
    pub line: usize,
    pub fns: Vec<FnInfo>,
    pub notes: Vec<String>,
    pub missing_spec: Vec<String>,
    /// names of methods whose return type is Result / Option
    pub ret_kind: HashMap<String, (tx::Kind, tx::Kind)>,
    pub copy_types: BTreeSet<String>,
    pub used: std::cell::RefCell<BTreeSet<String>>,
    /// functions whose body this run leaves out (the verifier could not read it)
    pub leave: BTreeSet<String>,
    /// how often a type of a module has a method of this name, in whatever impl
    pub methods: HashMap<(String, String, String), usize>,
    /// those emitted under their own name
    pub plain: BTreeSet<(String, String, String)>,
    /// vacuity run: every body starts with `assert(false)`
    pub probe: bool,
}

const SKIP_METHODS: &[&str] = &[
    "collect_seq",
    "collect_map",
    "collect_str",
    "deserialize_in_place",
    "__deserialize_content_v1",
    "__private_visit_untagged_option",
    "expecting",
];

/// provided methods whose default body is not emitted when an impl leaves it out
const NO_DEFAULT: &[&str] = &["size_hint", "is_human_readable", "visit_i128", "visit_u128"];

const DROP_TRAITS: &[&str] = &[
    "Debug", "Display", "StdError", "Expected", "TrivialClone", "StructuralPartialEq", "Write",
];

impl Cx {
    pub fn put(&mut self, s: &str) {
        self.out.push_str(s);
        self.out.push('\n');
        self.line += s.matches('\n').count() + 1;
    }

    pub fn resolve(&self, uses: &Uses, path: &Path) -> Vec<String> {
        let mut segs: Vec<String> = path.segments.iter().map(|s| s.ident.to_string()).collect();
        if path.leading_colon.is_none() {
            if let Some(abs) = uses.map.get(&segs[0]) {
                let mut v = abs.clone();
                v.extend(segs.drain(1..));
                return norm(v);
            }
        }
        norm(segs)
    }

    /// `serde::de::Visitor` -> key `de::Visitor`
    pub fn trait_key(&self, abs: &[String]) -> Option<String> {
        if abs.len() == 3 && abs[0] == "serde" {
            let k = format!("{}::{}", abs[1], abs[2]);
            if self.traits.contains_key(&k) {
                return Some(k);
            }
        }
        if abs.len() == 2 && abs[0] == "serde" {
            for m in ["ser", "de"] {
                let k = format!("{}::{}", m, abs[1]);
                if self.traits.contains_key(&k) {
                    return Some(k);
                }
            }
        }
        None
    }

    fn look<'a>(&self, map: &'a BTreeMap<String, String>, kind: &str, key: &str) -> Option<&'a String> {
        let r = map.get(key);
        if r.is_some() {
            self.used.borrow_mut().insert(format!("{} {}", kind, key));
        }
        r
    }
}

fn norm(mut v: Vec<String>) -> Vec<String> {
    if v[0] == "serde_core" {
        v[0] = "serde".into();
    }
    if v[0] == "crate" && v.len() > 1 && v[1] == "serde" {
        v.remove(0);
    }
    v
}

fn collect_uses(tree: &UseTree, prefix: Vec<String>, f: &mut dyn FnMut(Vec<String>, String)) {
    match tree {
        UseTree::Path(p) => {
            let mut n = prefix;
            n.push(p.ident.to_string());
            collect_uses(&p.tree, n, f)
        }
        UseTree::Name(n) => {
            let id = n.ident.to_string();
            if id == "self" {
                let last = prefix.last().unwrap().clone();
                f(prefix, last)
            } else {
                let mut p = prefix;
                p.push(id.clone());
                f(p, id)
            }
        }
        UseTree::Rename(r) => {
            let mut p = prefix;
            if r.ident != "self" {
                p.push(r.ident.to_string());
            }
            f(p, r.rename.to_string())
        }
        UseTree::Group(g) => {
            for t in &g.items {
                collect_uses(t, prefix.clone(), f)
            }
        }
        UseTree::Glob(_) => {
            let mut p = prefix;
            p.push("*".into());
            f(p, "*".into())
        }
    }
}

pub fn ts(t: impl ToTokens) -> String {
    t.to_token_stream().to_string()
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str| -> Option<String> {
        args.iter().position(|a| a == k).map(|i| args[i + 1].clone())
    };
    let expanded = std::fs::read_to_string(get("--expanded").unwrap()).unwrap();
    let serde_dir = get("--serde").unwrap();
    let cdir = get("--contracts").unwrap();
    let mut files = vec![];
    let mut names: Vec<_> = std::fs::read_dir(&cdir)
        .unwrap()
        .map(|e| e.unwrap().path())
        .collect();
    names.sort();
    let mut preludes = BTreeMap::new();
    for p in names {
        let t = std::fs::read_to_string(&p).unwrap();
        let n = p.file_name().unwrap().to_string_lossy().to_string();
        if n.ends_with(".vc") {
            files.push((n, t));
        } else if n.ends_with(".rs") {
            preludes.insert(n, t);
        }
    }
    if let Some(g) = get("--gen-contracts") {
        files.push(("gen.vc".into(), std::fs::read_to_string(g).unwrap()));
    }
    let c = contracts::parse(&files);
    // ids of the functions the contracts were written for
    let base: Option<BTreeSet<String>> = get("--base").map(|s| s.split(';').map(str::to_string).collect());
    let mut cx = Cx {
        traits: BTreeMap::new(),
        c,
        out: String::new(),
        line: 1,
        fns: vec![],
        notes: vec![],
        missing_spec: vec![],
        ret_kind: HashMap::new(),
        copy_types: BTreeSet::new(),
        used: Default::default(),
        leave: get("--leave").map(|s| s.split(';').map(str::to_string).collect()).unwrap_or_default(),
        methods: HashMap::new(),
        plain: BTreeSet::new(),
        probe: args.iter().any(|a| a == "--probe"),
    };
    for m in ["ser", "de"] {
        let src = std::fs::read_to_string(format!("{}/{}/mod.rs", serde_dir, m)).unwrap();
        let mut texts = vec![src];
        if let Some(t) = preludes.get(&format!("errors_{}.rs", m)) {
            texts.push(t.clone());
        }
        for src in texts {
            let f = parse_file(&src).unwrap();
            for it in f.items {
                if let Item::Trait(t) = it {
                    let n = t.ident.to_string();
                    if n == "Expected" || n == "DeserializeOwned" {
                        continue;
                    }
                    for ti in &t.items {
                        if let TraitItem::Fn(f) = ti {
                            if let Some(k) = tx::sig_kind(&f.sig) {
                                cx.ret_kind.insert(f.sig.ident.to_string(), k);
                            }
                        }
                    }
                    cx.traits.insert(format!("{}::{}", m, n), TraitInfo { module: m.into(), item: t });
                }
            }
        }
    }
    let file = parse_file(&expanded).unwrap_or_else(|e| panic!("expanded source: {}", e));
    syn::visit::Visit::visit_file(&mut Methods(vec![], &mut cx.methods), &file);
    let only: Option<BTreeSet<String>> =
        get("--modules").map(|m| m.split(',').map(str::to_string).collect());

    // prelude with generated traits
    let main_prelude = preludes["prelude.rs"].clone();
    for line in main_prelude.lines() {
        if let Some(m) = line.trim().strip_prefix("//@TRAITS ") {
            emit_traits(&mut cx, m.trim());
        } else if let Some(m) = line.trim().strip_prefix("//@INCLUDE ") {
            let t = preludes[m.trim()].clone();
            for l in t.lines() {
                cx.put(l);
            }
        } else if line.trim() == "//@EXTS" {
            let keys: Vec<String> = cx.traits.keys().cloned().collect();
            for k in keys {
                let (m, n) = k.split_once("::").unwrap();
                let l = format!("pub use crate::serde::{m}::{n}Ext as {m}_{n}Ext; pub use crate::serde::{m}::{n} as {m}_{n}Spec;");
                cx.put(&l);
            }
        } else if line.trim() == "//@CODE" {
            let (items, notes) = value::lower(&serde_dir);
            cx.notes.extend(notes);
            emit_mod(&mut cx, "value", &items);
            if let Some(e) = get("--serde-expanded") {
                let (mods, notes) = serde_impls::lower(&std::fs::read_to_string(e).unwrap());
                cx.notes.extend(notes);
                for (n, items) in &mods {
                    emit_mod(&mut cx, n, items);
                }
            }
            for it in &file.items {
                if let Item::Mod(m) = it {
                    let n = m.ident.to_string();
                    if m.content.is_none() || n.starts_with("__private") {
                        continue;
                    }
                    if let Some(o) = &only {
                        if !o.contains(&n) {
                            continue;
                        }
                    }
                    let mut items = m.content.as_ref().unwrap().1.clone();
                    if let Some(base) = &base {
                        cx.notes.extend(inline::inline(&n, &mut items, base));
                    }
                    emit_mod(&mut cx, &n, &items);
                }
            }
            if let Some(f) = get("--fixture") {
                let t = std::fs::read_to_string(f).unwrap();
                let file = parse_file(&t).unwrap_or_else(|e| panic!("expanded fixture: {}", e));
                for it in &file.items {
                    let Item::Mod(m) = it else { continue };
                    let Some((_, items)) = &m.content else { continue };
                    let lw = gen::lower(&format!("fx_{}", m.ident), items);
                    cx.notes.extend(lw.notes);
                    let e = cx.c.extra.entry(lw.name.clone()).or_default();
                    e.push_str(&lw.extra);
                    emit_mod(&mut cx, &lw.name, &lw.items);
                }
            }
            if let Some(d) = get("--attr") {
                let (mut items, extra, notes) = attr::lower(&d);
                cx.notes.extend(notes);
                if let Some(base) = &base {
                    cx.notes.extend(inline::inline("attr", &mut items, base));
                }
                cx.c.extra.entry("attr".into()).or_default().push_str(&extra);
                cx.put("pub mod asyn {");
                let t = preludes["attr_shim.rs"].clone();
                for l in t.lines() {
                    cx.put(l);
                }
                cx.put("}");
                emit_mod(&mut cx, "attr", &items);
            }
            if let Some(n) = get("--append") {
                let t = preludes[&format!("{n}.rs")].clone();
                cx.put(&format!("pub mod {n} {{"));
                for l in t.lines() {
                    cx.put(l);
                }
                cx.put("}");
            }
        } else {
            cx.put(line);
        }
    }
    std::fs::write(get("--out").unwrap(), &cx.out).unwrap();
    // map
    let mut j = String::from("{\n\"functions\": [\n");
    for (i, f) in cx.fns.iter().enumerate() {
        let notes: Vec<String> = f.notes.iter().map(|n| format!("{:?}", n)).collect();
        write!(
            j,
            "{}{{\"id\": {:?}, \"start\": {}, \"end\": {}, \"contract\": {:?}, \"trusted\": {}, \"origin\": {:?}, \"notes\": [{}], \"calls\": {:?}}}",
            if i == 0 { "" } else { ",\n" },
            f.id, f.start, f.end, f.contract, f.trusted, f.origin, notes.join(", "), f.calls
        )
        .unwrap();
    }
    let unused: Vec<String> = {
        let used = cx.used.borrow();
        let mut u = vec![];
        for (k, m) in [("fn", &cx.c.fns), ("im", &cx.c.im), ("spec", &cx.c.spec), ("trusted", &cx.c.trusted), ("imreq", &cx.c.imreq), ("proof", &cx.c.proof)] {
            for key in m.keys() {
                let s = format!("{} {}", k, key);
                if !used.contains(&s) {
                    u.push(s);
                }
            }
        }
        for (k, m) in [("loop", &cx.c.loops), ("closure", &cx.c.closures)] {
            for key in m.keys() {
                let s = format!("{} {} {}", k, key.0, key.1);
                if !used.contains(&s) {
                    u.push(s);
                }
            }
        }
        u
    };
    write!(
        j,
        "\n],\n\"notes\": {:?},\n\"missing_spec\": {:?},\n\"unused_contracts\": {:?},\n\"props\": {{\n",
        cx.notes, cx.missing_spec, unused
    )
    .unwrap();
    for (i, (k, v)) in cx.c.props.iter().enumerate() {
        write!(j, "{}{:?}: {:?}", if i == 0 { "" } else { ",\n" }, k, v).unwrap();
    }
    j.push_str("\n}}\n");
    std::fs::write(get("--map").unwrap(), j).unwrap();
}

// ---------------------------------------------------------------- traits

fn bounds_no_lt(b: &punctuated::Punctuated<TypeParamBound, Token![+]>) -> String {
    let v: Vec<String> = b
        .iter()
        .filter(|b| !matches!(b, TypeParamBound::Lifetime(_)))
        .map(ts)
        .collect();
    v.join(" + ")
}

fn emit_traits(cx: &mut Cx, module: &str) {
    let keys: Vec<String> = cx
        .traits
        .keys()
        .filter(|k| k.starts_with(&format!("{}::", module)))
        .cloned()
        .collect();
    for key in keys {
        let item = cx.traits[&key].item.clone();
        let name = item.ident.to_string();
        let unsized_ok = name == "Serialize";
        let mut gen = item.generics.clone();
        for p in gen.type_params_mut() {
            p.default = None;
            p.eq_token = None;
        }
        let (ig, tg, wc) = gen.split_for_impl();
        let (igs, tgs, wcs) = (ts(&ig), ts(&tg), wc.map(ts).unwrap_or_default());
        let mut s = format!(
            "pub trait {}{} {} {} {{\n",
            name,
            igs,
            if unsized_ok { "" } else { ": Sized" },
            wcs
        );
        for ti in &item.items {
            if let TraitItem::Type(t) = ti {
                let b = bounds_no_lt(&t.bounds);
                writeln!(s, "    type {}{}{};", t.ident, if b.is_empty() { "" } else { ": " }, b).unwrap();
            }
        }
        if let Some(sp) = cx.c.traitspec.get(&key) {
            s.push_str(sp);
        }
        s.push('}');
        cx.put(&s);
        let mut ext = format!("pub trait {0}Ext{1} : {0}{2} {3} {{\n", name, igs, tgs, wcs);
        let mut imp = {
            let mut g2 = gen.clone();
            let b: TokenStream = if unsized_ok { quote!(?Sized +) } else { quote!() };
            let tr: TokenStream = format!("{}{}", name, tgs).parse().unwrap();
            let p: GenericParam = parse2(quote!(__T: #b #tr)).unwrap();
            g2.params.push(p);
            let (ig2, _, _) = g2.split_for_impl();
            format!("impl{} {}Ext{} for __T {} {{\n", ts(&ig2), name, tgs, wcs)
        };
        for ti in &item.items {
            let TraitItem::Fn(f) = ti else { continue };
            let mname = f.sig.ident.to_string();
            if SKIP_METHODS.contains(&mname.as_str()) || ext.contains(&format!(" fn {} ", mname)) {
                continue;
            }
            let mut sig = f.sig.clone();
            tx::name_params(&mut sig);
            let params = tx::param_names(&sig);
            let clauses = cx
                .c
                .tm
                .get(&format!("{}::{}", key, mname))
                .map(|t| subst(t, &params, &HashMap::new()).replace("__TRAIT", &format!("{}{}", name, tgs)))
                .unwrap_or_default();
            let head = fn_head(&sig, None);
            let wh = sig.generics.where_clause.as_ref().map(ts).unwrap_or_default();
            writeln!(ext, "    fn {} {}\n{}    ;", head, wh, clauses).unwrap();
            writeln!(
                imp,
                "    #[verifier::external_body] fn {} {} {{ unimplemented!() }}",
                head, wh
            )
            .unwrap();
        }
        ext.push('}');
        imp.push('}');
        cx.put(&ext);
        cx.put(&imp);
    }
}

/// `name <generics> (inputs) -> (r: Ret)`
fn fn_head(sig: &Signature, rename: Option<&str>) -> String {
    let g = &sig.generics;
    let lt = if g.params.is_empty() { String::new() } else { format!("<{}>", ts(&g.params)) };
    let ret = match &sig.output {
        ReturnType::Default => "(r: ())".to_string(),
        ReturnType::Type(_, t) => format!("(r: {})", ts(t)),
    };
    format!(
        "{} {} ({}) -> {}",
        rename.map(str::to_string).unwrap_or(sig.ident.to_string()),
        lt,
        ts(&sig.inputs),
        ret
    )
}

// ---------------------------------------------------------------- modules

fn is_derived(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("automatically_derived"))
}

fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => format!("ref_{}", type_name(&r.elem)),
        Type::TraitObject(t) => {
            let mut n = String::from("dyn");
            for b in &t.bounds {
                if let TypeParamBound::Trait(t) = b {
                    n.push('_');
                    n.push_str(&t.path.segments.last().unwrap().ident.to_string());
                }
            }
            n
        }
        _ => "other".into(),
    }
}

fn emit_mod(cx: &mut Cx, name: &str, items: &[Item]) {
    let mut uses = Uses::default();
    let mut use_lines = vec![];
    for it in items {
        if let Item::Use(u) = it {
            collect_uses(&u.tree, vec![], &mut |path, local| {
                if local != "*" {
                    uses.map.insert(local.clone(), norm(path.clone()));
                }
                if name == "private" {
                    return;
                }
                let p = norm(path);
                if p.iter().any(|s| s == "fmt")
                    || ["forward_to_deserialize_any", "StdError", "Debug", "Display", "ToOwned"].contains(&local.as_str())
                    || p == ["core", "str"] || p == ["std", "str"]
                {
                    return;
                }
                let mut q = p.clone();
                match q[0].as_str() {
                    "serde" | "erased_serde" | "inventory" | "once_cell" => q.insert(0, "crate".into()),
                    "alloc" | "core" => q[0] = "std".into(),
                    _ => {}
                }
                let j = q.join("::");
                if j.ends_with("::*") || q.last().unwrap() == &local {
                    use_lines.push(format!("use {};", j));
                } else {
                    use_lines.push(format!("use {} as {};", j, local));
                }
            });
        }
    }
    // local items resolve to themselves
    let mut flat: Vec<Item> = items.to_vec();
    let mut hoisted = vec![];
    for it in &mut flat {
        hoist_item(it, &mut hoisted);
    }
    flat.extend(hoisted);
    for it in &flat {
        let n = match it {
            Item::Struct(s) => s.ident.to_string(),
            Item::Enum(s) => s.ident.to_string(),
            Item::Trait(s) => s.ident.to_string(),
            Item::Fn(s) => s.sig.ident.to_string(),
            _ => continue,
        };
        uses.map.insert(n.clone(), vec!["crate".into(), name.into(), n]);
    }
    for it in &flat {
        if let Item::Impl(im) = it {
            if let Some((_, p, _)) = &im.trait_ {
                if p.segments.last().unwrap().ident == "Copy" {
                    cx.copy_types.insert(format!("{}::{}", name, type_name(&im.self_ty)));
                }
            }
            if im.trait_.is_none() {
                for ii in &im.items {
                    if let ImplItem::Fn(f) = ii {
                        if let Some(k) = tx::sig_kind(&f.sig) {
                            cx.ret_kind.entry(f.sig.ident.to_string()).or_insert(k);
                        }
                    }
                }
            }
        }
        if let Item::Fn(f) = it {
            if let Some(k) = tx::sig_kind(&f.sig) {
                cx.ret_kind.entry(f.sig.ident.to_string()).or_insert(k);
            }
        }
    }
    cx.put(&format!("pub mod {} {{", name));
    cx.put("use vstd::prelude::*;");
    cx.put("#[allow(unused_imports)] use crate::ext::*;");
    cx.put("#[allow(unused_imports)] use crate::spec::*;");
    cx.put("#[allow(unused_imports)] use crate::shim::*;");
    if name == "attr" {
        cx.put("#[allow(unused_imports)] use crate::asyn::*;");
    }
    if name.starts_with("fx_") {
        cx.put("#[allow(unused_imports)] use crate::gspec::*;");
    }
    for l in &use_lines {
        cx.put(l);
    }
    if cx.c.extra.contains_key(&format!("{}/lemmas", name)) {
        cx.put(&format!("use crate::{}_lemmas::*;", name));
    }
    cx.put("verus! {");
    let groups: String = cx.c.bcast.get(name).map(|s| s.split_whitespace().map(|g| format!(", {}", g)).collect()).unwrap_or_default();
    cx.put(&format!("broadcast use {{crate::spec::group_typetag{}}};", groups));
    for it in &flat {
        emit_item(cx, name, &uses, it);
    }
    if let Some(x) = cx.c.extra.get(name).cloned() {
        cx.put(&x);
    }
    cx.put("} // verus!");
    cx.put("}");
    if let Some(x) = cx.c.extra.get(&format!("{}/lemmas", name)).cloned() {
        cx.put(&format!("pub mod {0}_lemmas {{ use vstd::prelude::*; use crate::spec::*; use crate::shim::*; use crate::{0}::*; verus! {{\nbroadcast use crate::spec::group_typetag;", name));
        cx.put(&x);
        cx.put("} }");
    }
}

/// Lift items nested in function bodies to the module, renaming them.
fn hoist_item(it: &mut Item, out: &mut Vec<Item>) {
    fn block(b: &mut Block, ctx: &str, out: &mut Vec<Item>) {
        struct H<'a> {
            ctx: &'a str,
            items: Vec<Item>,
        }
        impl VisitMut for H<'_> {
            fn visit_block_mut(&mut self, b: &mut Block) {
                b.stmts.retain(|s| match s {
                    Stmt::Item(i @ (Item::Struct(_) | Item::Enum(_) | Item::Impl(_) | Item::Fn(_))) => {
                        self.items.push(i.clone());
                        false
                    }
                    Stmt::Item(Item::Use(_)) | Stmt::Item(Item::Macro(_)) => false,
                    _ => true,
                });
                visit_mut::visit_block_mut(self, b);
            }
        }
        let mut h = H { ctx, items: vec![] };
        h.visit_block_mut(b);
        if h.items.is_empty() {
            return;
        }
        let mut ren = HashMap::new();
        for i in &h.items {
            let n = match i {
                Item::Struct(s) => &s.ident,
                Item::Enum(s) => &s.ident,
                Item::Fn(s) => &s.sig.ident,
                _ => continue,
            };
            ren.insert(n.to_string(), format!("{}__{}", n, h.ctx));
        }
        struct R(HashMap<String, String>);
        impl VisitMut for R {
            fn visit_path_mut(&mut self, p: &mut Path) {
                if p.leading_colon.is_none() {
                    let s = &mut p.segments[0];
                    if let Some(n) = self.0.get(&s.ident.to_string()) {
                        s.ident = Ident::new(n, s.ident.span());
                    }
                }
                visit_mut::visit_path_mut(self, p);
            }
            fn visit_item_struct_mut(&mut self, s: &mut ItemStruct) {
                if let Some(n) = self.0.get(&s.ident.to_string()) {
                    s.ident = Ident::new(n, s.ident.span());
                }
                visit_mut::visit_item_struct_mut(self, s);
            }
            fn visit_item_enum_mut(&mut self, s: &mut ItemEnum) {
                if let Some(n) = self.0.get(&s.ident.to_string()) {
                    s.ident = Ident::new(n, s.ident.span());
                }
                visit_mut::visit_item_enum_mut(self, s);
            }
            fn visit_item_fn_mut(&mut self, s: &mut ItemFn) {
                if let Some(n) = self.0.get(&s.sig.ident.to_string()) {
                    s.sig.ident = Ident::new(n, s.sig.ident.span());
                }
                visit_mut::visit_item_fn_mut(self, s);
            }
        }
        let mut r = R(ren);
        r.visit_block_mut(b);
        for mut i in h.items {
            r.visit_item_mut(&mut i);
            hoist_item(&mut i, out);
            out.push(i);
        }
    }
    match it {
        Item::Fn(f) => {
            let n = f.sig.ident.to_string();
            block(&mut f.block, &n, out)
        }
        Item::Impl(im) => {
            if let Some((_, p, _)) = &im.trait_ {
                if DROP_TRAITS.contains(&p.segments.last().unwrap().ident.to_string().as_str()) {
                    return;
                }
            }
            let t = type_name(&im.self_ty);
            for ii in &mut im.items {
                if let ImplItem::Fn(f) = ii {
                    let n = format!("{}_{}", t, f.sig.ident);
                    block(&mut f.block, &n, out)
                }
            }
        }
        _ => {}
    }
}

fn emit_item(cx: &mut Cx, module: &str, uses: &Uses, it: &Item) {
    match it {
        Item::Struct(s) => {
            let mut s = s.clone();
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            for f in s.fields.iter_mut() {
                f.attrs.clear();
                // a type invariant needs private fields
                f.vis = if module == "value" && s.ident.to_string().ends_with("Deserializer") { Visibility::Inherited } else { parse_quote!(pub) };
            }
            let mut t = tx::Tx::new(cx, module, uses, None, String::new());
            t.visit_item_struct_mut(&mut s);
            drop(t);
            for p in s.generics.type_params() {
                cx.put(&format!("#[verifier::reject_recursive_types({})]", p.ident));
            }
            cx.put(&ts(&s));
        }
        Item::Enum(s) => {
            let mut s = s.clone();
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            for v in s.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.attrs.clear();
                }
            }
            if s.variants.is_empty() {
                cx.put(&format!("#[verifier::external_body] pub struct {} {{ x: () }}", s.ident));
                return;
            }
            let mut t = tx::Tx::new(cx, module, uses, None, String::new());
            t.visit_item_enum_mut(&mut s);
            drop(t);
            cx.put(&ts(&s));
        }
        Item::Const(c) => {
            let mut c = c.clone();
            c.attrs.clear();
            c.vis = parse_quote!(pub);
            let mut t = tx::Tx::new(cx, module, uses, None, String::new());
            t.visit_item_const_mut(&mut c);
            drop(t);
            struct L;
            impl VisitMut for L {
                fn visit_type_reference_mut(&mut self, t: &mut TypeReference) {
                    if t.lifetime.is_none() {
                        t.lifetime = Some(parse_quote!('static));
                    }
                    visit_mut::visit_type_reference_mut(self, t);
                }
            }
            L.visit_type_mut(&mut c.ty);
            cx.put(&ts(&c));
        }
        Item::Fn(f) => emit_fn(
            cx,
            module,
            uses,
            FnSrc {
                id: format!("{}::{}", module, f.sig.ident),
                sig: f.sig.clone(),
                block: (*f.block).clone(),
                rename: None,
                imp: None,
                tmkey: None,
                origin: "typetag",
                attrs: &f.attrs,
                foreign: None,
            },
        ),
        Item::Impl(im) => emit_impl(cx, module, uses, im),
        Item::Use(_) | Item::Mod(_) | Item::ExternCrate(_) | Item::Macro(_) => {}
        Item::Type(t) if module == "private" => {
            let _ = t;
        }
        Item::Trait(t) if module == "private" && t.ident == "Strictest" => {}
        other => {
            let mut o = other.clone();
            let mut t = tx::Tx::new(cx, module, uses, None, String::new());
            t.visit_item_mut(&mut o);
            drop(t);
            cx.notes.push(format!("item passed through in {}", module));
            cx.put(&ts(&o));
        }
    }
}

pub struct ImplCtx {
    pub assoc: BTreeSet<String>,
    pub trait_path: Option<String>,
    pub self_ty: String,
}

struct FnSrc<'a> {
    id: String,
    sig: Signature,
    block: Block,
    rename: Option<String>,
    imp: Option<&'a ImplCtx>,
    tmkey: Option<(String, String)>, // (de::Visitor, "content::X as Visitor")
    origin: &'static str,
    attrs: &'a [Attribute],
    /// of a type that is not the crate's own: emitted as a function of `self_`
    foreign: Option<String>,
}

fn emit_fn(cx: &mut Cx, module: &str, uses: &Uses, f: FnSrc) {
    let mut sig = f.sig;
    let mut block = f.block;
    let _ = f.attrs;
    tx::name_params(&mut sig);
    own_mut_self(&mut sig, &mut block);
    let mut params = tx::param_names(&sig);
    if f.foreign.is_some() {
        params.remove(0);
    }
    let mname = sig.ident.to_string();
    let mut contract = "none";
    let mut clauses = String::new();
    let mut has_self_assoc = None;
    if let Some((tk, tyk)) = &f.tmkey {
        let imkey = format!("{}::{}", tyk, mname);
        if let Some(t) = cx.look(&cx.c.im, "im", &imkey) {
            clauses = t.clone();
            contract = "table (impl)";
        } else if let Some(t) = cx.look(&cx.c.tm, "tm", &format!("{}::{}", tk, mname)) {
            let mut t = t.clone();
            if let Some(q) = cx.look(&cx.c.imreq, "imreq", &imkey) {
                // one list of preconditions
                let rest = t.trim_start();
                t = format!("{}{}", q, rest.strip_prefix("requires").unwrap_or(rest));
            }
            clauses = t;
            contract = "table (trait)";
        }
        has_self_assoc = f.imp;
    } else if let Some(t) = cx.look(&cx.c.fns, "fn", &f.id) {
        clauses = t.clone();
        contract = "table (fn)";
        has_self_assoc = f.imp;
    }
    let mut trusted = cx.look(&cx.c.trusted, "trusted", &f.id).is_some();
    let calls = calls_of(&block);
    let mut names = HashMap::new();
    tx::role_names(&block, &mut names);
    clauses = subst(&clauses, &params, &names);
    if let Some(imp) = has_self_assoc {
        if let Some(tp) = &imp.trait_path {
            clauses = clauses.replace("__TRAIT", tp);
            for a in &imp.assoc {
                clauses = clauses.replace(&format!("Self::{}", a), &format!("<Self as {}>::{}", tp, a));
            }
        }
    }
    if clauses.is_empty() {
        if let Some(t) = tx::infer_ctor(&block) {
            clauses = format!("    ensures {},\n", t);
            contract = "inferred (constructor)";
        }
    }
    let mut t = tx::Tx::new(cx, module, uses, f.imp, f.id.clone());
    t.init_env(&sig);
    t.init_locals(&sig, &block);
    t.visit_signature_mut(&mut sig);
    t.visit_block_mut(&mut block);
    let mut notes = t.notes.clone();
    let nloops = t.nloops;
    let ncl = t.nclosures;
    drop(t);
    let mut body = ts(&block);
    // loops
    for k in 0..nloops {
        let marker = format!("{{ __vinv ! ({}) ;", k);
        let inv = cx
            .c
            .loops
            .get(&(f.id.clone(), k))
            .map(|t| {
                cx.used.borrow_mut().insert(format!("loop {} {}", f.id, k));
                subst(t, &params, &names)
            });
        if inv.is_none() {
            notes.push(format!("loop {} has no invariant", k));
        }
        assert!(body.contains(&marker), "marker {} not found in {}", k, body);
        body = body.replacen(&marker, &format!("\n{}{{", inv.unwrap_or_default()), 1);
    }
    for k in 0..ncl {
        let marker = format!("{{ __vclo ! ({}) ;", k);
        let cl = cx.c.closures.get(&(f.id.clone(), k)).map(|t| {
            cx.used.borrow_mut().insert(format!("closure {} {}", f.id, k));
            subst(t, &params, &names)
        });
        if cl.is_none() {
            notes.push(format!("closure {} has no contract", k));
        }
        assert!(body.contains(&marker), "marker {} not found in {}", k, body);
        body = body.replacen(&marker, &format!("\n{}{{", cl.unwrap_or_default()), 1);
    }
    if let Some(p) = cx.look(&cx.c.proof, "proof", &f.id) {
        let p = subst(p, &params, &names);
        body = body.replacen('{', &format!("{{\n{}\n", p), 1);
    }
    if contract == "none" && f.tmkey.is_none() {
        notes.push("no contract".into());
    }
    if cx.leave.contains(&f.id) {
        trusted = true;
        body = "{ unimplemented!() }".into();
        notes.push("left out".into());
    }
    if cx.probe && !trusted {
        body = body.replacen('{', "{\nassert(false);\n", 1);
    }
    let start = cx.line;
    cx.put(&format!("//@fn {}", f.id));
    if trusted {
        cx.put("#[verifier::external_body]");
    } else {
        // A function under contract is shown to end; one without, or one with a
        // loop without contract, is not (and decides nothing).
        let words = |w: &str| body.split(|c: char| !c.is_alphanumeric() && c != '_').filter(|x| *x == w).count();
        if (contract == "none" && f.tmkey.is_none()) || words("loop") + words("while") > words("decreases") {
            cx.put("#[verifier::exec_allows_no_decreases_clause]");
            notes.push("not shown to end".into());
        }
        cx.put("#[verifier::loop_isolation(false)]");
        cx.put("#[verifier::allow_complex_invariants]");
    }
    let wh = sig.generics.where_clause.as_ref().map(ts).unwrap_or_default();
    let mut top = format!("pub fn {} {}", fn_head(&sig, f.rename.as_deref()), wh);
    if let Some(ty) = &f.foreign {
        for t in [&mut top, &mut clauses, &mut body] {
            *t = of_foreign(t, ty);
        }
    }
    cx.put(&top);
    if !clauses.is_empty() {
        cx.put(&clauses);
    }
    cx.put(&pretty(&body));
    let end = cx.line - 1;
    let origin = if (module == "value" || module.starts_with("core_")) && f.origin == "typetag" { "serde_core" } else { f.origin };
    cx.fns.push(FnInfo { id: f.id, start, end, contract, trusted, origin, notes, calls });
}

/// `self` and `Self` in a method that is emitted as a function.
fn of_foreign(t: &str, ty: &str) -> String {
    let mut out = String::new();
    let mut rest = t;
    while let Some(c) = rest.chars().next() {
        if c.is_alphabetic() || c == '_' {
            let n = rest.find(|c: char| !(c.is_alphanumeric() || c == '_')).unwrap_or(rest.len());
            let w = &rest[..n];
            rest = &rest[n..];
            match w {
                "self" => out.push_str("self_"),
                "Self" if rest.trim_start().starts_with("::") => out.push_str(&format!("<{ty}>")),
                "Self" => out.push_str(ty),
                w => out.push_str(w),
            }
        } else {
            out.push(c);
            rest = &rest[c.len_utf8()..];
        }
    }
    out
}

/// Names called in a body (methods and last path segments).
fn calls_of(b: &Block) -> Vec<String> {
    struct V(BTreeSet<String>);
    impl<'a> Visit<'a> for V {
        fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
            self.0.insert(m.method.to_string());
            syn::visit::visit_expr_method_call(self, m);
        }
        fn visit_expr_path(&mut self, p: &'a ExprPath) {
            self.0.insert(p.path.segments.last().unwrap().ident.to_string());
        }
    }
    let mut v = V(BTreeSet::new());
    v.visit_block(b);
    v.0.into_iter().collect()
}

/// `mut self` is `self` with `let mut __self = self;`, and the same for every
/// `mut` parameter: contracts then speak of the value passed in.
fn own_mut_self(sig: &mut Signature, block: &mut Block) {
    struct S(String, String);
    impl VisitMut for S {
        fn visit_path_mut(&mut self, p: &mut Path) {
            if p.is_ident(&self.0) {
                p.segments[0].ident = Ident::new(&self.1, p.segments[0].ident.span());
            }
            visit_mut::visit_path_mut(self, p);
        }
        fn visit_item_mut(&mut self, _: &mut Item) {}
        fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
            if f.colon_token.is_none() {
                f.colon_token = Some(Default::default());
            }
            visit_mut::visit_field_value_mut(self, f);
        }
        // leave alone what a binding of the same name covers
        fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
            if !c.inputs.iter().any(|p| binds(p, &self.0)) {
                visit_mut::visit_expr_closure_mut(self, c);
            }
        }
        fn visit_arm_mut(&mut self, a: &mut Arm) {
            if !binds(&a.pat, &self.0) {
                visit_mut::visit_arm_mut(self, a);
            }
        }
        fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
            self.visit_expr_mut(&mut f.expr);
            if !binds(&f.pat, &self.0) {
                self.visit_block_mut(&mut f.body);
            }
        }
        fn visit_block_mut(&mut self, b: &mut Block) {
            for s in &mut b.stmts {
                if let Stmt::Local(l) = s {
                    if binds(&l.pat, &self.0) {
                        if let Some(i) = &mut l.init {
                            self.visit_expr_mut(&mut i.expr);
                        }
                        return;
                    }
                }
                self.visit_stmt_mut(s);
            }
        }
    }
    let mut lets: Vec<Stmt> = vec![];
    for a in sig.inputs.iter_mut() {
        let n = match a {
            FnArg::Receiver(r) => {
                if r.reference.is_some() || r.mutability.is_none() {
                    continue;
                }
                r.mutability = None;
                "self".to_string()
            }
            FnArg::Typed(t) => match &mut *t.pat {
                Pat::Ident(i) if i.mutability.is_some() => {
                    i.mutability = None;
                    i.ident.to_string()
                }
                _ => continue,
            },
        };
        let new = format!("__{}", n);
        S(n.clone(), new.clone()).visit_block_mut(block);
        let (new, old) = (Ident::new(&new, proc_macro2::Span::call_site()), Ident::new(&n, proc_macro2::Span::call_site()));
        lets.push(parse_quote!(let mut #new = #old;));
    }
    // a pattern for a parameter is taken apart in the body
    for (i, a) in sig.inputs.iter_mut().enumerate() {
        let FnArg::Typed(t) = a else { continue };
        if matches!(&*t.pat, Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none()) {
            continue;
        }
        let id = Ident::new(&format!("__p{}", i), proc_macro2::Span::call_site());
        let pat = std::mem::replace(&mut *t.pat, parse_quote!(#id));
        lets.push(parse_quote!(let #pat = #id;));
    }
    for l in lets.into_iter().rev() {
        block.stmts.insert(0, l);
    }
}

fn binds(p: &Pat, n: &str) -> bool {
    tx::pat_names(p).iter().any(|i| i == n)
}

/// Break the one-line token string at statement ends, for readable reports.
fn pretty(s: &str) -> String {
    let mut out = String::new();
    let mut depth = 0usize;
    let mut in_str = false;
    let mut prev = ' ';
    for ch in s.chars() {
        if ch == '"' && prev != '\\' {
            in_str = !in_str;
        }
        if in_str {
            out.push(ch);
            prev = ch;
            continue;
        }
        match ch {
            '{' => {
                depth += 1;
                out.push('{');
                out.push('\n');
                out.push_str(&"  ".repeat(depth));
            }
            '}' => {
                depth = depth.saturating_sub(1);
                out.push('\n');
                out.push_str(&"  ".repeat(depth));
                out.push('}');
            }
            ';' => {
                out.push(';');
                out.push('\n');
                out.push_str(&"  ".repeat(depth));
            }
            _ => out.push(ch),
        }
        prev = ch;
    }
    out
}

/// Counts the methods of each module's types, those of nested items included.
struct Methods<'a>(Vec<String>, &'a mut HashMap<(String, String, String), usize>);
impl<'a, 'ast> syn::visit::Visit<'ast> for Methods<'a> {
    fn visit_item_mod(&mut self, m: &'ast ItemMod) {
        self.0.push(m.ident.to_string());
        syn::visit::visit_item_mod(self, m);
        self.0.pop();
    }
    fn visit_item_impl(&mut self, im: &'ast ItemImpl) {
        let m = self.0.last().cloned().unwrap_or_default();
        for i in &im.items {
            if let ImplItem::Fn(f) = i {
                *self.1.entry((m.clone(), type_name(&im.self_ty), f.sig.ident.to_string())).or_default() += 1;
            }
        }
        syn::visit::visit_item_impl(self, im);
    }
}

fn emit_impl(cx: &mut Cx, module: &str, uses: &Uses, im: &ItemImpl) {
    let tyname = type_name(&im.self_ty);
    let tyid = format!("{}::{}", module, tyname);
    let Some((_, tpath, _)) = &im.trait_ else {
        // inherent impl
        let mut ctx = ImplCtx { assoc: BTreeSet::new(), trait_path: None, self_ty: ts(&im.self_ty) };
        ctx.assoc.clear();
        let mut head = im.clone();
        head.items.clear();
        head.attrs.clear();
        let mut t = tx::Tx::new(cx, module, uses, None, String::new());
        t.visit_item_impl_mut(&mut head);
        drop(t);
        cx.put(&impl_head(&head.generics, None, &head.self_ty));
        for ii in &im.items {
            if let ImplItem::Fn(f) = ii {
                emit_fn(
                    cx,
                    module,
                    uses,
                    FnSrc {
                        id: format!("{}::{}", tyid, f.sig.ident),
                        sig: f.sig.clone(),
                        block: f.block.clone(),
                        rename: None,
                        imp: Some(&ctx),
                        tmkey: None,
                        origin: "typetag",
                        attrs: &f.attrs,
                        foreign: None,
                    },
                );
            }
        }
        cx.put("}");
        return;
    };
    let tlast = tpath.segments.last().unwrap().ident.to_string();
    if DROP_TRAITS.contains(&tlast.as_str()) {
        return;
    }
    if tlast == "Copy" || tlast == "Clone" {
        let mut head = im.clone();
        head.items.clear();
        head.attrs.clear();
        let mut t = tx::Tx::new(cx, module, uses, None, String::new());
        t.visit_item_impl_mut(&mut head);
        drop(t);
        let derived = is_derived(&im.attrs);
        if tlast == "Copy" {
            cx.put(&format!("{} }}", impl_head(&head.generics, Some("Copy"), &head.self_ty)));
            return;
        }
        let copy = cx.copy_types.contains(&tyid);
        if derived && !copy {
            cx.notes.push(format!("derived Clone of {} dropped", tyid));
            return;
        }
        cx.put(&impl_head(&head.generics, Some("Clone"), &head.self_ty));
        let ens = if copy { "ensures r == *self" } else { "" };
        let body = if derived {
            "{ *self }".to_string()
        } else {
            let ImplItem::Fn(f) = &im.items[0] else { panic!() };
            ts(&f.block)
        };
        let start = cx.line;
        let id = format!("{} as Clone::clone", tyid);
        cx.put(&format!("//@fn {}\nfn clone(&self) -> (r: Self) {} {}", id, ens, body));
        cx.put("}");
        let end = cx.line - 2;
        cx.fns.push(FnInfo { id, start, end, contract: "inferred (copy)", trusted: false, origin: "typetag", notes: vec![], calls: vec![] });
        return;
    }
    let abs = cx.resolve(uses, tpath);
    let Some(key) = cx.trait_key(&abs) else {
        let mut o = im.clone();
        let mut t = tx::Tx::new(cx, module, uses, None, String::new());
        t.visit_item_impl_mut(&mut o);
        drop(t);
        cx.notes.push(format!("impl of {} for {} passed through", tlast, tyid));
        cx.put(&ts(&o));
        return;
    };
    let info = cx.traits[&key].item.clone();
    let tkey = format!("{} as {}", tyid, tlast);
    // trait path with generics, absolute
    let targs = match &tpath.segments.last().unwrap().arguments {
        PathArguments::None => String::new(),
        a => ts(a),
    };
    let tfull = format!("crate::serde::{}{}", key, targs);
    let mut assoc = BTreeSet::new();
    for ti in &info.items {
        if let TraitItem::Type(t) = ti {
            assoc.insert(t.ident.to_string());
        }
    }
    let ctx = ImplCtx { assoc, trait_path: Some(tfull.clone()), self_ty: ts(&im.self_ty) };
    // --- spec impl
    let mut head = im.clone();
    head.attrs.clear();
    let mut fns = vec![];
    head.items.retain(|i| match i {
        ImplItem::Fn(f) => {
            fns.push(f.clone());
            false
        }
        _ => true,
    });
    let mut t = tx::Tx::new(cx, module, uses, None, String::new());
    t.visit_item_impl_mut(&mut head);
    drop(t);
    let foreign = module.starts_with("core_") && !uses.map.get(&tyname).is_some_and(|p| p[..] == ["crate".to_string(), module.into(), tyname.clone()]);
    if foreign {
        // the trait's spec functions for this type are part of the shims
        for (k, f) in fns.iter().enumerate() {
            let mut sig = f.sig.clone();
            let mut g = head.generics.clone();
            g.params.extend(sig.generics.params.clone());
            if let Some(w) = &sig.generics.where_clause {
                g.make_where_clause().predicates.extend(w.predicates.clone());
            }
            sig.generics = g;
            let ty = &head.self_ty;
            match &sig.inputs.first() {
                Some(FnArg::Receiver(r)) if r.reference.is_some() && r.mutability.is_some() => sig.inputs[0] = parse_quote!(self_: &mut #ty),
                Some(FnArg::Receiver(r)) if r.reference.is_some() => sig.inputs[0] = parse_quote!(self_: &#ty),
                Some(FnArg::Receiver(_)) => sig.inputs[0] = parse_quote!(self_: #ty),
                // an associated function keeps its parameters
                _ => sig.inputs.insert(0, parse_quote!(self_: ())),
            }
            let n = f.sig.ident.to_string();
            let tid = format!("{}::{} as {}", module, ts(&im.self_ty).replace(' ', ""), tlast);
            emit_fn(
                cx,
                module,
                uses,
                FnSrc {
                    id: format!("{}::{}", tid, n),
                    sig,
                    block: f.block.clone(),
                    rename: Some(format!("{}__{}__{}_{}", tlast, n, cx.fns.len(), k)),
                    imp: Some(&ctx),
                    tmkey: Some((key.clone(), tid)),
                    origin: "serde_core",
                    attrs: &[],
                    foreign: Some(ts(&head.self_ty)),
                },
            );
        }
        return;
    }
    cx.put(&impl_head(&head.generics, Some(&tfull), &head.self_ty));
    for i in &head.items {
        cx.put(&ts(i));
    }
    let spec = match cx.look(&cx.c.spec, "spec", &tkey) {
        Some(s) => s.clone(),
        None => match infer_spec(cx, &key, &fns) {
            Some(s) => s,
            None => {
                if cx.c.traitspec.get(&key).is_some_and(|s| !s.trim().is_empty()) {
                    cx.missing_spec.push(tkey.clone());
                }
                uninterp(cx.c.traitspec.get(&key).map(String::as_str).unwrap_or(""))
            }
        },
    };
    cx.put(&spec);
    cx.put("}");
    // --- methods
    let (inh, moved) = split_generics(&head.generics, &head.self_ty);
    cx.put(&impl_head(&inh, None, &head.self_ty));
    let mut seen = BTreeSet::new();
    let mut todo: Vec<(Signature, Block, &'static str)> = vec![];
    for f in &fns {
        seen.insert(f.sig.ident.to_string());
        todo.push((f.sig.clone(), f.block.clone(), "typetag"));
    }
    for ti in &info.items {
        if let TraitItem::Fn(f) = ti {
            let n = f.sig.ident.to_string();
            if seen.contains(&n) || SKIP_METHODS.contains(&n.as_str()) || NO_DEFAULT.contains(&n.as_str()) {
                continue;
            }
            if let Some(b) = &f.default {
                seen.insert(n);
                todo.push((f.sig.clone(), b.clone(), "serde default body"));
            }
        }
    }
    for (mut sig, block, origin) in todo {
        let n = sig.ident.to_string();
        if SKIP_METHODS.contains(&n.as_str()) {
            continue;
        }
        for p in &moved.params {
            sig.generics.params.push(p.clone());
        }
        if let Some(w) = &moved.where_clause {
            let wc = sig.generics.make_where_clause();
            for p in &w.predicates {
                wc.predicates.push(p.clone());
            }
        }
        let u2;
        let u = if origin == "typetag" {
            uses
        } else {
            let mut m = uses.clone();
            let md = key.split_once("::").unwrap().0.to_string();
            for k in cx.traits.keys() {
                let (m2, n2) = k.split_once("::").unwrap();
                if m2 == md {
                    m.map.insert(n2.into(), vec!["serde".into(), m2.into(), n2.into()]);
                }
            }
            for n in ["Unexpected"] {
                m.map.insert(n.into(), vec!["serde".into(), md.clone(), n.into()]);
            }
            m.map.insert("PhantomData".into(), vec!["core".into(), "marker".into(), "PhantomData".into()]);
            m.map.insert("String".into(), vec!["alloc".into(), "string".into(), "String".into()]);
            m.map.insert("Vec".into(), vec!["alloc".into(), "vec".into(), "Vec".into()]);
            u2 = m;
            &u2
        };
        let sig2 = sig.clone();
        let at = (module.to_string(), tyname.clone(), n.clone());
        let known = cx.methods.keys().any(|k| k.0 == at.0 && k.1 == at.1);
        let plain = known && cx.methods.get(&at).map_or(true, |k| *k == 1) && cx.plain.insert(at);
        emit_fn(
            cx,
            module,
            u,
            FnSrc {
                id: format!("{}::{}", tkey, n),
                sig: sig2,
                block,
                // Under its own name, so that a call on a receiver of this very type
                // is a call of this function to the verifier, which then sees who
                // calls whom in a circle; unless two impls have the name.
                rename: (!plain).then(|| format!("{}__{}", tlast, n)),
                imp: Some(&ctx),
                tmkey: Some((key.clone(), tkey.clone())),
                origin,
                attrs: &[],
                foreign: None,
            },
        );
    }
    cx.put("}");
}

/// A seed whose body is `deserializer.METHOD(args, VISITOR)` is its own contract.
fn infer_spec(cx: &Cx, key: &str, fns: &[ImplItemFn]) -> Option<String> {
    if key != "de::DeserializeSeed" || fns.len() != 1 {
        return None;
    }
    let f = &fns[0];
    let de = tx::param_names(&f.sig).first()?.clone();
    // what the locals stand for
    let mut env: HashMap<String, Expr> = HashMap::new();
    let (tail, lets) = f.block.stmts.split_last()?;
    for l in lets {
        let Stmt::Local(Local { pat, init: Some(LocalInit { expr, diverge: None, .. }), .. }) = l else { return None };
        let e = stands_for(expr, &env);
        match pat {
            Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => {
                env.insert(i.ident.to_string(), e);
            }
            Pat::Struct(p) if pure_path(&e) => {
                for x in &p.fields {
                    let (Pat::Ident(i), m) = (&*x.pat, &x.member) else { return None };
                    if i.subpat.is_some() {
                        return None;
                    }
                    env.insert(i.ident.to_string(), parse_quote!(#e.#m));
                }
            }
            _ => return None,
        }
    }
    let mut tail = match tail {
        Stmt::Expr(Expr::Return(r), _) => (**r.expr.as_ref()?).clone(),
        Stmt::Expr(e, None) => e.clone(),
        _ => return None,
    };
    tail = stands_for(&tail, &env);
    let (recv, mn, margs) = match tail {
        Expr::MethodCall(m) => ((*m.receiver).clone(), m.method.to_string(), m.args.into_iter().collect::<Vec<_>>()),
        Expr::Call(c) => {
            let Expr::Path(p) = &*c.func else { return None };
            let mut args = c.args.into_iter();
            (args.next()?, p.path.segments.last()?.ident.to_string(), args.collect())
        }
        _ => return None,
    };
    let margs: Vec<Expr> = margs.iter().map(|a| stands_for(a, &env)).collect();
    let recv = stands_for(&recv, &env);
    let Expr::Path(p) = &recv else { return None };
    if !p.path.is_ident(de.as_str()) {
        return None;
    }
    let tr = &cx.traits["de::Deserializer"].item;
    let sig = tr.items.iter().find_map(|t| match t {
        TraitItem::Fn(f) if f.sig.ident == mn => Some(&f.sig),
        _ => None,
    })?;
    let mut hint = camel(mn.strip_prefix("deserialize_")?);
    let tys: Vec<String> = sig
        .inputs
        .iter()
        .filter_map(|a| match a {
            FnArg::Typed(t) => Some(ts(&t.ty)),
            _ => None,
        })
        .collect();
    if tys.len() != margs.len() {
        return None;
    }
    let n = tys.len() - 1;
    let mut args = vec![];
    for i in 0..n {
        let a = &margs[i];
        if !pure_path(a) {
            return None;
        }
        let s = ts(a);
        args.push(match tys[i].as_str() {
            "usize" => s,
            t if t.contains('[') => format!("crate::spec::names_of({}@)", s),
            _ => format!("{}@", s),
        });
    }
    if !pure_path(&margs[n]) {
        return None;
    }
    if !args.is_empty() {
        hint = format!("{}({})", hint, args.join(", "));
    }
    Some(format!(
        "    open spec fn seeded(self, src: crate::spec::Src, left: int, r: crate::spec::Res<Self::Value>) -> bool {{ crate::serde::de::delivered({}, src, crate::spec::Hint::{}, left, r) }}",
        ts(&margs[n]),
        hint
    ))
}

/// The expression with locals at its root replaced by what they stand for.
fn stands_for(e: &Expr, env: &HashMap<String, Expr>) -> Expr {
    match e {
        Expr::Path(p) => p.path.get_ident().and_then(|i| env.get(&i.to_string())).cloned().unwrap_or_else(|| e.clone()),
        Expr::Field(f) => {
            let mut f = f.clone();
            *f.base = stands_for(&f.base, env);
            Expr::Field(f)
        }
        Expr::Paren(p) => stands_for(&p.expr, env),
        Expr::Group(p) => stands_for(&p.expr, env),
        e => e.clone(),
    }
}

fn pure_path(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => pure_path(&f.base),
        _ => false,
    }
}

pub fn camel(s: &str) -> String {
    s.split('_')
        .map(|w| {
            let mut c = w.chars();
            c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default()
        })
        .collect()
}

fn uninterp(spec: &str) -> String {
    let mut out = String::new();
    for l in spec.lines() {
        let t = l.trim();
        if t.contains("spec fn") && !t.contains("uninterp") {
            out.push_str(&l.replacen("spec fn", "uninterp spec fn", 1));
        } else {
            out.push_str(l);
        }
        out.push('\n');
    }
    out
}

fn impl_head(g: &Generics, tr: Option<&str>, ty: &Type) -> String {
    let (ig, _, wc) = g.split_for_impl();
    format!(
        "impl{} {}{} {} {{",
        ts(&ig),
        tr.map(|t| format!("{} for ", t)).unwrap_or_default(),
        ts(ty),
        wc.map(ts).unwrap_or_default()
    )
}

/// Type parameters the self type does not mention move to the methods.
fn split_generics(g: &Generics, ty: &Type) -> (Generics, Generics) {
    struct V(BTreeSet<String>);
    impl<'a> Visit<'a> for V {
        fn visit_ident(&mut self, i: &'a Ident) {
            self.0.insert(i.to_string());
        }
    }
    let mut v = V(BTreeSet::new());
    v.visit_type(ty);
    let mut keep = g.clone();
    let mut moved = Generics::default();
    keep.params = Default::default();
    let mut names = BTreeSet::new();
    for p in &g.params {
        match p {
            GenericParam::Type(t) if !v.0.contains(&t.ident.to_string()) => {
                names.insert(t.ident.to_string());
                moved.params.push(p.clone());
            }
            _ => keep.params.push(p.clone()),
        }
    }
    if names.is_empty() {
        return (keep, moved);
    }
    if let Some(w) = &g.where_clause {
        let mut k = w.clone();
        k.predicates = Default::default();
        let mut m = k.clone();
        for p in &w.predicates {
            let mut v = V(BTreeSet::new());
            v.visit_where_predicate(p);
            if v.0.iter().any(|n| names.contains(n)) {
                m.predicates.push(p.clone());
            } else {
                k.predicates.push(p.clone());
            }
        }
        keep.where_clause = if k.predicates.is_empty() { None } else { Some(k) };
        moved.where_clause = if m.predicates.is_empty() { None } else { Some(m) };
    }
    (keep, moved)
}
