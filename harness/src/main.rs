//! Runs the real crate on enumerated and random cases of one property and
//! compares with an oracle written from the property.
//!
//! harness PROPERTY TIER SEED: prints one JSON object.

mod gen;
mod input;
mod node;
mod oracle;
mod styles;

use gen::*;
use input::*;
use node::*;
use oracle::*;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use styles::{Kind, Style, ALL as STYLES};

pub struct Run {
    prop: String,
    thorough: bool,
    rng: Rng,
    evaluations: usize,
    distinct: BTreeSet<u64>,
    samples: Vec<String>,
    violations: Vec<String>,
    known: BTreeSet<String>,
    trace: Option<String>,
}

/// The case under way and since when, for the watchdog.
static NOW: Mutex<(Option<std::time::Instant>, String)> = Mutex::new((None, String::new()));

/// A case takes milliseconds; one that is still running after this does not end.
const HANG: u64 = 60;

fn watchdog(prop: String) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(2));
        let now = NOW.lock().unwrap();
        if now.0.map_or(false, |t| t.elapsed().as_secs() >= HANG) {
            let v = format!("{}\n    still running after {HANG} s: it does not end", now.1);
            println!("{{\"property\":{},\"evaluations\":1,\"distinct\":1,\"samples\":[],\"known\":[],\"violations\":[{}]}}", js(&prop), js(&v));
            std::process::exit(0);
        }
    });
}

fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

impl Run {
    /// One case: describes itself, gives Err(what is wrong).
    fn case(&mut self, describe: &dyn Fn() -> String, f: &dyn Fn() -> Result<(), String>) {
        if self.violations.len() >= 5 {
            return;
        }
        self.evaluations += 1;
        let d = describe();
        if let Some(p) = &self.trace {
            let _ = std::fs::write(p, &d);
        }
        *NOW.lock().unwrap() = (Some(std::time::Instant::now()), d.clone());
        let r = catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| Err("panicked".into()));
        NOW.lock().unwrap().0 = None;
        if self.distinct.insert(hash(&d)) && (self.distinct.len() % 997 == 1) && self.samples.len() < 6 {
            self.samples.push(d.clone());
        }
        if let Err(e) = r {
            self.violations.push(format!("{d}\n    {e}"));
        }
    }
}

// ----------------------------------------------------------------- writing

struct Written {
    out: Result<Node, RecErr>,
    broken: Vec<String>,
    calls: usize,
}

fn write(st: &Style, which: usize, view: usize, n: &Node, fail_at: usize) -> Written {
    let ctl = Ctl::new(fail_at);
    let out = (st.write)(which, n.clone(), view, R(&ctl));
    let broken = ctl.broken.borrow().clone();
    Written { out, broken, calls: ctl.count.get() }
}

/// The same with every announced length taken out: lengths are C06's matter.
fn nolen(n: &Node) -> Node {
    let bx = |x: &Node| Box::new(nolen(x));
    let all = |v: &Vec<Node>| v.iter().map(nolen).collect::<Vec<_>>();
    let fl = |v: &Vec<(S, Option<Node>)>| v.iter().filter(|x| x.1.is_some()).map(|(k, x)| (*k, x.as_ref().map(nolen))).collect::<Vec<_>>();
    match n {
        Node::Some(x) => Node::Some(bx(x)),
        Node::Newtype(s, x) => Node::Newtype(s, bx(x)),
        Node::NewtypeVariant(s, i, k, x) => Node::NewtypeVariant(s, *i, k, bx(x)),
        Node::Seq(_, v) => Node::Seq(None, all(v)),
        Node::Tuple(_, v) => Node::Tuple(0, all(v)),
        Node::TupleStruct(s, _, v) => Node::TupleStruct(s, 0, all(v)),
        Node::TupleVariant(s, i, k, _, v) => Node::TupleVariant(s, *i, k, 0, all(v)),
        Node::Map(_, v, _) => Node::Map(None, v.iter().map(|(a, b)| (nolen(a), nolen(b))).collect(), false),
        Node::Struct(s, _, v) => Node::Struct(s, 0, fl(v)),
        Node::StructVariant(s, i, k, _, v) => Node::StructVariant(s, *i, k, 0, fl(v)),
        x => x.clone(),
    }
}

/// Which sequences and maps have their length announced, in order.
fn told(n: &Node, out: &mut Vec<bool>) {
    match n {
        Node::Seq(l, _) => out.push(l.is_some()),
        Node::Map(l, ..) => out.push(l.is_some()),
        _ => {}
    }
    match n {
        Node::Some(x) | Node::Newtype(_, x) | Node::NewtypeVariant(_, _, _, x) => told(x, out),
        Node::Seq(_, v) | Node::Tuple(_, v) | Node::TupleStruct(_, _, v) | Node::TupleVariant(_, _, _, _, v) => v.iter().for_each(|x| told(x, out)),
        Node::Map(_, v, _) => v.iter().for_each(|(a, b)| {
            told(a, out);
            told(b, out);
        }),
        Node::Struct(_, _, v) | Node::StructVariant(_, _, _, _, v) => v.iter().filter_map(|x| x.1.as_ref()).for_each(|x| told(x, out)),
        _ => {}
    }
}

/// The string a value is, looking through some and newtype structs.
fn stringlike(n: &Node) -> Option<String> {
    match n {
        Node::Str(s) | Node::CollectStr(s) => Some(s.clone()),
        Node::Char(c) => Some(c.to_string()),
        Node::Some(x) | Node::Newtype(_, x) => stringlike(x),
        _ => None,
    }
}

/// The map an internally tagged object is. None: it must be refused.
fn internal_shape(n: &Node, tag: S, name: S) -> Option<Node> {
    let mut es = vec![(st(tag), st(name))];
    let mut len = Some(2);
    match n {
        Node::Fail => return None,
        Node::None | Node::Unit | Node::UnitStruct(_) => len = Some(1),
        Node::Some(x) => es.push((st("value"), x.heard())),
        Node::UnitVariant(_, _, k) => es.push((st(k), Node::Unit)),
        Node::Newtype(_, x) => return internal_shape(x, tag, name),
        Node::NewtypeVariant(_, _, k, x) => es.push((st(k), x.heard())),
        Node::TupleVariant(_, _, k, _, v) => es.push((st(k), Node::TupleStruct(k, v.len(), v.clone()).held())),
        Node::StructVariant(_, _, k, _, v) => es.push((st(k), Node::Struct(k, 0, v.clone()).held())),
        Node::Map(l, v, _) => {
            len = l.map(|l| l + 1);
            es.extend(v.iter().map(|(a, b)| (a.heard(), b.heard())));
        }
        Node::Struct(_, l, v) => {
            len = Some(l + 1);
            for (k, x) in v {
                let Some(x) = x else { continue };
                if *k == tag {
                    if stringlike(x).as_deref() != Some(name) {
                        return None;
                    }
                } else {
                    es.push((st(k), x.heard()));
                }
            }
        }
        Node::Seq(..) | Node::Tuple(..) | Node::TupleStruct(..) => es.push((st("value"), n.held())),
        x => es.push((st("value"), x.heard())),
    }
    if n.has_fail() {
        return None;
    }
    Some(Node::Map(len, es, false))
}

fn has_own_tag(n: &Node, tag: S) -> bool {
    match n {
        Node::Newtype(_, x) => has_own_tag(x, tag),
        Node::Struct(_, _, v) => v.iter().any(|(k, x)| *k == tag && x.is_some()),
        _ => false,
    }
}

fn shape(st_: &Style, n: &Node, which: usize) -> Option<Node> {
    let name = st_.writable[which];
    match st_.kind {
        Kind::Internal { tag, .. } => internal_shape(n, tag, name),
        _ if n.has_fail() => None,
        Kind::External => Some(Node::Map(Some(1), vec![(st(name), n.heard())], false)),
        Kind::Adjacent { tag, content, .. } => Some(Node::Struct(st_.trait_name, 2, vec![(tag, Some(st(name))), (content, Some(n.heard()))])),
    }
}

fn written_right(w: &Written, want: &Option<Node>, lens: bool, boom: bool) -> Result<(), String> {
    match (&w.out, want) {
        (Ok(got), Some(want)) => {
            let same = if lens { got == want } else { nolen(got) == nolen(want) };
            if same {
                Ok(())
            } else {
                Err(format!("wrote  {got:?}\n    expected {want:?}"))
            }
        }
        (Ok(got), None) => Err(format!("wrote {got:?}\n    expected an error")),
        (Err(e), Some(want)) => Err(format!("failed with {e:?}\n    expected {want:?}")),
        (Err(e), None) => {
            if boom && !e.msg.contains(BOOM) {
                Err(format!("the error {BOOM} became {e:?}"))
            } else {
                Ok(())
            }
        }
    }
}

fn wcase(r: &mut Run, sty: &'static Style, which: usize, view: usize, n: &Node, check: &dyn Fn(&Written) -> Result<(), String>) {
    r.case(
        &|| format!("dyn {} ({:?}) view {view}, implementation {:?}, writing {n:?}", sty.trait_name, sty.kind, sty.writable[which]),
        &|| check(&write(sty, which, view, n, usize::MAX)),
    );
}

/// A format error at every call comes back as it is.
fn inject(r: &mut Run, sty: &'static Style, which: usize, n: &Node) {
    let calls = write(sty, which, 0, n, usize::MAX).calls;
    for k in 0..calls {
        r.case(
            &|| format!("dyn {} ({:?}), implementation {:?}, writing {n:?}, the format fails at call {k}", sty.trait_name, sty.kind, sty.writable[which]),
            &|| {
                let w = write(sty, which, 0, n, k);
                match w.out {
                    Err(e) if e.injected == Some(k) => Ok(()),
                    x => Err(format!("gave {x:?}")),
                }
            },
        );
    }
}

fn styles(f: impl Fn(&Kind) -> bool) -> Vec<&'static Style> {
    STYLES.iter().copied().filter(|s| f(&s.kind)).collect()
}

/// Which implementation writes it: one the value speaks of, if there is one.
fn which_for(sty: &Style, n: &Node, i: usize) -> usize {
    if i % 4 != 3 {
        if let Some(j) = sty.writable.iter().position(|k| mentions(n, k)) {
            return j;
        }
    }
    i % sty.writable.len()
}

fn values(r: &mut Run, fail: bool) -> Vec<Node> {
    let mut v = small();
    for (i, n) in small().iter().enumerate() {
        let to = ["A", "type", "value", "Zeta", "content", "", "Adj", "m::Path"][(i / 2) % 8];
        let m = renamed(n, to);
        if m != *n {
            v.push(m);
        }
        let m = renamed(n, "A");
        if i % 2 == 0 && m != *n {
            v.push(m);
        }
    }
    v.extend(large());
    let n = if r.thorough { 60000 } else { 12000 };
    for _ in 0..n {
        v.push(random(&mut r.rng, 3, false));
    }
    if fail {
        v.extend(failing());
        for _ in 0..n / 10 {
            v.push(random(&mut r.rng, 3, true));
        }
    }
    v
}

fn few(r: &mut Run) -> Vec<Node> {
    let mut v: Vec<Node> = small().into_iter().step_by(if r.thorough { 1 } else { 5 }).collect();
    for _ in 0..50 {
        v.push(random(&mut r.rng, 2, false));
    }
    v
}

fn wrapped(r: &mut Run, pick: fn(&Kind) -> bool) {
    let all = styles(pick);
    for (i, n) in values(r, true).iter().enumerate() {
        let sty = all[i % all.len()];
        let which = which_for(sty, n, i / all.len());
        let want = shape(sty, n, which);
        let boom = n.has_fail();
        wcase(r, sty, which, i % 4, n, &|w| written_right(w, &want, true, boom));
        wcase(r, all[0], 1, 0, n, &|w| written_right(w, &shape(all[0], n, 1), true, boom));
    }
    for (i, n) in few(r).iter().enumerate() {
        inject(r, all[i % all.len()], i % 3, n);
    }
    every_call(r, all[0]);
}

/// One value of every shape, its every call to the format failing.
fn every_call(r: &mut Run, sty: &'static Style) {
    let mut l = leaves();
    compounds(&[Node::U8(1)], &mut l);
    around(&[st("x")], &Node::U8(1), &mut l);
    for n in l {
        inject(r, sty, 1, &n);
    }
}

fn c01(r: &mut Run) {
    wrapped(r, |k| *k == Kind::External);
}
fn c03(r: &mut Run) {
    wrapped(r, |k| matches!(k, Kind::Adjacent { .. }));
}

fn c02(r: &mut Run) {
    let all = styles(|k| matches!(k, Kind::Internal { .. }));
    for (i, n) in values(r, true).iter().enumerate() {
        for sty in [all[0], all[i % all.len()]] {
            let which = which_for(sty, n, i);
            let Kind::Internal { tag, .. } = sty.kind else { unreachable!() };
            if has_own_tag(n, tag) {
                continue;
            }
            let want = shape(sty, n, which);
            let boom = n.has_fail();
            wcase(r, sty, which, i % 4, n, &|w| written_right(w, &want, false, boom));
        }
    }
    for (i, n) in few(r).iter().enumerate() {
        inject(r, all[i % 3], i % 3, n);
    }
    every_call(r, all[0]);
}

fn own_tag_cases(r: &mut Run, tag: S, name: S) -> Vec<Node> {
    let mut own = leaves();
    for t in [name, "a", "A ", " A", "AA", "B", "", "x", "type"] {
        own.push(st(t));
        own.push(Node::CollectStr(t.into()));
        own.push(Node::Bytes(t.as_bytes().to_vec()));
        own.push(Node::UnitVariant("En", 0, leak(t)));
        own.push(Node::UnitStruct(leak(t)));
    }
    for c in ['A', 'x', 'y'] {
        own.push(Node::Char(c));
    }
    for t in like(name) {
        own.push(st(&t));
        if t.len() % 3 == 0 {
            own.push(Node::CollectStr(t));
        }
    }
    let level: Vec<Node> = own.clone();
    for x in &level {
        own.push(Node::Some(b(x.clone())));
        own.push(Node::Newtype("Nt", b(x.clone())));
        own.push(Node::Some(b(Node::Newtype("Nt", b(x.clone())))));
        own.push(Node::Newtype("Nt", b(Node::Some(b(x.clone())))));
    }
    for x in [st(name), Node::Fail, Node::U8(1)] {
        let mut c = vec![];
        around(&[x.clone()], &x, &mut c);
        compounds(&[], &mut c);
        own.extend(c);
    }
    own.push(Node::Fail);
    let mut out = vec![];
    let others = [st(name), Node::U8(1), Node::None, Node::Seq(Some(1), vec![Node::Unit]), Node::Struct("In", 1, vec![(tag, Some(Node::U8(1)))])];
    for (i, x) in own.iter().enumerate() {
        let o = |j: usize| others[(i + j) % others.len()].clone();
        out.push(Node::Struct("St", 1, vec![(tag, Some(x.clone()))]));
        out.push(Node::Struct("St", 3, vec![(tag, Some(x.clone())), ("f1", Some(o(0))), ("f2", Some(o(1)))]));
        out.push(Node::Struct("St", 3, vec![("f0", Some(o(2))), (tag, Some(x.clone())), ("value", Some(o(3)))]));
        out.push(Node::Struct("St", 3, vec![("f0", Some(o(4))), ("f1", Some(o(1))), (tag, Some(x.clone()))]));
        out.push(Node::Struct("St", 2, vec![("f0", Some(o(4))), ("f1", None), (tag, Some(x.clone()))]));
        out.push(Node::Newtype("Nt", b(Node::Struct("St", 2, vec![("f0", Some(o(0))), (tag, Some(x.clone()))]))));
        // agreeing first, then anything
        out.push(Node::Struct("St", 3, vec![(tag, Some(st(name))), ("f", Some(o(1))), (tag, Some(x.clone()))]));
        out.push(Node::Struct("St", 2, vec![(tag, Some(x.clone())), (tag, Some(st(name)))]));
    }
    // not fields of the object itself
    out.push(Node::StructVariant("En", 0, "Sv", 1, vec![(tag, Some(Node::U8(1)))]));
    out.push(Node::Struct("St", 1, vec![("f", Some(Node::Struct("In", 1, vec![(tag, Some(Node::U8(1)))])))]));
    out.push(Node::Struct("St", 0, vec![(tag, None)]));
    for k in like(tag) {
        out.push(Node::Struct("St", 2, vec![(leak(&k), Some(Node::U8(1))), ("f1", Some(st(name)))]));
    }
    out.push(Node::Struct("St", 1, vec![(leak(&tag.to_uppercase()), Some(Node::U8(1)))]));
    let _ = r;
    out
}

fn c04(r: &mut Run) {
    for sty in styles(|k| matches!(k, Kind::Internal { .. })) {
        let Kind::Internal { tag, .. } = sty.kind else { unreachable!() };
        for (which, name) in sty.writable.iter().enumerate() {
            if !r.thorough && sty.trait_name != "Int" && which > 2 {
                continue;
            }
            for n in own_tag_cases(r, tag, name) {
                let want = shape(sty, &n, which);
                wcase(r, sty, which, 0, &n, &|w| written_right(w, &want, false, false));
            }
        }
    }
}

fn c05(r: &mut Run) {
    let all = styles(|k| matches!(k, Kind::Internal { .. }));
    let mut vals = values(r, true);
    vals.retain(|n| *n != Node::Fail);
    for (i, n) in vals.iter().enumerate() {
        let hold = match i % 5 {
            0 => Node::Seq(if i % 2 == 0 { None } else { Some(2) }, vec![n.clone(), Node::U8(1)]),
            1 => Node::Tuple(1, vec![n.clone()]),
            2 => Node::TupleStruct("Hold", 2, vec![st("first"), n.clone()]),
            3 => Node::TupleVariant("Hold", 1, "Tv", 3, vec![n.clone(), Node::None, n.clone()]),
            _ => Node::StructVariant("Hold", 1, "Sv", 2, vec![("f0", Some(n.clone())), ("f1", Some(Node::Char('x')))]),
        };
        let boom = n.has_fail();
        let sty = if i % 3 == 0 { all[i % all.len()] } else { all[0] };
        let which = which_for(sty, n, 1);
        let want = shape(sty, &hold, which);
        wcase(r, sty, which, 0, &hold, &|w| written_right(w, &want, false, boom));
        if i % 5 == 0 {
            // every kind of holder for the first values
            for hold in [Node::Tuple(2, vec![n.clone(), n.clone()]), Node::StructVariant("Hold", 0, "Sv", 1, vec![("f", Some(n.clone()))])] {
                let want = shape(all[0], &hold, 1);
                wcase(r, all[0], 1, 0, &hold, &|w| written_right(w, &want, false, boom));
            }
        }
    }
}

fn c06(r: &mut Run) {
    let vals = values(r, false);
    for sty in STYLES {
        let step = match sty.trait_name {
            "Ext" | "Int" | "Adj" => 1,
            _ => 7,
        };
        for (i, n) in vals.iter().enumerate().step_by(step) {
            let which = which_for(sty, n, i);
            if let Kind::Internal { tag, .. } = sty.kind {
                if has_own_tag(n, tag) {
                    continue;
                }
            }
            // what the value announces by itself is exact
            let ctl = Ctl::new(usize::MAX);
            if serde::Serialize::serialize(n, R(&ctl)).is_err() || !ctl.broken.borrow().is_empty() {
                continue;
            }
            let want = shape(sty, n, which);
            wcase(r, sty, which, 0, n, &|w| {
                if w.out.is_ok() && !w.broken.is_empty() {
                    return Err(format!("{:?}", w.broken));
                }
                // no announcement is withheld
                if let (Ok(a), Some(b)) = (&w.out, &want) {
                    if nolen(a) == nolen(b) {
                        let (mut x, mut y) = (vec![], vec![]);
                        told(a, &mut x);
                        told(b, &mut y);
                        if y.iter().zip(&x).any(|(y, x)| *y && !x) {
                            return Err(format!("wrote {a:?}\n    expected {b:?}: a length is not announced"));
                        }
                    }
                }
                // the wrapper's own announcement
                match (&w.out, &want) {
                    (Ok(Node::Map(a, ..)), Some(Node::Map(b, ..))) if a != b => Err(format!("announced {a:?}, expected {b:?}")),
                    (Ok(Node::Struct(_, a, _)), Some(Node::Struct(_, b, _))) if a != b => Err(format!("announced {a:?}, expected {b:?}")),
                    _ => Ok(()),
                }
            });
        }
    }
    // the known finding: a struct with an agreeing field of the tag's name
    let sty = styles(|k| matches!(k, Kind::Internal { .. }))[0];
    let n = Node::Struct("St", 2, vec![("type", Some(st("A"))), ("f", Some(Node::U8(1)))]);
    let w = write(sty, 1, 0, &n, usize::MAX);
    if w.out.is_ok() && w.broken == ["map: announced 3, wrote 2"] {
        r.known.insert("KF1".into());
    }
    for n in own_tag_cases(r, "type", "A") {
        let Some(Node::Map(_, es, _)) = shape(sty, &n, 1) else { continue };
        let inner = {
            let mut x = &n;
            while let Node::Newtype(_, y) = x {
                x = y;
            }
            x
        };
        let Node::Struct(_, l, _) = inner else { continue };
        let (l, wrote) = (l + 1, es.len());
        wcase(r, sty, 1, 0, &n, &|w| {
            // exactly the finding, or exact
            let known = vec![format!("map: announced {l}, wrote {wrote}")];
            if w.out.is_err() || w.broken.is_empty() || w.broken == known {
                Ok(())
            } else {
                Err(format!("{:?}", w.broken))
            }
        });
    }
}

// ----------------------------------------------------------------- reading

fn read(sty: &Style, view: usize, n: &In, req: &Req, strict: bool, fail_at: usize) -> (Result<(S, Got), DErr>, Vec<String>, usize) {
    REQ.with(|q| *q.borrow_mut() = req.clone());
    let f = Fmt { fail_at, ..Fmt::new(strict) };
    let out = (sty.read)(view, D { f: &f, n, top: true });
    let asked = f.asked.borrow().clone();
    (out, asked, f.count.get())
}

fn want(sty: &Style, n: &In, req: &Req, strict: bool) -> Want {
    match sty.kind {
        Kind::External => external(n, sty.names, req, strict),
        Kind::Internal { tag, default } => internal(n, tag, default, sty.names, req, strict),
        Kind::Adjacent { tag, content, default, deny } => adjacent(n, &Adj { tag, content, default, deny }, sty.names, req, strict),
    }
}

fn read_right(got: &Result<(S, Got), DErr>, want: &Want) -> Result<(), String> {
    let good = match (got, want) {
        (Ok((a, g)), Want::Ok(b, h)) => a == b && g == h,
        (Err(e), Want::Exact(f)) => e == f,
        (Err(DErr::Custom(m)), Want::NonUnique) => m.contains("non-unique"),
        (Err(_), Want::Err) => true,
        _ => false,
    };
    if good {
        Ok(())
    } else {
        Err(format!("read   {got:?}\n    expected {want:?}"))
    }
}

fn rcase(r: &mut Run, sty: &'static Style, view: usize, n: &In, req: &Req, strict: bool) {
    let w = want(sty, n, req, strict);
    let told = hints(r.evaluations);
    r.case(
        &|| format!("dyn {} ({:?}) view {view}, reading {n:?} with {req:?}, strict format {strict} announcing {told}", sty.trait_name, sty.kind),
        &|| {
            let (got, asked, _) = read(sty, view, n, req, strict, usize::MAX);
            let announced = match sty.kind {
                Kind::Adjacent { tag, content, .. } => format!("struct {} {:?}", sty.trait_name, [tag, content]),
                _ => "deserialize_map".to_owned(),
            };
            if asked != [announced.clone()] {
                return Err(format!("asked the format for {asked:?}, expected {announced:?}"));
            }
            read_right(&got, &w)
        },
    );
}

/// An input error at every call makes the whole fail.
fn rinject(r: &mut Run, sty: &'static Style, n: &In, req: &Req) {
    hints(1);
    let (got, _, calls) = read(sty, 0, n, req, false, usize::MAX);
    if got.is_err() {
        return;
    }
    for k in 0..calls {
        r.case(
            &|| format!("dyn {} ({:?}), reading {n:?} with {req:?}, the input fails at call {k}", sty.trait_name, sty.kind),
            &|| {
                let (got, _, _) = read(sty, 0, n, req, false, k);
                match got {
                    Err(e) if e.to_string().contains(&format!("injected-{k}")) => Ok(()),
                    x => Err(format!("gave {x:?}")),
                }
            },
        );
    }
}

fn entry(k: &str, v: In) -> (In, In) {
    (s(k), v)
}

fn tag_inputs() -> Vec<In> {
    let mut v = in_leaves();
    for t in ["Zeta", "A", "a", "AB", "", "q\"\u{e9}", "from const", "x", "type", "Dup", "Triple", "Four", "Mid", "B", "A ", "ZETA", "zeta", "ABC", "CONST_NAME", "D1", "A1", "value", "content"] {
        for o in [Own::Borrowed, Own::Transient, Own::Owned] {
            v.push(In::Str(o, t.to_owned()));
        }
        v.push(In::Bytes(Own::Borrowed, t.as_bytes().to_vec()));
        v.push(In::Bytes(Own::Owned, t.as_bytes().to_vec()));
        v.push(In::Some(bi(s(t))));
        v.push(In::Newtype(bi(s(t))));
        v.push(In::Seq(vec![s(t)]));
        v.push(In::Enum(bi(s(t)), None));
        v.push(In::StrIfAsked(t.to_owned()));
    }
    v.push(In::Char('A'));
    v.push(In::Char('a'));
    v.push(In::Char('b'));
    v.push(In::Bad);
    v.push(In::Map(vec![(s("A"), In::Unit)]));
    v
}

fn tag_of(k: &Kind) -> S {
    match k {
        Kind::Internal { tag, .. } | Kind::Adjacent { tag, .. } => tag,
        _ => "",
    }
}

/// The same tag in every place a tag can stand.
fn with_tag(sty: &Style, t: &In) -> Vec<In> {
    match sty.kind {
        Kind::External => vec![In::Map(vec![(t.clone(), In::U8(5))])],
        Kind::Internal { tag, .. } => vec![
            In::Map(vec![(s(tag), t.clone())]),
            In::Map(vec![(s(tag), t.clone()), entry("k", In::U8(5))]),
            In::Map(vec![entry("k", In::U8(5)), (s(tag), t.clone())]),
            In::Map(vec![entry("k", In::U8(5)), (s(tag), t.clone()), entry("l", In::U8(6))]),
        ],
        Kind::Adjacent { tag, content, .. } => vec![
            In::Map(vec![(s(tag), t.clone())]),
            In::Map(vec![(s(tag), t.clone()), entry(content, In::U8(5))]),
            In::Map(vec![entry(content, In::U8(5)), (s(tag), t.clone())]),
            In::Seq(vec![t.clone(), In::U8(5)]),
        ],
    }
}

fn c07(r: &mut Run) {
    let any = Req::new(Hint::Any);
    for sty in STYLES {
        for t in tag_inputs() {
            for n in with_tag(sty, &t) {
                for view in 0..sty.read_views {
                    rcase(r, sty, view, &n, &any, true);
                }
            }
        }
    }
    // strings that look like a name, or like a name that is no name
    for sty in STYLES {
        for (name, _) in sty.names {
            for t in like(name) {
                if let Some(n) = with_tag(sty, &s(&t)).into_iter().nth(r.rng.below(4) % if matches!(sty.kind, Kind::External) { 1 } else { 4 }) {
                    rcase(r, sty, 0, &n, &any, true);
                }
            }
        }
    }
    let letters = ["A", "B", "a", "Z", "e", "t", "D", "u", "p", "\"", " ", "x", "M", "i", "d"];
    for _ in 0..if r.thorough { 100000 } else { 4000 } {
        let len = r.rng.below(5);
        let t: String = (0..len).map(|_| *r.rng.pick(&letters)).collect();
        let sty = *r.rng.pick(STYLES);
        for n in with_tag(sty, &s(&t)) {
            rcase(r, sty, 0, &n, &any, true);
        }
    }
}

fn c08(r: &mut Run) {
    let any = Req::new(Hint::Any);
    // every registered name, and the list of names in the error for another
    for sty in STYLES {
        for (name, _) in sty.names {
            for n in with_tag(sty, &s(name)) {
                rcase(r, sty, 0, &n, &any, true);
            }
        }
        for n in with_tag(sty, &s("no such name")) {
            // twice: the registry is built once
            rcase(r, sty, 0, &n, &any, true);
            rcase(r, sty, 0, &n, &any, false);
        }
    }
    // several threads build it at once: every one sees it complete
    r.case(&|| "first use of a registry by 8 threads at once".into(), &|| {
        let hs: Vec<_> = (0..8)
            .map(|i| {
                std::thread::spawn(move || {
                    let sty = STYLES[i % 2];
                    let n = In::Map(vec![(s("nobody"), In::Unit)]);
                    let q = Req::new(Hint::Any);
                    let got = read(sty, 0, &n, &q, true, usize::MAX).0;
                    read_right(&got, &want(sty, &n, &q, true))
                })
            })
            .collect();
        for h in hs {
            h.join().map_err(|_| "panicked".to_string())??;
        }
        Ok(())
    });
}

fn tagged_values(r: &mut Run) -> Vec<In> {
    let mut v = in_small();
    v.push(In::Echo);
    v.extend(in_bad());
    v.extend(in_large());
    for _ in 0..if r.thorough { 3000 } else { 150 } {
        v.push(in_random(&mut r.rng, 3));
    }
    v
}

fn some_reqs(r: &mut Run, n: &In, all: &[Req]) -> Vec<Req> {
    let mut v = vec![Req::new(Hint::Any), fit(&mut r.rng, n), fit(&mut r.rng, n)];
    for _ in 0..if r.thorough { 60 } else { 12 } {
        v.push(r.rng.pick(all).clone());
    }
    v
}

fn c09(r: &mut Run) {
    let all = reqs();
    let sts = styles(|k| *k == Kind::External);
    for v in tagged_values(r) {
        for q in some_reqs(r, &v, &all) {
            let strict = r.rng.flip();
            let n = In::Map(vec![entry("A", v.clone())]);
            rcase(r, sts[0], 0, &n, &q, strict);
        }
        let q = fit(&mut r.rng, &v);
        // other than one entry, other than a map
        for n in [
            In::Map(vec![entry("A", v.clone()), entry("Zeta", In::U8(1))]),
            In::Map(vec![entry("a", In::U8(1)), entry("A", v.clone())]),
            In::Map(vec![(v.clone(), In::U8(1))]),
            v.clone(),
            In::Seq(vec![s("A"), v.clone()]),
        ] {
            rcase(r, sts[0], 0, &n, &q, true);
            rcase(r, sts[0], 0, &n, &q, false);
        }
    }
    rcase(r, sts[0], 0, &In::Map(vec![]), &Req::new(Hint::Any), true);
    for q in &all {
        rcase(r, sts[1], 0, &In::Map(vec![(In::StrIfAsked("Mid".into()), In::Echo)]), q, true);
        rinject(r, sts[0], &In::Map(vec![entry("A", In::Seq(vec![In::U8(1), s("x")]))]), q);
        rinject(r, sts[0], &In::Map(vec![entry("A", In::Map(vec![entry("f0", In::U8(1))]))]), q);
    }
}

/// Objects whose tag stands at any place among other entries.
fn c10(r: &mut Run) {
    let sts = styles(|k| matches!(k, Kind::Internal { default: None, .. }));
    let maps: Vec<Req> = {
        let mut v = vec![];
        for h in [Hint::Map, Hint::Any, Hint::Struct("St", &["f0", "f1"]), Hint::Newtype("Nt")] {
            for take in [ALL, 0, 1, 2] {
                for key in [Hint::Any, Hint::Ident, Hint::U8] {
                    v.push(Req::new(h.clone()).take(take).key(Req::new(key)));
                }
            }
        }
        v.push(Req::new(Hint::Map).val(Req::new(Hint::Option)));
        v.push(Req::new(Hint::Map).val(Req::new(Hint::Ignored)));
        v.push(Req::new(Hint::Newtype("Nt")).val(Req::new(Hint::Map).take(1)));
        v
    };
    let vals = in_small();
    let bad = in_bad();
    let rounds = if r.thorough { 40000 } else { 4000 };
    for i in 0..rounds {
        let sty = if r.rng.below(4) == 0 { *r.rng.pick(&sts) } else { sts[0] };
        let tag = tag_of(&sty.kind);
        let len = r.rng.below(5);
        let mut es = vec![];
        for j in 0..len {
            let k = if r.rng.below(12) == 0 {
                match r.rng.below(6) {
                    0 => In::U8(3),
                    1 => In::Char('k'),
                    2 => In::Bytes(Own::Transient, b"bytes".to_vec()),
                    3 => In::Bytes(Own::Borrowed, vec![255]),
                    4 => In::StrIfAsked("asked".into()),
                    _ => s(tag),
                }
            } else {
                In::Str(*r.rng.pick(&[Own::Borrowed, Own::Transient, Own::Owned]), ["a", "value", "b", "a", "Type"][(i + j) % 5].to_owned())
            };
            let v = match r.rng.below(24) {
                0 => r.rng.pick(&bad).clone(),
                1 => In::Echo,
                2 => in_random(&mut r.rng, 2),
                _ => r.rng.pick(&vals).clone(),
            };
            es.push((k, v));
        }
        let q = r.rng.pick(&maps).clone();
        let strict = r.rng.flip();
        let name = *r.rng.pick(&["A", "Mid", "A", "a", "none such", "Dup"]);
        for at in 0..=len {
            let mut e = es.clone();
            e.insert(at, (s(tag), s(name)));
            rcase(r, sty, 0, &In::Map(e), &q, strict);
        }
        rcase(r, sty, 0, &In::Map(es), &q, strict);
    }
    for v in [In::Unit, In::Seq(vec![s("A")]), s("A"), In::Map(vec![])] {
        rcase(r, sts[0], 0, &v, &Req::new(Hint::Any), true);
    }
    // many entries, and keys that look like others
    for &n in SIZES {
        let names = ["A", "typ", "Type", "type ", "value", "", "Int", "content", "types"];
        let es: Vec<_> = (0..n).map(|i| if i < names.len() { entry(names[(i + n) % names.len()], In::U16(i as u16)) } else { entry(&format!("k{}", i / 2), In::U16(i as u16)) }).collect();
        for at in [0, 1, n / 2, n - 1, n] {
            let mut e = es.clone();
            e.insert(at, entry("type", s("A")));
            for h in [Hint::Any, Hint::Map, Hint::Struct("St", &["type", "A"])] {
                rcase(r, sts[0], 0, &In::Map(e.clone()), &Req::new(h.clone()), false);
                rcase(r, sts[0], 0, &In::Map(e.clone()), &Req::new(h).take(n - 1), true);
            }
        }
        rcase(r, sts[0], 0, &In::Map(es), &Req::new(Hint::Map), false);
    }
    for v in in_large() {
        let q = Req::new(Hint::Map).val(fit(&mut r.rng, &v));
        for es in [
            vec![entry("k", v.clone()), entry("type", s("A"))],
            vec![entry("type", s("A")), entry("k", v.clone())],
            vec![entry("j", s("B")), entry("type", s("A")), entry("k", v.clone())],
        ] {
            rcase(r, sts[0], 0, &In::Map(es), &q, true);
        }
    }
    for sty in styles(|k| matches!(k, Kind::Internal { .. })) {
        let tag = tag_of(&sty.kind);
        for k in like(tag) {
            for es in [
                vec![entry(&k, s("A"))],
                vec![entry(&k, s("A")), entry(tag, s("A"))],
                vec![entry(tag, s("A")), entry(&k, s("A"))],
                vec![entry(&k, s("A")), entry(tag, s("Mid")), entry(&k, s("A")), entry("k", In::U8(1))],
            ] {
                rcase(r, sty, 0, &In::Map(es), &Req::new(Hint::Map), true);
            }
        }
    }
    // keys are asked for as strings wherever they are
    for q in &maps {
        let es = vec![(In::Echo, In::U8(1)), (In::Echo, In::Echo), (In::StrIfAsked("k".into()), In::U8(2))];
        for at in 0..=3 {
            let mut e = es.clone();
            e.insert(at, entry("type", s("A")));
            rcase(r, sts[0], 0, &In::Map(e.clone()), q, true);
            rcase(r, sts[0], 0, &In::Map(e), q, false);
        }
    }
    let es = vec![entry("a", In::U8(1)), entry("b", In::Seq(vec![In::U8(1)])), entry("c", s("x"))];
    for at in 0..=3 {
        let mut e = es.clone();
        e.insert(at, entry("type", s("A")));
        rinject(r, sts[0], &In::Map(e), &Req::new(Hint::Map));
    }
}

fn c11(r: &mut Run) {
    let all = reqs();
    let vals = in_small();
    let sts: Vec<_> = STYLES.iter().copied().filter(|s| !matches!(s.kind, Kind::External)).collect();
    for _ in 0..if r.thorough { 60000 } else { 6000 } {
        let sty = *r.rng.pick(&sts);
        let tag = tag_of(&sty.kind);
        let second = match sty.kind {
            Kind::Adjacent { content, .. } => content,
            _ => "value",
        };
        let mut es = vec![];
        for _ in 0..r.rng.below(4) {
            es.push(entry(*r.rng.pick(&[second, "other", "k", "typ"]), r.rng.pick(&vals).clone()));
        }
        let q = match es.first() {
            Some((_, v)) if r.rng.flip() => fit(&mut r.rng, v),
            _ if r.rng.flip() => Req::new(Hint::Map),
            _ => r.rng.pick(&all).clone(),
        };
        rcase(r, sty, 0, &In::Map(es.clone()), &q, r.rng.0 % 2 == 0);
        let t = r.rng.pick(&[s("A"), s("a"), s("none"), s("Dup"), In::U8(1), In::Unit, In::None, In::Bad, s("x"), s("Nope"), In::Some(bi(s("A")))]).clone();
        let at = r.rng.below(es.len() + 1);
        es.insert(at, (s(tag), t));
        rcase(r, sty, 0, &In::Map(es), &q, r.rng.0 % 2 == 0);
    }
    for v in in_large() {
        let (int, adj) = (styles(|k| matches!(k, Kind::Internal { default: Some("A"), .. }))[0], styles(|k| matches!(k, Kind::Adjacent { default: Some("A"), .. }))[0]);
        let q = fit(&mut r.rng, &v);
        rcase(r, int, 0, &In::Map(vec![entry("value", v.clone())]), &q, true);
        rcase(r, int, 0, &In::Map(vec![entry("k", v.clone()), entry("l", In::Unit)]), &Req::new(Hint::Map).val(q.clone()), true);
        rcase(r, adj, 0, &In::Map(vec![entry("content", v.clone())]), &q, true);
    }
    for sty in &sts {
        for q in &all {
            rcase(r, sty, 0, &In::Map(vec![]), q, true);
            rcase(r, sty, 0, &In::Map(vec![entry("value", In::U8(1))]), q, true);
            rcase(r, sty, 0, &In::Map(vec![entry("content", In::Seq(vec![In::U8(1), In::U8(2)]))]), q, true);
        }
    }
}

fn c12(r: &mut Run) {
    let all = reqs();
    let sts = styles(|k| matches!(k, Kind::Adjacent { .. }));
    let vals = in_small();
    let bad = in_bad();
    // every order of up to four entries
    let any = Req::new(Hint::Any);
    for sty in &sts {
        let Kind::Adjacent { tag, content, .. } = sty.kind else { unreachable!() };
        let pool: Vec<(In, In)> = vec![
            entry(tag, s("A")),
            entry(tag, s("Mid")),
            entry(tag, s("none")),
            entry(content, In::U8(1)),
            entry(content, In::Seq(vec![In::U8(1), s("x")])),
            entry("other", In::U8(2)),
            entry("other", In::Bad),
            entry("other", In::Enum(bi(s("Uv")), None)),
            (In::U8(0), In::Unit),
            (In::Char('c'), In::Unit),
            (In::Bytes(Own::Owned, tag.as_bytes().to_vec()), s("A")),
        ];
        let p = pool.len();
        for len in 0..=4usize {
            for code in 0..p.pow(len as u32) {
                if len == 4 && !r.thorough && code % 11 != 0 {
                    continue;
                }
                let mut c = code;
                let es: Vec<_> = (0..len)
                    .map(|_| {
                        let x = pool[c % p].clone();
                        c /= p;
                        x
                    })
                    .collect();
                rcase(r, sty, 0, &In::Map(es), &any, code % 2 == 0);
            }
        }
    }
    for _ in 0..if r.thorough { 40000 } else { 4000 } {
        let sty = *r.rng.pick(&sts);
        let Kind::Adjacent { tag, content, .. } = sty.kind else { unreachable!() };
        let v = if r.rng.below(10) == 0 { r.rng.pick(&bad).clone() } else if r.rng.below(10) == 0 { In::Echo } else { r.rng.pick(&vals).clone() };
        let q = if r.rng.flip() { fit(&mut r.rng, &v) } else { r.rng.pick(&all).clone() };
        let mut es = vec![(In::StrIfAsked(tag.into()), In::StrIfAsked("A".into())), entry(content, v)];
        if r.rng.flip() {
            es.reverse();
        }
        if r.rng.below(3) == 0 {
            let at = r.rng.below(3);
            es.insert(at, entry("more", r.rng.pick(&vals).clone()));
        }
        rcase(r, sty, 0, &In::Map(es), &q, r.rng.0 % 2 == 0);
    }
    for v in [In::Unit, s("A"), In::U8(1)] {
        rcase(r, sts[0], 0, &v, &any, true);
    }
    for v in in_large() {
        let q = fit(&mut r.rng, &v);
        for es in [
            vec![entry("content", v.clone()), entry("type", s("A"))],
            vec![entry("type", s("A")), entry("content", v.clone())],
            vec![entry("content", v.clone()), entry("o", v.clone()), entry("type", s("A"))],
        ] {
            rcase(r, sts[0], 0, &In::Map(es), &q, true);
        }
    }
    for sty in &sts {
        let Kind::Adjacent { tag, content, .. } = sty.kind else { unreachable!() };
        for k in like(tag).into_iter().chain(like(content)).chain(MARKS.iter().map(|x| x.to_string())) {
            let o = entry(&k, s("A"));
            let (t, c) = (entry(tag, s("A")), entry(content, In::U8(1)));
            for es in [vec![o.clone()], vec![o.clone(), t.clone()], vec![t.clone(), o.clone()], vec![c.clone(), o.clone(), t.clone()], vec![t, c.clone(), o.clone()], vec![o, c]] {
                rcase(r, sty, 0, &In::Map(es), &any, false);
            }
        }
    }
    // many other keys, and keys that look like others
    for sty in &sts {
        let Kind::Adjacent { tag, content, .. } = sty.kind else { unreachable!() };
        for &n in SIZES {
            let names = ["A", "typ", "Type", "type ", "value", "", "Adj", "contents", "conten", "types"];
            let es: Vec<_> = (0..n).map(|i| if i < names.len() { entry(names[(i + n) % names.len()], In::U16(i as u16)) } else { entry(&format!("k{}", i / 2), In::U16(i as u16)) }).collect();
            for (a, c) in [(0, 1), (1, 0), (n / 2, n), (n, n / 2), (n, n)] {
                let mut e = es.clone();
                e.insert(a.min(n), entry(tag, s("A")));
                e.insert(c.min(n + 1), entry(content, In::Seq(vec![In::U8(1)])));
                rcase(r, sty, 0, &In::Map(e.clone()), &any, n % 2 == 0);
                for again in [entry(tag, s("A")), entry(content, In::Unit)] {
                    for at in [0, n / 2, n + 2] {
                        let mut f = e.clone();
                        f.insert(at, again.clone());
                        rcase(r, sty, 0, &In::Map(f), &any, n % 2 == 0);
                    }
                }
            }
        }
    }
    rinject(r, sts[0], &In::Map(vec![entry("o", In::U8(1)), entry("content", In::Seq(vec![In::U8(1)])), entry("o", In::U8(1)), entry("type", s("A")), entry("o", In::U8(1))]), &any);
    rinject(r, sts[0], &In::Map(vec![entry("type", s("A")), entry("o", In::U8(1)), entry("content", In::Seq(vec![In::U8(1)])), entry("o", In::U8(1))]), &any);
    rinject(r, sts[0], &In::Map(vec![entry("type", s("A")), entry("o", In::U8(1))]), &any);
}

fn c13(r: &mut Run) {
    let all = reqs();
    let sts = styles(|k| matches!(k, Kind::Adjacent { .. }));
    let any = Req::new(Hint::Any);
    for sty in &sts {
        for t in tag_inputs() {
            for rest in [vec![], vec![In::U8(1)], vec![In::U8(1), In::U8(2)], vec![In::Bad]] {
                let mut v = vec![t.clone()];
                v.extend(rest);
                rcase(r, sty, 0, &In::Seq(v.clone()), &any, true);
                rcase(r, sty, 0, &In::Seq(v), &any, false);
            }
        }
        for q in &all {
            rcase(r, sty, 0, &In::Seq(vec![]), q, true);
            rcase(r, sty, 0, &In::Seq(vec![s("Mid")]), q, true);
            rcase(r, sty, 0, &In::Seq(vec![s("Mid"), In::Echo]), q, true);
        }
    }
    for v in tagged_values(r) {
        for q in some_reqs(r, &v, &all) {
            rcase(r, sts[0], 0, &In::Seq(vec![s("A"), v.clone()]), &q, r.rng.0 % 2 == 0);
        }
        rcase(r, sts[0], 0, &In::Seq(vec![v.clone(), In::U8(1)]), &any, false);
    }
    rinject(r, sts[0], &In::Seq(vec![s("A"), In::Seq(vec![In::U8(1), In::U8(2)])]), &any);
}

fn c14(r: &mut Run) {
    let all = reqs();
    let int = styles(|k| matches!(k, Kind::Internal { default: None, .. }))[0];
    let adj = styles(|k| matches!(k, Kind::Adjacent { .. }))[0];
    for v in in_large() {
        for q in [Req::new(Hint::Any), fit(&mut r.rng, &v), fit(&mut r.rng, &v)] {
            rcase(r, adj, 0, &In::Map(vec![entry("content", v.clone()), entry("type", s("A"))]), &q, true);
            rcase(r, int, 0, &In::Map(vec![entry("value", v.clone()), entry("type", s("A"))]), &q, true);
        }
    }
    let mut vals = in_small();
    vals.extend(in_bad());
    vals.push(In::Echo);
    // every kind of value against every request
    for v in &vals {
        for q in &all {
            rcase(r, adj, 0, &In::Map(vec![entry("content", v.clone()), entry("type", s("A"))]), q, true);
        }
        for q in all.iter().step_by(7) {
            rcase(r, int, 0, &In::Map(vec![entry("value", v.clone()), entry("type", s("A"))]), q, true);
        }
        let q = Req::new(Hint::Map).val(fit(&mut r.rng, v));
        rcase(r, int, 0, &In::Map(vec![entry("k", v.clone()), entry("type", s("A")), entry("l", v.clone())]), &q, true);
    }
    for _ in 0..if r.thorough { 200000 } else { 10000 } {
        let v = in_random(&mut r.rng, 4);
        let q = fit(&mut r.rng, &v);
        rcase(r, adj, 0, &In::Map(vec![entry("content", v.clone()), entry("type", s("A"))]), &q, true);
        rcase(r, int, 0, &In::Map(vec![entry("value", v), entry("type", s("A"))]), &q, true);
    }
}

fn c15(r: &mut Run) {
    let int = styles(|k| matches!(k, Kind::Internal { default: None, .. }))[0];
    let int_def = styles(|k| matches!(k, Kind::Internal { default: Some("A"), .. }))[0];
    let adj = styles(|k| matches!(k, Kind::Adjacent { .. }))[0];
    let adj_def = styles(|k| matches!(k, Kind::Adjacent { default: Some("A"), .. }))[0];
    let elems = [In::U8(1), s("x"), In::Seq(vec![In::U8(1), In::U8(2)]), In::Map(vec![entry("a", In::U8(1)), entry("b", In::U8(2))]), In::Unit];
    for len in 0..=4usize {
        let v: Vec<In> = (0..len).map(|i| elems[i % elems.len()].clone()).collect();
        let m: Vec<(In, In)> = v.iter().enumerate().map(|(i, x)| (s(["a", "b", "c", "d"][i]), x.clone())).collect();
        let mut shapes = vec![In::Seq(v.clone()), In::Map(m.clone())];
        for x in shapes.clone() {
            shapes.push(In::Some(bi(x.clone())));
            shapes.push(In::Newtype(bi(x.clone())));
            shapes.push(In::Seq(vec![x.clone()]));
            shapes.push(In::Map(vec![entry("Nv", x.clone())]));
            shapes.push(In::Map(vec![entry("Nv", x.clone()), entry("Uv", In::Unit)]));
        }
        for take in [0, 1, 2, 3, 4, ALL] {
            for h in [Hint::Any, Hint::Seq, Hint::Tuple(take.min(9)), Hint::TupleStruct("Ts", take.min(9)), Hint::Map, Hint::Struct("St", &["a", "b"]), Hint::Bytes, Hint::ByteBuf, Hint::UnitStruct("Us")] {
                let base = Req::new(h.clone()).take(take);
                let mut qs = vec![base.clone()];
                for o in [Hint::Option, Hint::Newtype("Nt"), Hint::Seq, Hint::Map, Hint::Any] {
                    qs.push(Req::new(o).val(base.clone()));
                }
                for vr in [VReq::Unit, VReq::Newtype, VReq::Tuple(take.min(9)), VReq::Struct(&["a", "b"])] {
                    qs.push(Req::new(Hint::Enum("En", &["Nv"])).variant(vr.clone()).take(take).val(base.clone()));
                }
                for q in &qs {
                    for x in &shapes {
                        for strict in [true, false] {
                            rcase(r, adj, 0, &In::Map(vec![entry("content", x.clone()), entry("type", s("A"))]), q, strict);
                        }
                        rcase(r, adj_def, 0, &In::Map(vec![entry("content", x.clone())]), q, false);
                        rcase(r, int, 0, &In::Map(vec![entry("value", x.clone()), entry("type", s("A"))]), q, false);
                    }
                    // the object's own entries
                    for at in 1..=len {
                        let mut e = m.clone();
                        e.insert(at, entry("type", s("A")));
                        rcase(r, int, 0, &In::Map(e.clone()), q, false);
                    }
                    rcase(r, int_def, 0, &In::Map(m.clone()), q, false);
                    let mut e = vec![entry("value", In::U8(1)), entry("type", s("A"))];
                    e.extend(m.clone());
                    rcase(r, int, 0, &In::Map(e), q, false);
                }
            }
        }
    }
    for h in scalar_hints() {
        for q in [Req::new(h.clone()), Req::new(Hint::Option).val(Req::new(h.clone())), Req::new(Hint::Newtype("N")).val(Req::new(h))] {
            for extra in [vec![], vec![entry("z", In::U8(1))], vec![entry("y", In::U8(1)), entry("z", In::U8(1))]] {
                for first in [In::U8(1), s("x"), In::Unit, In::Bytes(Own::Owned, vec![1])] {
                    let mut e = vec![entry("value", first), entry("type", s("A"))];
                    e.extend(extra.clone());
                    rcase(r, int, 0, &In::Map(e), &q, false);
                }
            }
        }
    }
}

fn c16(r: &mut Run) {
    let all = reqs();
    let sts = styles(|k| matches!(k, Kind::Internal { default: None, .. }));
    let int = sts[0];
    for v in in_large() {
        for q in [Req::new(Hint::Any), fit(&mut r.rng, &v), fit(&mut r.rng, &v)] {
            rcase(r, int, 0, &In::Map(vec![entry("type", s("A")), entry("value", v.clone())]), &q, true);
            rcase(r, int, 0, &In::Map(vec![entry("type", s("A")), entry("Nv", v.clone())]), &q, false);
        }
    }
    let mut vals = in_small();
    vals.push(In::Echo);
    let keys: Vec<In> = vec![s("value"), s("Nv"), s("valu"), s("VALUE"), In::Str(Own::Borrowed, "value".into()), In::Str(Own::Owned, "value".into()), In::StrIfAsked("value".into()), In::U8(1), In::Char('v'), In::Bytes(Own::Owned, b"value".to_vec())];
    // the tag first, or last
    for q in &all {
        rcase(r, int, 0, &In::Map(vec![entry("type", s("A"))]), q, true);
        for (i, v) in vals.iter().enumerate() {
            for k in [&keys[0], &keys[1 + i % (keys.len() - 1)]] {
                let e = (k.clone(), v.clone());
                rcase(r, int, 0, &In::Map(vec![entry("type", s("A")), e.clone()]), q, i % 2 == 0);
                if i % 3 == 0 {
                    rcase(r, int, 0, &In::Map(vec![e.clone(), entry("type", s("A"))]), q, i % 2 == 0);
                    rcase(r, int, 0, &In::Map(vec![entry("type", s("A")), e.clone(), entry("w", In::U8(1))]), q, i % 2 == 0);
                }
            }
        }
        for k in &keys {
            rcase(r, int, 0, &In::Map(vec![entry("type", s("A")), (k.clone(), In::Echo)]), q, true);
            rcase(r, int, 0, &In::Map(vec![entry("type", s("A")), (k.clone(), In::Echo), (k.clone(), In::Echo)]), q, true);
            rcase(r, int, 0, &In::Map(vec![(k.clone(), In::Echo), entry("type", s("A"))]), q, true);
        }
    }
    for k in like("value").into_iter().chain(MARKS.iter().map(|x| x.to_string())) {
        for h in scalar_hints().into_iter().chain(compound_hints()) {
            rcase(r, int, 0, &In::Map(vec![entry("type", s("A")), entry(&k, In::Echo)]), &Req::new(h.clone()), true);
            rcase(r, int, 0, &In::Map(vec![entry(&k, In::Echo), entry("type", s("A"))]), &Req::new(h), true);
        }
    }
    // the request that reaches the value is the one made, at every place
    for h in scalar_hints().into_iter().chain(compound_hints()) {
        let q = Req::new(h);
        let of = |h: Hint, v: VReq| Req::new(h).val(q.clone()).variant(v);
        for o in [
            of(Hint::Option, VReq::Newtype),
            of(Hint::Newtype("Nt"), VReq::Newtype),
            of(Hint::Enum("En", VS), VReq::Newtype),
            of(Hint::Enum("En", VS), VReq::Unit),
            of(Hint::Enum("En", VS), VReq::Tuple(2)),
            of(Hint::Enum("En", VS), VReq::Struct(F)),
            of(Hint::Map, VReq::Newtype),
            of(Hint::Any, VReq::Newtype),
            of(Hint::Seq, VReq::Newtype),
            Req::new(Hint::Newtype("Nt")).val(of(Hint::Option, VReq::Newtype)),
            Req::new(Hint::Map).key(q.clone()),
            Req::new(Hint::Enum("En", VS)).key(q.clone()),
        ] {
            for v in [In::Echo, In::Seq(vec![In::Echo, In::Echo]), In::Map(vec![(In::Echo, In::Echo)]), In::Some(bi(In::Echo)), In::Newtype(bi(In::Echo))] {
                for k in [s("value"), In::Echo, In::StrIfAsked("value".into())] {
                    for strict in [true, false] {
                        rcase(r, int, 0, &In::Map(vec![entry("type", s("A")), (k.clone(), v.clone())]), &o, strict);
                    }
                    rcase(r, int, 0, &In::Map(vec![(k.clone(), v.clone()), entry("type", s("A"))]), &o, true);
                    rcase(r, int, 0, &In::Map(vec![entry("a", In::U8(1)), entry("type", s("A")), (k.clone(), v.clone())]), &o, true);
                }
            }
        }
    }
    for v in [In::U8(1), In::Seq(vec![In::U8(1)]), In::Unit] {
        for q in &all {
            rinject(r, int, &In::Map(vec![entry("type", s("A")), entry("value", v.clone())]), q);
        }
    }
    // the errors name what is wrong
    for h in [Hint::U8, Hint::Str, Hint::Seq, Hint::Bytes] {
        let q = Req::new(h.clone());
        for (n, part) in [
            (In::Map(vec![entry("type", s("A"))]), "Missing(\"value\")"),
            (In::Map(vec![entry("type", s("A")), entry("k", In::U8(1))]), "Field(\"k\", [\"value\"])"),
            (In::Map(vec![entry("k", In::U8(1)), entry("type", s("A"))]), "Field(\"k\", [\"value\"])"),
            // keys are asked for as strings
            (In::Map(vec![entry("type", s("A")), (In::Echo, In::U8(1))]), "Field(\"Str\", [\"value\"])"),
            (In::Map(vec![(In::Echo, In::U8(1)), entry("type", s("A"))]), "Field(\"Str\", [\"value\"])"),
            (In::Map(vec![entry("a", In::U8(1)), entry("type", s("A")), (In::Echo, In::U8(1))]), "Field(\"a\", [\"value\"])"),
        ] {
            r.case(&|| format!("dyn Int, reading {n:?} with {h:?}: the error"), &|| {
                let e = read(int, 0, &n, &q, true, usize::MAX).0;
                match &e {
                    Err(x) if x.to_string().replace('\\', "").contains(part) => Ok(()),
                    _ => Err(format!("gave {e:?}, expected {part}")),
                }
            });
        }
    }
}

fn c17(r: &mut Run) {
    let nodes = [st("x"), Node::Struct("St", 1, vec![("f", Some(Node::U8(1)))]), Node::Unit, Node::Tuple(2, vec![Node::U8(1), Node::U8(2)])];
    for sty in STYLES {
        for which in 0..sty.writable.len() {
            for view in 0..4 {
                for n in &nodes {
                    let want = shape(sty, n, which);
                    wcase(r, sty, which, view, n, &|w| written_right(w, &want, true, false));
                }
            }
        }
        let any = Req::new(Hint::Any);
        let mut inputs = vec![];
        for (name, _) in sty.names {
            inputs.extend(with_tag(sty, &s(name)));
        }
        inputs.extend(with_tag(sty, &s("none")));
        match sty.kind {
            Kind::External => inputs.push(In::Map(vec![])),
            Kind::Internal { tag, .. } => {
                inputs.push(In::Map(vec![]));
                inputs.push(In::Map(vec![entry("k", In::U8(1))]));
                inputs.push(In::Map(vec![entry("type", s("A")), entry("k", In::U8(1)), entry(tag, s("x"))]));
            }
            Kind::Adjacent { tag, content, .. } => {
                inputs.push(In::Map(vec![]));
                inputs.push(In::Map(vec![entry(content, In::U8(1))]));
                inputs.push(In::Map(vec![entry(tag, s("x")), entry("more", In::U8(1)), entry(content, In::U8(1))]));
                inputs.push(In::Map(vec![entry("more", In::U8(1)), entry(content, In::U8(1))]));
            }
        }
        for n in inputs {
            for view in 0..sty.read_views {
                rcase(r, sty, view, &n, &any, true);
            }
        }
    }
}

// -------------------------------------------------------------- round trip

/// What a self-describing format presents of what was written.
fn present(n: &Node) -> In {
    let all = |v: &Vec<Node>| In::Seq(v.iter().map(present).collect());
    let fl = |v: &Vec<(S, Option<Node>)>| In::Map(v.iter().filter_map(|(k, x)| Some((s(k), present(x.as_ref()?)))).collect());
    match n {
        Node::Bool(x) => In::Bool(*x),
        Node::I8(x) => In::I8(*x),
        Node::I16(x) => In::I16(*x),
        Node::I32(x) => In::I32(*x),
        Node::I64(x) => In::I64(*x),
        Node::I128(x) => In::I128(*x),
        Node::U8(x) => In::U8(*x),
        Node::U16(x) => In::U16(*x),
        Node::U32(x) => In::U32(*x),
        Node::U64(x) => In::U64(*x),
        Node::U128(x) => In::U128(*x),
        Node::F32(x) => In::F32(*x),
        Node::F64(x) => In::F64(*x),
        Node::Char(x) => In::Char(*x),
        Node::Str(x) | Node::CollectStr(x) => s(x),
        Node::Bytes(x) => In::Bytes(Own::Borrowed, x.clone()),
        Node::None => In::None,
        Node::Some(x) => In::Some(bi(present(x))),
        Node::Unit | Node::UnitStruct(_) => In::Unit,
        Node::UnitVariant(_, _, k) => s(k),
        Node::Newtype(_, x) => present(x),
        Node::NewtypeVariant(_, _, k, x) => In::Map(vec![(s(k), present(x))]),
        Node::Seq(_, v) | Node::Tuple(_, v) | Node::TupleStruct(_, _, v) => all(v),
        Node::TupleVariant(_, _, k, _, v) => In::Map(vec![(s(k), all(v))]),
        Node::Map(_, v, _) => In::Map(v.iter().map(|(a, b)| (present(a), present(b))).collect()),
        Node::Struct(_, _, v) => fl(v),
        Node::StructVariant(_, _, k, _, v) => In::Map(vec![(s(k), fl(v))]),
        Node::Fail => In::Bad,
    }
}

fn plain(g: Got) -> Got {
    match g {
        Got::Str(_, x) => Got::Str(Own::Owned, x),
        Got::Bytes(_, x) => Got::Bytes(Own::Owned, x),
        Got::Some(x) => Got::Some(Box::new(plain(*x))),
        Got::Newtype(x) => Got::Newtype(Box::new(plain(*x))),
        Got::Seq(v) => Got::Seq(v.into_iter().map(plain).collect()),
        Got::Map(v) => Got::Map(v.into_iter().map(|(a, b)| (plain(a), plain(b))).collect()),
        Got::Enum(a, b) => Got::Enum(Box::new(plain(*a)), Box::new(plain(*b))),
        x => x,
    }
}
/// The value itself, as a type that asks for anything inside sees it.
fn any_got(n: &Node) -> Got {
    plain(answer(&Src::Fmt(present(n)), &Req::new(Hint::Any), false).unwrap())
}

/// How a type asks for the value it wrote, and what it should be given.
fn ask(n: &Node) -> (Req, Got) {
    use Hint::*;
    let any = |v: &Vec<Node>| Got::Seq(v.iter().map(any_got).collect());
    let key = |k: &str| Box::new(Got::Str(Own::Owned, k.to_owned()));
    let fl = |v: &Vec<(S, std::option::Option<Node>)>| {
        Got::Map(v.iter().filter_map(|(k, x)| Some((Got::Str(Own::Owned, k.to_string()), any_got(x.as_ref()?)))).collect())
    };
    let names = |v: &Vec<(S, std::option::Option<Node>)>| -> &'static [S] { Box::leak(v.iter().map(|x| x.0).collect::<Vec<_>>().into_boxed_slice()) };
    let en = |v: VReq| Req::new(Enum("En", &["Uv"])).key(Req::new(Ident)).variant(v);
    let simple = |h: Hint| (Req::new(h), any_got(n));
    match n {
        Node::Bool(_) => simple(Bool),
        Node::I8(_) => simple(I8),
        Node::I16(_) => simple(I16),
        Node::I32(_) => simple(I32),
        Node::I64(_) => simple(I64),
        Node::I128(_) => simple(I128),
        Node::U8(_) => simple(U8),
        Node::U16(_) => simple(U16),
        Node::U32(_) => simple(U32),
        Node::U64(_) => simple(U64),
        Node::U128(_) => simple(U128),
        Node::F32(_) => simple(F32),
        Node::F64(_) => simple(F64),
        Node::Char(_) => simple(Char),
        Node::Str(_) | Node::CollectStr(_) => simple(String),
        Node::Bytes(_) => simple(ByteBuf),
        Node::Unit => simple(Unit),
        Node::UnitStruct(x) => simple(UnitStruct(x)),
        Node::None => simple(Option),
        Node::Some(x) => {
            let (q, g) = ask(x);
            (Req::new(Option).val(q), Got::Some(Box::new(g)))
        }
        Node::Newtype(k, x) => {
            let (q, g) = ask(x);
            (Req::new(Newtype(k)).val(q), Got::Newtype(Box::new(g)))
        }
        Node::UnitVariant(_, _, k) => (en(VReq::Unit), Got::Enum(key(k), Box::new(Got::UnitVariant))),
        Node::NewtypeVariant(_, _, k, x) => {
            let (q, g) = ask(x);
            (en(VReq::Newtype).val(q), Got::Enum(key(k), Box::new(g)))
        }
        Node::TupleVariant(_, _, k, _, v) => (en(VReq::Tuple(v.len())), Got::Enum(key(k), Box::new(any(v)))),
        Node::StructVariant(_, _, k, _, v) => (en(VReq::Struct(names(v))), Got::Enum(key(k), Box::new(fl(v)))),
        Node::Seq(..) => simple(Seq),
        Node::Tuple(_, v) => simple(Tuple(v.len())),
        Node::TupleStruct(k, _, v) => simple(TupleStruct(k, v.len())),
        Node::Map(..) => simple(Map),
        Node::Struct(k, _, v) => simple(Struct(k, names(v))),
        Node::Fail => simple(Any),
    }
}

fn entry_keys(n: &Node) -> Vec<String> {
    match n {
        Node::Newtype(_, x) => entry_keys(x),
        Node::UnitVariant(_, _, k) | Node::NewtypeVariant(_, _, k, _) | Node::TupleVariant(_, _, k, ..) | Node::StructVariant(_, _, k, ..) => vec![k.to_string()],
        Node::Map(_, v, _) => v.iter().map(|(k, _)| if let Node::Str(k) = k { k.clone() } else { "\0".into() }).collect(),
        Node::Struct(_, _, v) => v.iter().filter(|x| x.1.is_some()).map(|x| x.0.to_string()).collect(),
        Node::None | Node::Unit | Node::UnitStruct(_) => vec![],
        _ => vec!["value".into()],
    }
}

fn c18(r: &mut Run) {
    // the known finding: a binary format is given the form for text, whose reader,
    // asking the format itself, expects the other
    let sty = styles(|k| matches!(k, Kind::Internal { .. }))[0];
    BINARY.set(true);
    let ctl = Ctl::new(usize::MAX);
    let v = Node::TupleStruct("T", 1, vec![Node::CollectStr("x".into())]);
    let plain_form = serde::Serialize::serialize(&v, R(&ctl));
    let w = write(sty, 1, 0, &v, usize::MAX).out;
    BINARY.set(false);
    let bin = Node::TupleStruct("T", 1, vec![Node::Bytes(b"x".to_vec())]);
    if let (Ok(p), Ok(Node::Map(_, es, _))) = (plain_form, w) {
        if p == bin && es.len() == 2 && es[1].1 == Node::TupleStruct("T", 1, vec![st("x")]) {
            r.known.insert("KF2".into());
        }
    }
    let vals = values(r, false);
    for (i, n) in vals.iter().enumerate() {
        let (q, g) = ask(n);
        for sty in STYLES {
            let main = matches!(sty.trait_name, "Ext" | "Int" | "Adj");
            if !main && i % 9 != 0 {
                continue;
            }
            let which = which_for(sty, n, i);
            let keys = entry_keys(n);
            if let Kind::Internal { .. } = sty.kind {
                // keys that are not strings are outside the internally tagged form
                if keys.iter().any(|k| k == "\0") {
                    continue;
                }
            }
            let tag = tag_of(&sty.kind);
            let ambiguous = matches!(sty.kind, Kind::Internal { .. }) && keys.iter().any(|k| k == tag);
            if ambiguous && has_own_tag(n, tag) {
                continue;
            }
            r.case(&|| format!("dyn {} ({:?}), implementation {:?}, written and read back: {n:?}", sty.trait_name, sty.kind, sty.writable[which]), &|| {
                let w = write(sty, which, 0, n, usize::MAX).out.map_err(|e| format!("not written: {e:?}"))?;
                let In::Map(es) = present(&w) else { return Err(format!("wrote {w:?}")) };
                let mut forms = vec![es.clone()];
                if !matches!(sty.kind, Kind::External) && !ambiguous {
                    for at in 1..es.len() {
                        let mut e = es.clone();
                        let t = e.remove(0);
                        e.insert(at, t);
                        forms.push(e);
                    }
                }
                for e in forms {
                    let m = In::Map(e);
                    for strict in [true, false] {
                        match read(sty, 0, &m, &q, strict, usize::MAX).0 {
                            Ok((who, x)) if who == sty.writable[which] && plain(x.clone()) == g => {}
                            x => return Err(format!("{m:?} with {q:?}\n    read {x:?}\n    expected {:?} {g:?}", sty.writable[which])),
                        }
                    }
                }
                Ok(())
            });
        }
    }
}

// ----------------------------------------------------------------- whatever the input is

/// Largest single allocation.
struct Biggest;
static BIGGEST: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
unsafe impl std::alloc::GlobalAlloc for Biggest {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        BIGGEST.fetch_max(l.size(), std::sync::atomic::Ordering::Relaxed);
        grown(l.size());
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        LIVE.fetch_sub(l.size(), std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        BIGGEST.fetch_max(n, std::sync::atomic::Ordering::Relaxed);
        LIVE.fetch_sub(l.size(), std::sync::atomic::Ordering::Relaxed);
        grown(n);
        std::alloc::System.realloc(p, l, n)
    }
}
/// Something that grows without end ends the process, not the sandbox.
static LIVE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
fn grown(n: usize) {
    if LIVE.fetch_add(n, std::sync::atomic::Ordering::Relaxed) > 4 << 30 {
        std::process::abort();
    }
}
#[global_allocator]
static ALLOC: Biggest = Biggest;
/// More than any input here takes, less than what the format announces.
const LIMIT: usize = 96 << 20;

/// Reading returns, whatever comes of it.
fn survives(r: &mut Run, sty: &'static Style, n: &In, req: &Req, strict: bool, fail_at: usize) {
    let told = hints(r.evaluations);
    let view = r.evaluations % sty.read_views;
    r.case(
        &|| format!("dyn {} ({:?}) view {view}, reading {n:?} with {req:?}, strict format {strict} announcing {told}, failing at call {fail_at}", sty.trait_name, sty.kind),
        &|| {
            BIGGEST.store(0, std::sync::atomic::Ordering::Relaxed);
            let _ = read(sty, view, n, req, strict, fail_at);
            let b = BIGGEST.load(std::sync::atomic::Ordering::Relaxed);
            if b > LIMIT {
                return Err(format!("{b} bytes at once"));
            }
            Ok(())
        },
    );
}

fn c19(r: &mut Run) {
    let all = reqs();
    let mut odd = tagged_values(r);
    odd.extend(in_leaves());
    for sty in STYLES {
        for t in tag_inputs() {
            for n in with_tag(sty, &t) {
                let q = r.rng.pick(&all).clone();
                survives(r, sty, &n, &q, r.evaluations % 2 == 0, usize::MAX);
            }
        }
        for v in &odd {
            for n in [v.clone(), In::Seq(vec![v.clone()]), In::Seq(vec![s("A"), v.clone(), v.clone()]), In::Map(vec![(v.clone(), v.clone())])] {
                let q = if r.rng.flip() { fit(&mut r.rng, v) } else { r.rng.pick(&all).clone() };
                survives(r, sty, &n, &q, r.evaluations % 2 == 0, usize::MAX);
            }
        }
    }
    // objects put together at random
    for _ in 0..if r.thorough { 600000 } else { 40000 } {
        let sty = *r.rng.pick(STYLES);
        let (tag, content) = match sty.kind {
            Kind::Adjacent { tag, content, .. } => (tag, content),
            Kind::Internal { tag, .. } => (tag, "value"),
            Kind::External => ("A", "Zeta"),
        };
        let n = r.rng.below(5);
        let mut m = vec![];
        for _ in 0..n {
            let k = match r.rng.below(10) {
                0..=3 => s(tag),
                4..=5 => s(content),
                6 => s("value"),
                7 => in_random(&mut r.rng, 1),
                _ => s(*r.rng.pick(&["A", "f0", "f1", "Uv", "Nv", "k", ""])),
            };
            let v = match r.rng.below(4) {
                0 => s(*r.rng.pick(&["A", "Zeta", "x", "Dup", "Nope", "Uv"])),
                _ => in_random(&mut r.rng, 3),
            };
            m.push((k, v));
        }
        let o = if r.rng.below(8) == 0 { In::Seq(m.into_iter().map(|x| x.1).collect()) } else { In::Map(m) };
        let q = match (r.rng.below(3), &o) {
            (0, In::Map(m)) if !m.is_empty() => fit(&mut r.rng, &m[m.len() - 1].1),
            (1, _) => fit(&mut r.rng, &o),
            _ => r.rng.pick(&all).clone(),
        };
        let fail_at = if r.rng.below(4) == 0 { r.rng.below(12) } else { usize::MAX };
        let strict = r.rng.flip();
        survives(r, sty, &o, &q, strict, fail_at);
    }
    // writing
    let mut vals = small();
    vals.extend(failing());
    vals.extend(large());
    for _ in 0..if r.thorough { 20000 } else { 1500 } {
        vals.push(random(&mut r.rng, 4, true));
    }
    for (i, n) in vals.iter().enumerate() {
        let sty = STYLES[i % STYLES.len()];
        let which = which_for(sty, n, i);
        let fail_at = if r.rng.below(4) == 0 { r.rng.below(12) } else { usize::MAX };
        r.case(
            &|| format!("dyn {} ({:?}), writing {n:?}, failing at call {fail_at}", sty.trait_name, sty.kind),
            &|| {
                let _ = write(sty, which, i % 4, n, fail_at);
                Ok(())
            },
        );
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn main() {
    // values nested deep, in a build that is not optimised
    std::thread::Builder::new().stack_size(1 << 30).spawn(run).unwrap().join().unwrap();
}

fn run() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a.get(3).and_then(|x| x.parse().ok()).unwrap_or(1);
    std::panic::set_hook(Box::new(|_| {}));
    let mut r = Run {
        prop: a[1].clone(),
        thorough: a.get(2).map(|x| x == "thorough").unwrap_or(false),
        rng: Rng(0x9E3779B97F4A7C15 ^ (seed.wrapping_mul(0x2545F4914F6CDD1D) | 1)),
        evaluations: 0,
        distinct: BTreeSet::new(),
        samples: vec![],
        violations: vec![],
        known: BTreeSet::new(),
        trace: std::env::var("VERIF_TRACE").ok(),
    };
    watchdog(r.prop.clone());
    match r.prop.as_str() {
        "C01" => c01(&mut r),
        "C02" => c02(&mut r),
        "C03" => c03(&mut r),
        "C04" => c04(&mut r),
        "C05" => c05(&mut r),
        "C06" => c06(&mut r),
        "C07" => c07(&mut r),
        "C08" => c08(&mut r),
        "C09" => c09(&mut r),
        "C10" => c10(&mut r),
        "C11" => c11(&mut r),
        "C12" => c12(&mut r),
        "C13" => c13(&mut r),
        "C14" => c14(&mut r),
        "C15" => c15(&mut r),
        "C16" => c16(&mut r),
        "C17" => c17(&mut r),
        "C18" => c18(&mut r),
        "C19" => c19(&mut r),
        p => panic!("no property {p}"),
    }
    let list = |v: &mut dyn Iterator<Item = &String>| v.map(|x| js(x)).collect::<Vec<_>>().join(",");
    println!(
        "{{\"property\":{},\"evaluations\":{},\"distinct\":{},\"samples\":[{}],\"known\":[{}],\"violations\":[{}]}}",
        js(&r.prop),
        r.evaluations,
        r.distinct.len(),
        list(&mut r.samples.iter()),
        list(&mut r.known.iter()),
        list(&mut r.violations.iter())
    );
}
