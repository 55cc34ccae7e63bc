//! Values and requests: exhaustive small ones, random larger ones.

use crate::input::*;
use crate::node::*;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 33) as usize) % n
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn flip(&mut self) -> bool {
        self.below(2) == 0
    }
}

pub fn b(n: Node) -> Box<Node> {
    Box::new(n)
}
pub fn st(x: &str) -> Node {
    Node::Str(x.to_owned())
}

pub fn leaves() -> Vec<Node> {
    let mut v = vec![
        Node::Bool(true),
        Node::Bool(false),
        Node::I8(-8),
        Node::I8(i8::MIN),
        Node::I16(-300),
        Node::I32(-70000),
        Node::I64(i64::MIN),
        Node::I128(i128::MIN),
        Node::I128(-5),
        Node::U8(255),
        Node::U16(65535),
        Node::U32(u32::MAX),
        Node::U64(u64::MAX),
        Node::U128(u128::MAX),
        Node::U128(7),
        Node::F32(1.5f32.to_bits()),
        Node::F32(0x7fc0_0001),
        Node::F64(2.5f64.to_bits()),
        Node::F64((-0.0f64).to_bits()),
        Node::F64(f64::NAN.to_bits()),
        Node::Char('c'),
        Node::Char('\u{10ffff}'),
        st(""),
        st("text"),
        st("A"),
        st("value"),
        Node::CollectStr("shown".into()),
        Node::Bytes(vec![]),
        Node::Bytes(vec![0, 255, 65]),
        Node::None,
        Node::Unit,
        Node::UnitStruct("Us"),
        Node::UnitVariant("En", 3, "Uv"),
        Node::UnitVariant("En", 0, "type"),
    ];
    v.push(Node::Some(b(Node::None)));
    v
}

/// Every compound around the given parts.
pub fn around(parts: &[Node], x: &Node, out: &mut Vec<Node>) {
    out.push(Node::Some(b(x.clone())));
    out.push(Node::Newtype("Nt", b(x.clone())));
    out.push(Node::NewtypeVariant("En", 5, "Nv", b(x.clone())));
    compounds(parts, out);
}

pub fn compounds(v: &[Node], out: &mut Vec<Node>) {
    let n = v.len();
    out.push(Node::Seq(Some(n), v.to_vec()));
    out.push(Node::Seq(None, v.to_vec()));
    out.push(Node::Tuple(n, v.to_vec()));
    out.push(Node::TupleStruct("Ts", n, v.to_vec()));
    out.push(Node::TupleVariant("En", 7, "Tv", n, v.to_vec()));
    let keys = ["k0", "type", "value", "z"];
    let m: Vec<(Node, Node)> = v.iter().enumerate().map(|(i, x)| (st(if i == 1 { "value" } else { ["k0", "k1", "k2", "k3"][i % 4] }), x.clone())).collect();
    out.push(Node::Map(Some(n), m.clone(), false));
    out.push(Node::Map(None, m.clone(), true));
    let m2: Vec<(Node, Node)> = v.iter().enumerate().map(|(i, x)| (Node::U8(i as u8), x.clone())).collect();
    out.push(Node::Map(Some(n), m2, true));
    let f: Vec<(S, Option<Node>)> = v.iter().enumerate().map(|(i, x)| (["f0", "f1", "f2", "value"][i % 4], Some(x.clone()))).collect();
    out.push(Node::Struct("St", n, f.clone()));
    out.push(Node::StructVariant("En", 9, "Sv", n, f.clone()));
    if n > 0 {
        let mut g = f.clone();
        g[0].1 = None;
        out.push(Node::Struct("St", n - 1, g.clone()));
        out.push(Node::StructVariant("En", 9, "Sv", n - 1, g));
    }
    let _ = keys;
}

/// Small values, all of them: leaves, and compounds of up to three leaves.
pub fn small() -> Vec<Node> {
    let l = leaves();
    let mut out = l.clone();
    compounds(&[], &mut out);
    for (i, x) in l.iter().enumerate() {
        around(&[x.clone()], x, &mut out);
        around(&[x.clone(), l[(i * 7 + 3) % l.len()].clone()], x, &mut out);
    }
    compounds(&[l[0].clone(), l[10].clone(), l[24].clone()], &mut out);
    compounds(&[l[23].clone(), l[30].clone(), l[29].clone(), l[21].clone()], &mut out);
    // one level more
    let mut deep = vec![];
    let mut inner = vec![];
    compounds(&[Node::U8(1), st("s")], &mut inner);
    compounds(&[], &mut inner);
    inner.push(Node::Some(b(Node::Unit)));
    inner.push(Node::Newtype("In", b(Node::None)));
    inner.push(Node::NewtypeVariant("En", 2, "In", b(st("y"))));
    for x in &inner {
        around(&[x.clone(), Node::Bool(true)], x, &mut deep);
    }
    out.extend(deep.iter().cloned());
    for x in deep.iter().step_by(17) {
        around(&[Node::Unit, x.clone()], x, &mut out);
    }
    out
}

/// The same value with every name in it (of structs, enums, variants, fields) changed.
pub fn renamed(n: &Node, to: S) -> Node {
    let bx = |x: &Node| b(renamed(x, to));
    let all = |v: &Vec<Node>| v.iter().map(|x| renamed(x, to)).collect::<Vec<_>>();
    // the second field keeps its name, so that fields stay distinct
    let fl = |v: &Vec<(S, Option<Node>)>| v.iter().enumerate().map(|(i, (k, x))| (if i == 0 { to } else { *k }, x.as_ref().map(|x| renamed(x, to)))).collect::<Vec<_>>();
    match n {
        Node::UnitStruct(_) => Node::UnitStruct(to),
        Node::UnitVariant(_, i, _) => Node::UnitVariant(to, *i, to),
        Node::Some(x) => Node::Some(bx(x)),
        Node::Newtype(_, x) => Node::Newtype(to, bx(x)),
        Node::NewtypeVariant(_, i, _, x) => Node::NewtypeVariant(to, *i, to, bx(x)),
        Node::Seq(l, v) => Node::Seq(*l, all(v)),
        Node::Tuple(l, v) => Node::Tuple(*l, all(v)),
        Node::TupleStruct(_, l, v) => Node::TupleStruct(to, *l, all(v)),
        Node::TupleVariant(_, i, _, l, v) => Node::TupleVariant(to, *i, to, *l, all(v)),
        Node::Map(l, v, f) => Node::Map(*l, v.iter().map(|(a, x)| (a.clone(), renamed(x, to))).collect(), *f),
        Node::Struct(_, l, v) => Node::Struct(to, *l, fl(v)),
        Node::StructVariant(_, i, _, l, v) => Node::StructVariant(to, *i, to, *l, fl(v)),
        x => x.clone(),
    }
}
/// Whether `name` is a name in it.
pub fn mentions(n: &Node, name: S) -> bool {
    let all = |v: &Vec<Node>| v.iter().any(|x| mentions(x, name));
    let fl = |v: &Vec<(S, Option<Node>)>| v.iter().any(|x| x.0 == name);
    match n {
        Node::UnitStruct(k) => *k == name,
        Node::UnitVariant(e, _, k) => *k == name || *e == name,
        Node::Some(x) => mentions(x, name),
        Node::Newtype(k, x) => *k == name || mentions(x, name),
        Node::NewtypeVariant(_, _, k, _) => *k == name,
        Node::Seq(_, v) | Node::Tuple(_, v) => all(v),
        Node::TupleStruct(k, _, v) => *k == name || all(v),
        Node::TupleVariant(_, _, k, _, _) => *k == name,
        Node::Struct(k, _, v) => *k == name || fl(v),
        Node::StructVariant(_, _, k, _, v) => *k == name || fl(v),
        _ => false,
    }
}

/// Strings that some rule could take for `x`, none of them `x`.
pub fn like(x: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for w in [
        " ", "\t", "\n", "\r", "\0", "\u{feff}", "\u{a0}", "\u{200b}", "\u{301}", "\"", "'", "`", "_", "-", "@", "$", "#", "!", "?", "*", "/", ".", ":", "::", "crate::", "r#", "0", "1", "s", "x", "X", "xml:", "\\", "%20", "<>", "()",
        "{", "}", "[]", ",", ";", "=", "+", "~", "|", "&", "^", "b", "dyn ", "Box<", ">",
    ] {
        out.push(format!("{w}{x}"));
        out.push(format!("{x}{w}"));
        out.push(format!("{w}{x}{w}"));
    }
    for (a, z) in [("<", ">"), ("(", ")"), ("[", "]"), ("{", "}"), ("\u{201c}", "\u{201d}"), ("m::", "<T>"), ("a.", ".z"), ("a/", "/z"), ("Box<", ">"), ("dyn ", " + Send")] {
        out.push(format!("{a}{x}{z}"));
        out.push(format!("{a}{x}"));
        out.push(format!("{x}{z}"));
    }
    for (a, z) in [("_", "-"), ("-", "_"), (" ", "_"), (" ", ""), ("_", ""), ("-", ""), ("a", "\u{430}"), ("A", "\u{391}"), ("K", "\u{212a}"), ("k", "\u{212a}"), ("s", "\u{17f}"), ("i", "\u{131}"), ("\u{e9}", "e\u{301}"), ("\u{e9}", "e"), ("\u{c9}", "\u{e9}"), ("::", "."), ("#", ""), ("r#", ""), ("e", "\u{e9}")] {
        out.push(x.replace(a, z));
        out.push(x.replacen(a, z, 1));
    }
    out.push(x.to_uppercase());
    out.push(x.to_lowercase());
    out.push(x.to_ascii_uppercase());
    out.push(x.to_ascii_lowercase());
    out.push(x.chars().rev().collect());
    out.push(x.chars().map(|c| if c.is_uppercase() { c.to_lowercase().next().unwrap() } else { c.to_uppercase().next().unwrap() }).collect());
    out.push(x.repeat(2));
    out.push(x.chars().skip(1).collect());
    out.push(x.chars().take(x.chars().count().saturating_sub(1)).collect());
    out.push(x.chars().take(1).collect());
    out.push(x.chars().map(|c| char::from_u32(c as u32 + 1).unwrap_or(c)).collect());
    out.push(x.chars().map(|c| char::from_u32(if (33..127).contains(&(c as u32)) { c as u32 + 0xfee0 } else { c as u32 }).unwrap()).collect());
    for n in [8, 16, 23, 24, 32, 64, 128, 256, 1024] {
        out.push(format!("{x}{}", " ".repeat(n)));
        out.push(format!("{x}{}", "\0".repeat(n)));
        out.push(x.chars().take(n).collect());
    }
    out.sort();
    out.dedup();
    out.retain(|y| y != x);
    out
}

/// Names that some formats give a meaning.
pub const MARKS: &[S] = &[
    "$serde_json::private::Number", "$serde_json::private::RawValue", "$__toml_private_datetime", "$__toml_private_Datetime", "$__serde_spanned_private_Spanned", "Option", "Some", "None", "Result", "Ok", "Err", "Range", "Duration", "SystemTime",
    "Bound", "_", "$text", "$value", "@attr", "xml:lang", "__typetag", "String", "str", "Vec", "Box", "r#type", "0", "\0", "\u{e9}", "A long name that is longer than any buffer of a fixed size would be, 0123456789 0123456789 0123456789",
];

pub const SIZES: &[usize] = &[5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300];

/// Sizes of which few values are tried.
pub const BIG: &[usize] = &[511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000, 9000, 16385, 32769, 65535, 65536, 65537, 70000];

/// Very long values.
pub fn big() -> Vec<Node> {
    let mut out = vec![];
    for (j, &n) in BIG.iter().enumerate() {
        let v: Vec<Node> = (0..n).map(|i| Node::U32(i as u32)).collect();
        let some = |k: usize| n <= 4097 || (j + k) % 4 == 0;
        if some(0) {
            out.push(Node::Seq(if j % 2 == 0 { Some(n) } else { None }, v.clone()));
        }
        if some(1) {
            out.push(Node::Tuple(n, v.clone()));
        }
        if some(2) {
            let m: Vec<(Node, Node)> = v.iter().map(|x| (x.clone(), Node::Unit)).collect();
            out.push(Node::Map(if j % 2 == 0 { Some(n) } else { None }, m, j % 3 == 0));
        }
        out.push(st(&"x".repeat(n)));
        out.push(Node::Bytes((0..n).map(|x| x as u8).collect()));
    }
    out
}

/// Long, deep and big values.
pub fn large() -> Vec<Node> {
    let mut out = big();
    out.extend(edges());
    for (i, x) in edges().into_iter().enumerate() {
        out.push(match i % 6 {
            0 => Node::Some(b(x)),
            1 => Node::Newtype("Nt", b(x)),
            2 => Node::Seq(Some(1), vec![x]),
            3 => Node::Map(Some(1), vec![(st("k"), x)], i % 4 == 0),
            4 => Node::Map(Some(1), vec![(x, Node::Unit)], i % 4 == 1),
            _ => Node::StructVariant("En", 1, "Sv", 1, vec![("f0", Some(x))]),
        });
    }
    for (i, n) in small().iter().enumerate() {
        let to = MARKS[i % MARKS.len()];
        let m = renamed(n, to);
        if m != *n {
            out.push(m);
        }
    }
    for (j, &n) in SIZES.iter().enumerate() {
        let v: Vec<Node> = (0..n).map(|i| if i % 5 == 4 { st("e") } else { Node::U16(i as u16) }).collect();
        out.push(Node::Seq(if j % 2 == 0 { Some(n) } else { None }, v.clone()));
        out.push(Node::Tuple(n, v.clone()));
        out.push(Node::TupleStruct("Ts", n, v.clone()));
        out.push(Node::TupleVariant("En", 7, "Tv", n, v.clone()));
        let m: Vec<(Node, Node)> = v.iter().enumerate().map(|(i, x)| (st(&format!("k{i}")), x.clone())).collect();
        out.push(Node::Map(if j % 2 == 0 { Some(n) } else { None }, m, j % 3 == 0));
        let f: Vec<(S, Option<Node>)> = v.iter().enumerate().map(|(i, x)| (leak(&format!("f{i}")), Some(x.clone()))).collect();
        out.push(Node::Struct("St", n, f.clone()));
        out.push(Node::StructVariant("En", 9, "Sv", n, f));
        out.push(st(&"long ".repeat(n)));
        out.push(Node::Bytes((0..n).map(|x| x as u8).collect()));
        out.push(Node::UnitVariant("En", n as u32 * 100_003, leak(&"V".repeat(n))));
    }
    for depth in [6, 10, 20, 40, 70, 127, 128, 129, 200, 260] {
        for k in 0..6 {
            let mut x = Node::U8(k);
            for _ in 0..depth {
                x = match k {
                    0 => Node::Some(b(x)),
                    1 => Node::Newtype("Nt", b(x)),
                    2 => Node::Seq(Some(1), vec![x]),
                    3 => Node::Map(Some(1), vec![(st("k"), x)], false),
                    4 => Node::NewtypeVariant("En", 1, "Nv", b(x)),
                    _ => Node::Struct("St", 1, vec![("f0", Some(x))]),
                };
            }
            out.push(x);
        }
    }
    out
}

fn string(r: &mut Rng) -> String {
    let abc = ["a", "A", "type", "value", "z", " ", "\u{e9}", "\0", "::", "\u{10ffff}", "0", "-1", "null", "true", "Zeta", ""];
    (0..r.below(4)).map(|_| *r.pick(&abc)).collect()
}
fn num(r: &mut Rng) -> u128 {
    let x = ((r.next() as u128) << 64) | r.next() as u128;
    match r.below(3) {
        0 => x >> r.below(128),
        1 => (1u128 << r.below(128)).wrapping_sub(r.below(3) as u128),
        _ => (r.below(5) as u128).wrapping_sub(2),
    }
}
fn leaf(r: &mut Rng) -> Node {
    let n = num(r);
    match r.below(15) {
        0 => Node::I8(n as i8),
        1 => Node::I16(n as i16),
        2 => Node::I32(n as i32),
        3 => Node::I64(n as i64),
        4 => Node::I128(n as i128),
        5 => Node::U8(n as u8),
        6 => Node::U16(n as u16),
        7 => Node::U32(n as u32),
        8 => Node::U64(n as u64),
        9 => Node::U128(n),
        10 => Node::F32(n as u32),
        11 => Node::F64(n as u64),
        12 => Node::Char(char::from_u32(n as u32 % 0x11_0000).unwrap_or('\0')),
        13 => Node::Bytes((0..n % 6).map(|i| (n >> (8 * i)) as u8).collect()),
        _ => Node::Str(string(r)),
    }
}

pub fn random(r: &mut Rng, depth: usize, fail: bool) -> Node {
    if depth == 0 || r.below(4) == 0 {
        return if fail && r.below(6) == 0 {
            Node::Fail
        } else if r.flip() {
            leaf(r)
        } else {
            r.pick(&leaves()).clone()
        };
    }
    let n = r.below(4);
    let kids: Vec<Node> = (0..n).map(|_| random(r, depth - 1, fail)).collect();
    let first = kids.first().cloned().unwrap_or(Node::Unit);
    let mut out = vec![];
    around(&kids, &first, &mut out);
    r.pick(&out).clone()
}

/// Where a failing part can sit.
pub fn failing() -> Vec<Node> {
    let mut out = vec![Node::Fail];
    around(&[Node::Fail], &Node::Fail, &mut out);
    around(&[Node::U8(1), Node::Fail], &Node::Fail, &mut out);
    around(&[Node::Fail, Node::U8(1)], &Node::Fail, &mut out);
    out.push(Node::Map(Some(1), vec![(Node::Fail, Node::U8(1))], false));
    out.push(Node::Map(Some(1), vec![(Node::Fail, Node::U8(1))], true));
    let mut deep = vec![];
    for x in &out {
        around(&[x.clone()], x, &mut deep);
        around(&[Node::Unit, x.clone(), Node::Unit], x, &mut deep);
    }
    out.extend(deep);
    out.retain(|x| x.has_fail());
    out
}

// ----------------------------------------------------------------- input

pub fn bi(n: In) -> Box<In> {
    Box::new(n)
}

pub fn in_leaves() -> Vec<In> {
    let mut v = vec![
        In::Bool(true),
        In::I8(-8),
        In::I16(-300),
        In::I32(-70000),
        In::I64(i64::MIN),
        In::I128(i128::MIN),
        In::U8(200),
        In::U8(0),
        In::U16(65535),
        In::U32(u32::MAX),
        In::U64(u64::MAX),
        In::U128(u128::MAX),
        In::F32(1.5f32.to_bits()),
        In::F64(f64::NAN.to_bits()),
        In::F64(2.5f64.to_bits()),
        In::Char('\u{e9}'),
        In::None,
        In::Unit,
    ];
    for o in [Own::Borrowed, Own::Transient, Own::Owned] {
        v.push(In::Str(o, "Uv".into()));
        v.push(In::Str(o, "".into()));
        v.push(In::Bytes(o, vec![1, 2, 200]));
        v.push(In::Bytes(o, b"ascii".to_vec()));
    }
    // long, and no character boundary at an even index
    for o in [Own::Borrowed, Own::Owned] {
        v.push(In::Str(o, format!("x{}", "\u{e9}".repeat(200))));
    }
    v
}

pub fn in_small() -> Vec<In> {
    let l = in_leaves();
    let mut out = l.clone();
    out.push(In::Seq(vec![]));
    out.push(In::Map(vec![]));
    for x in &l {
        out.push(In::Some(bi(x.clone())));
        out.push(In::Newtype(bi(x.clone())));
        out.push(In::Seq(vec![x.clone()]));
        out.push(In::Map(vec![(s("Nv"), x.clone())]));
    }
    out.push(In::Seq(vec![In::U8(1), s("two"), In::Unit]));
    out.push(In::Map(vec![(s("a"), In::U8(1)), (s("b"), In::None)]));
    out.push(In::Map(vec![(In::U8(1), In::U8(2)), (In::Char('x'), In::U8(3)), (In::Unit, In::Unit)]));
    for x in [
        In::Seq(vec![In::U8(1), In::U8(2)]),
        In::Map(vec![(s("f0"), In::U8(1)), (s("f1"), In::U8(2))]),
        In::Some(bi(In::Some(bi(In::U8(1))))),
        In::Newtype(bi(In::Newtype(bi(In::U8(1))))),
        In::Seq(vec![]),
        In::Map(vec![]),
    ] {
        out.push(In::Some(bi(x.clone())));
        out.push(In::Newtype(bi(x.clone())));
        out.push(In::Seq(vec![x.clone(), x.clone()]));
        out.push(In::Map(vec![(s("Nv"), x.clone())]));
        out.push(In::Map(vec![(s("Nv"), x.clone()), (x.clone(), s("v"))]));
    }
    out
}

pub fn in_bad() -> Vec<In> {
    let mut out = vec![];
    for x in [In::Bad, In::Enum(bi(s("Uv")), None), In::Enum(bi(s("Nv")), Some(bi(In::U8(1))))] {
        out.push(x.clone());
        out.push(In::Some(bi(x.clone())));
        out.push(In::Newtype(bi(x.clone())));
        out.push(In::Seq(vec![In::U8(1), x.clone()]));
        out.push(In::Map(vec![(s("k"), x.clone())]));
        out.push(In::Map(vec![(x.clone(), s("v"))]));
        out.push(In::Some(bi(In::Seq(vec![In::Map(vec![(s("k"), x.clone())])]))));
    }
    out
}

/// Numbers at the ends of every width.
fn ends() -> Vec<i128> {
    let mut v = vec![0, 1, -1, 9, 10, -10, 48, 65];
    for k in [7, 8, 15, 16, 24, 31, 32, 52, 53, 54, 63, 64, 65, 96, 126] {
        for d in [-2i128, -1, 0, 1, 2] {
            v.push((1 << k) + d);
            v.push(-(1 << k) + d);
        }
    }
    v
}
const FLOATS: &[f64] = &[0.0, -0.0, 1.0, -1.0, 0.1, 1e-320, f64::MIN_POSITIVE, f64::EPSILON, 255.0, 9007199254740993.0, 1e300, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 16777217.0, 3.4e38, 0.1f32 as f64];
const TEXTS: &[S] = &[
    "\0", "a\0b", "null", "true", "false", "0", "-0", "1.0", "1e3", "NaN", " ", "\n", "\u{7f}", "\u{80}", "\u{e9}", "e\u{301}", "\u{ffff}", "\u{1f600}", "\u{1f600}\u{200d}\u{1f600}", "\u{feff}x", "a\"b", "a\\b", "{}", "[]", "c", "\u{10ffff}",
];

/// Values at the edges of their kinds.
fn edges() -> Vec<Node> {
    let mut v = vec![];
    for x in ends() {
        if let Ok(y) = x.try_into() { v.push(Node::I8(y)) }
        if let Ok(y) = x.try_into() { v.push(Node::U8(y)) }
        if let Ok(y) = x.try_into() { v.push(Node::I16(y)) }
        if let Ok(y) = x.try_into() { v.push(Node::U16(y)) }
        if let Ok(y) = x.try_into() { v.push(Node::I32(y)) }
        if let Ok(y) = x.try_into() { v.push(Node::U32(y)) }
        if let Ok(y) = x.try_into() { v.push(Node::I64(y)) }
        if let Ok(y) = x.try_into() { v.push(Node::U64(y)) }
        v.push(Node::I128(x));
        v.push(Node::U128(x as u128));
    }
    for f in FLOATS {
        v.push(Node::F64(f.to_bits()));
        v.push(Node::F32((*f as f32).to_bits()));
    }
    for t in TEXTS {
        v.push(st(t));
        v.push(Node::CollectStr(t.to_string()));
        v.push(Node::Bytes(t.as_bytes().to_vec()));
        let mut c = t.chars();
        if let (Some(c), None) = (c.next(), c.next()) {
            v.push(Node::Char(c));
        }
    }
    for x in [Node::U8(7), st("same"), Node::Unit, Node::None] {
        v.push(Node::Seq(Some(3), vec![x.clone(), x.clone(), x.clone()]));
        v.push(Node::Map(Some(3), vec![(x.clone(), Node::U8(1)), (x.clone(), Node::U8(2)), (x.clone(), Node::U8(1))], true));
        v.push(Node::Map(None, vec![(x.clone(), Node::U8(1)), (st("other"), Node::U8(2)), (x.clone(), Node::U8(3))], false));
    }
    for n in [40usize, 600, 5000] {
        v.push(Node::Seq(Some(n), (0..n).map(|i| Node::U8(i as u8)).collect()));
        v.push(Node::Tuple(n, (0..n).map(|i| Node::U8(i as u8)).collect()));
        v.push(Node::Seq(None, (0..n).map(|i| Node::F64((i as f64).to_bits())).collect()));
        v.push(Node::Seq(Some(n), (0..n).map(|_| Node::Char('c')).collect()));
        v.push(Node::Seq(Some(n), (0..n).map(|i| st(&i.to_string())).collect()));
        v.push(Node::Seq(Some(n), (0..n).map(|_| Node::None).collect()));
        v.push(Node::Seq(Some(n), (0..n).map(|i| Node::Tuple(2, vec![st("k"), Node::U8(i as u8)])).collect()));
        v.push(Node::Map(Some(n), (0..n).map(|i| (Node::Unit, Node::Bool(i % 2 == 0))).collect(), true));
    }
    v.push(Node::Seq(Some(4), "text".chars().map(Node::Char).collect()));
    v.push(Node::Seq(Some(2), vec![Node::Tuple(2, vec![st("a"), Node::U8(1)]), Node::Tuple(2, vec![st("b"), Node::U8(2)])]));
    v
}

fn in_edges() -> Vec<In> {
    let mut v = vec![];
    for x in ends() {
        if let Ok(y) = x.try_into() { v.push(In::I8(y)) }
        if let Ok(y) = x.try_into() { v.push(In::U8(y)) }
        if let Ok(y) = x.try_into() { v.push(In::I16(y)) }
        if let Ok(y) = x.try_into() { v.push(In::U16(y)) }
        if let Ok(y) = x.try_into() { v.push(In::I32(y)) }
        if let Ok(y) = x.try_into() { v.push(In::U32(y)) }
        if let Ok(y) = x.try_into() { v.push(In::I64(y)) }
        if let Ok(y) = x.try_into() { v.push(In::U64(y)) }
        v.push(In::I128(x));
        v.push(In::U128(x as u128));
    }
    for f in FLOATS {
        v.push(In::F64(f.to_bits()));
        v.push(In::F32((*f as f32).to_bits()));
    }
    let own = [Own::Borrowed, Own::Transient, Own::Owned];
    for (i, t) in TEXTS.iter().enumerate() {
        v.push(In::Str(own[i % 3], t.to_string()));
        v.push(In::Str(own[(i + 1) % 3], t.to_string()));
        v.push(In::Bytes(own[i % 3], t.as_bytes().to_vec()));
        let mut c = t.chars();
        if let (Some(c), None) = (c.next(), c.next()) {
            v.push(In::Char(c));
        }
    }
    for x in [In::U8(7), s("same"), In::Str(Own::Borrowed, "same".into()), In::Unit, In::None] {
        v.push(In::Seq(vec![x.clone(), x.clone(), x.clone()]));
        v.push(In::Map(vec![(x.clone(), In::U8(1)), (x.clone(), In::U8(2)), (x.clone(), In::U8(1))]));
        v.push(In::Map(vec![(x.clone(), In::U8(1)), (s("other"), In::U8(2)), (x.clone(), In::U8(3))]));
    }
    for n in [40usize, 600, 5000] {
        v.push(In::Seq((0..n).map(|i| In::U8(i as u8)).collect()));
        v.push(In::Seq((0..n).map(|i| In::F64((i as f64).to_bits())).collect()));
        v.push(In::Seq((0..n).map(|_| In::Char('c')).collect()));
        v.push(In::Seq((0..n).map(|i| s(&i.to_string())).collect()));
        v.push(In::Seq((0..n).map(|_| In::None).collect()));
        v.push(In::Seq((0..n).map(|i| In::Seq(vec![s("k"), In::U8(i as u8)])).collect()));
        v.push(In::Map((0..n).map(|i| (In::Unit, In::Bool(i % 2 == 0))).collect()));
    }
    v.push(In::Seq("text".chars().map(In::Char).collect()));
    v.push(In::Seq(vec![In::Seq(vec![s("a"), In::U8(1)]), In::Seq(vec![s("b"), In::U8(2)])]));
    v
}

/// Long, deep and big input values.
pub fn in_large() -> Vec<In> {
    let mut out = in_edges();
    for (i, x) in in_edges().into_iter().enumerate() {
        out.push(match i % 5 {
            0 => In::Some(bi(x)),
            1 => In::Newtype(bi(x)),
            2 => In::Seq(vec![x]),
            3 => In::Map(vec![(s("k"), x)]),
            _ => In::Map(vec![(x, In::Unit)]),
        });
    }
    for (j, &n) in BIG.iter().enumerate() {
        let some = |k: usize| n <= 4097 || (j + k) % 4 == 0;
        if some(0) {
            out.push(In::Seq((0..n).map(|i| In::U32(i as u32)).collect()));
        }
        if some(1) {
            out.push(In::Map((0..n).map(|i| (In::U32(i as u32), In::Unit)).collect()));
        }
        if some(2) {
            out.push(In::Map((0..n).map(|i| (s(&format!("{i:x}")), In::U32(i as u32))).collect()));
        }
        out.push(s(&"x".repeat(n)));
        out.push(In::Str(Own::Owned, "\u{e9}".repeat(n / 2 + 1)));
        out.push(In::Bytes(Own::Borrowed, (0..n).map(|x| x as u8).collect()));
    }
    for &n in SIZES {
        let v: Vec<In> = (0..n).map(|i| if i % 5 == 4 { s("e") } else { In::U16(i as u16) }).collect();
        out.push(In::Seq(v.clone()));
        out.push(In::Map(v.into_iter().enumerate().map(|(i, x)| (s(&format!("k{i}")), x)).collect()));
        out.push(s(&"long ".repeat(n)));
        out.push(In::Str(Own::Borrowed, "b".repeat(n)));
        out.push(In::Bytes(Own::Owned, (0..n).map(|x| x as u8).collect()));
        out.push(In::Bytes(Own::Transient, (0..n).map(|x| x as u8).collect()));
    }
    for depth in [6, 10, 20, 40, 70, 127, 128, 129, 200, 260] {
        for k in 0..5 {
            let mut x = In::U8(k);
            for _ in 0..depth {
                x = match k {
                    0 => In::Some(bi(x)),
                    1 => In::Newtype(bi(x)),
                    2 => In::Seq(vec![x]),
                    3 => In::Map(vec![(s("k"), x)]),
                    _ => In::Map(vec![(s("Nv"), In::Seq(vec![x]))]),
                };
            }
            out.push(x);
        }
    }
    out
}

fn in_leaf(r: &mut Rng) -> In {
    let n = num(r);
    let o = *r.pick(&[Own::Borrowed, Own::Transient, Own::Owned]);
    match r.below(15) {
        0 => In::I8(n as i8),
        1 => In::I16(n as i16),
        2 => In::I32(n as i32),
        3 => In::I64(n as i64),
        4 => In::I128(n as i128),
        5 => In::U8(n as u8),
        6 => In::U16(n as u16),
        7 => In::U32(n as u32),
        8 => In::U64(n as u64),
        9 => In::U128(n),
        10 => In::F32(n as u32),
        11 => In::F64(n as u64),
        12 => In::Char(char::from_u32(n as u32 % 0x11_0000).unwrap_or('\0')),
        13 => In::Bytes(o, (0..n % 6).map(|i| (n >> (8 * i)) as u8).collect()),
        _ => In::Str(o, string(r)),
    }
}

pub fn in_random(r: &mut Rng, depth: usize) -> In {
    if depth == 0 || r.below(4) == 0 {
        return if r.flip() { in_leaf(r) } else { r.pick(&in_leaves()).clone() };
    }
    let n = r.below(4);
    match r.below(4) {
        0 => In::Some(bi(in_random(r, depth - 1))),
        1 => In::Newtype(bi(in_random(r, depth - 1))),
        2 => In::Seq((0..n).map(|_| in_random(r, depth - 1)).collect()),
        _ => In::Map(
            (0..n)
                .map(|i| {
                    let k = if r.below(4) == 0 { in_random(r, depth - 1) } else { s(["a", "b", "c", "d"][i]) };
                    (k, in_random(r, depth - 1))
                })
                .collect(),
        ),
    }
}

pub const F: &[S] = &["f0", "f1"];
pub const VS: &[S] = &["Uv", "Nv"];

pub fn scalar_hints() -> Vec<Hint> {
    use Hint::*;
    vec![
        Any, Bool, I8, I16, I32, I64, I128, U8, U16, U32, U64, U128, F32, F64, Char, Str, String, Bytes, ByteBuf,
        Unit, UnitStruct("Us"), Ident, Ignored,
    ]
}
pub fn compound_hints() -> Vec<Hint> {
    use Hint::*;
    vec![Option, Newtype("Nt"), Seq, Tuple(0), Tuple(2), TupleStruct("Ts", 2), Map, Struct("St", F), Enum("En", VS)]
}

pub fn reqs() -> Vec<Req> {
    let mut out: Vec<Req> = scalar_hints().into_iter().map(Req::new).collect();
    for h in [Hint::Any, Hint::Bytes, Hint::ByteBuf] {
        out.push(Req::new(h.clone()).take(0));
        out.push(Req::new(h).take(1));
    }
    for h in compound_hints() {
        for take in [ALL, 0, 1] {
            for val in [Hint::Any, Hint::U8, Hint::Str, Hint::Option, Hint::Seq, Hint::Map, Hint::Unit, Hint::Ignored, Hint::Newtype("In"), Hint::Struct("In", F), Hint::Enum("In", VS)] {
                let q = Req::new(h.clone()).take(take).val(Req::new(val.clone()));
                if matches!(h, Hint::Enum(..)) {
                    for v in [VReq::Unit, VReq::Newtype, VReq::Tuple(2), VReq::Struct(F)] {
                        out.push(q.clone().variant(v.clone()).key(Req::new(Hint::Ident)));
                        if val == Hint::Any {
                            out.push(q.clone().variant(v));
                        }
                    }
                } else {
                    out.push(q.clone());
                }
            }
        }
        out.push(Req::new(h.clone()).val(Req::new(Hint::Seq).take(1)));
        out.push(Req::new(h.clone()).key(Req::new(Hint::Ident)).val(Req::new(Hint::Any)));
        out.push(Req::new(h).key(Req::new(Hint::Ignored)).val(Req::new(Hint::Ignored)));
    }
    // names that mean something elsewhere
    for to in ["A", "type", "value", "content", "Int", "Adj", ""].into_iter().chain(MARKS.iter().copied()) {
        for h in [Hint::UnitStruct(to), Hint::Newtype(to), Hint::TupleStruct(to, 2), Hint::Struct(to, F), Hint::Enum(to, VS)] {
            out.push(Req::new(h));
        }
    }
    for f in [&["type", "value"] as &[S], &["A", "content"], &[], &["type"], &["value"]] {
        out.push(Req::new(Hint::Struct("St", f)));
        out.push(Req::new(Hint::Enum("En", f)));
        out.push(Req::new(Hint::Enum("En", f)).variant(VReq::Struct(f)));
    }
    let mut seen: Vec<Req> = vec![];
    for q in out {
        if !seen.contains(&q) {
            seen.push(q);
        }
    }
    seen
}

/// A request that fits the value, more or less.
pub fn fit(r: &mut Rng, n: &In) -> Req {
    use Hint::*;
    let h = match n {
        In::Bool(_) => Bool,
        In::I8(_) | In::I16(_) | In::I32(_) | In::I64(_) | In::U8(_) | In::U16(_) | In::U32(_) | In::U64(_) => r.pick(&[I8, I16, I32, I64, U8, U16, U32, U64, F32, F64, I128]).clone(),
        In::I128(_) | In::U128(_) => r.pick(&[I128, U128, U8]).clone(),
        In::F32(_) | In::F64(_) => r.pick(&[F32, F64]).clone(),
        In::Char(_) => Char,
        In::Str(..) => r.pick(&[Str, String, Char, Bytes, Ident, Enum("En", VS)]).clone(),
        In::Bytes(..) => r.pick(&[Bytes, ByteBuf, Str, Ident]).clone(),
        In::None | In::Some(_) => Option,
        In::Unit => r.pick(&[Unit, Option, UnitStruct("Us")]).clone(),
        In::Newtype(_) => Newtype("Nt"),
        In::Seq(_) => r.pick(&[Seq, Tuple(2), TupleStruct("Ts", 2), Struct("St", F), Bytes]).clone(),
        In::Map(_) => r.pick(&[Map, Struct("St", F), Enum("En", VS), UnitStruct("Us")]).clone(),
        In::Enum(..) => Enum("En", VS),
        In::Bad | In::Echo | In::StrIfAsked(_) => Any,
    };
    let mut q = Req::new(h);
    if r.below(4) == 0 {
        q.hint = r.pick(&[Any, Option, Newtype("Nt"), Ignored]).clone();
    }
    if r.below(8) == 0 {
        q.take = r.below(3);
    }
    let child = match n {
        In::Some(x) | In::Newtype(x) => Some((**x).clone()),
        In::Seq(v) => v.first().cloned(),
        In::Map(v) => v.first().map(|x| x.1.clone()),
        _ => None,
    };
    q.variant = r.pick(&[VReq::Unit, VReq::Newtype, VReq::Tuple(1), VReq::Struct(F)]).clone();
    if let Some(c) = child {
        if r.flip() {
            q = q.val(fit(r, &c));
        }
    }
    q
}
