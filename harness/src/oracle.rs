//! What reading must give, written from the properties and not from the code.

use crate::input::*;
use crate::node::S;

/// A value as the reader may ask it.
#[derive(Clone, Debug)]
pub enum Src {
    Fmt(In),
    /// held in a buffer
    Buf(In),
    /// a key, asked for as a string whatever the request
    Key(Box<Src>),
}

#[derive(Debug)]
enum Ev {
    Leaf(Got),
    Some(Src),
    Newtype(Src),
    Seq(Vec<Src>, bool),
    Map(Vec<(Src, Src)>, bool),
    Enum(Src, Pay),
}
#[derive(Debug)]
enum Pay {
    /// the format's own variants
    Fmt(Option<In>),
    Buf(Option<In>),
    /// the value of an entry, with the enum's name
    Val(Src, S),
}

pub type Res<T> = Result<T, ()>;

fn leaf(n: &In, buffered: bool) -> Option<Got> {
    let own = |o: Own| if buffered && o == Own::Transient { Own::Owned } else { o };
    Some(match n {
        In::Bool(v) => Got::Bool(*v),
        In::I8(v) => Got::I8(*v),
        In::I16(v) => Got::I16(*v),
        In::I32(v) => Got::I32(*v),
        In::I64(v) => Got::I64(*v),
        In::I128(v) => Got::I128(*v),
        In::U8(v) => Got::U8(*v),
        In::U16(v) => Got::U16(*v),
        In::U32(v) => Got::U32(*v),
        In::U64(v) => Got::U64(*v),
        In::U128(v) => Got::U128(*v),
        In::F32(v) => Got::F32(*v),
        In::F64(v) => Got::F64(*v),
        In::Char(v) => Got::Char(*v),
        In::Str(o, v) => Got::Str(own(*o), v.clone()),
        In::Bytes(o, v) => Got::Bytes(own(*o), v.clone()),
        In::None => Got::None,
        In::Unit => Got::Unit,
        _ => return None,
    })
}

fn natural(n: &In, buffered: bool, strict: bool) -> Res<Ev> {
    let mk = |x: &In| if buffered { Src::Buf(x.clone()) } else { Src::Fmt(x.clone()) };
    if let Some(g) = leaf(n, buffered) {
        return Ok(Ev::Leaf(g));
    }
    match n {
        In::Some(x) => Ok(Ev::Some(mk(x))),
        In::Newtype(x) => Ok(Ev::Newtype(mk(x))),
        In::Seq(v) => Ok(Ev::Seq(v.iter().map(mk).collect(), buffered || strict)),
        In::Map(v) => Ok(Ev::Map(v.iter().map(|(a, b)| (mk(a), mk(b))).collect(), buffered || strict)),
        In::Enum(k, x) if !buffered => Ok(Ev::Enum(mk(k), Pay::Fmt(x.as_deref().cloned()))),
        _ => Err(()),
    }
}

/// Whether a buffered value of this kind can answer the request.
fn answers(n: &In, h: &Hint) -> bool {
    let int = matches!(
        n,
        In::I8(_) | In::I16(_) | In::I32(_) | In::I64(_) | In::U8(_) | In::U16(_) | In::U32(_) | In::U64(_)
    );
    let big = matches!(n, In::I128(_) | In::U128(_));
    let float = matches!(n, In::F32(_) | In::F64(_));
    let string = matches!(n, In::Str(..));
    let bytes = matches!(n, In::Bytes(..));
    let seq = matches!(n, In::Seq(_));
    let map = matches!(n, In::Map(_));
    match h {
        Hint::Any | Hint::UnitStruct(_) => true,
        Hint::Bool => matches!(n, In::Bool(_)),
        Hint::I8 | Hint::I16 | Hint::I32 | Hint::I64 | Hint::I128 | Hint::U8 | Hint::U16 | Hint::U32 | Hint::U64 | Hint::U128 => int || big,
        Hint::F32 | Hint::F64 => int || float,
        Hint::Char => string || matches!(n, In::Char(_)),
        Hint::Str | Hint::String => string || bytes,
        Hint::Bytes | Hint::ByteBuf => string || bytes || seq,
        Hint::Unit => *n == In::Unit,
        Hint::Seq | Hint::Tuple(_) | Hint::TupleStruct(..) => seq,
        Hint::Map => map,
        Hint::Struct(..) => map || seq,
        Hint::Ident => string || bytes || matches!(n, In::U8(_) | In::U64(_)),
        Hint::Option | Hint::Newtype(_) | Hint::Enum(..) | Hint::Ignored => unreachable!(),
    }
}

fn event(src: &Src, h: &Hint, strict: bool) -> Res<Ev> {
    let buffered = matches!(src, Src::Buf(_));
    let held;
    let n = match src {
        Src::Key(k) => return event(k, &Hint::Str, strict),
        Src::Fmt(In::Echo) => return Ok(Ev::Leaf(Got::Str(Own::Owned, echo(h)))),
        Src::Fmt(In::StrIfAsked(s)) if matches!(h, Hint::Str | Hint::String) => return Ok(Ev::Leaf(Got::Str(Own::Transient, s.clone()))),
        // a buffer is filled by asking for anything
        Src::Buf(In::Echo) => {
            held = In::Str(Own::Owned, echo(&Hint::Any));
            &held
        }
        Src::Fmt(In::StrIfAsked(_)) | Src::Buf(In::StrIfAsked(_)) => {
            held = In::U8(9);
            &held
        }
        Src::Fmt(n) | Src::Buf(n) => n,
    };
    // a value asked twice (some, newtype) is still the same value
    let again = if buffered { Src::Buf(n.clone()) } else { src.clone() };
    let mk = |x: &In| if buffered { Src::Buf(x.clone()) } else { Src::Fmt(x.clone()) };
    match h {
        Hint::Ignored => {
            if *n == In::Bad {
                Err(())
            } else {
                Ok(Ev::Leaf(Got::Unit))
            }
        }
        Hint::Newtype(_) => Ok(Ev::Newtype(match n {
            In::Newtype(x) => mk(x),
            _ => again,
        })),
        Hint::Option => Ok(match n {
            In::None => Ev::Leaf(Got::None),
            In::Unit => Ev::Leaf(if buffered { Got::Unit } else { Got::None }),
            In::Some(x) => Ev::Some(mk(x)),
            _ => Ev::Some(again),
        }),
        Hint::Enum(..) => {
            let pay = |x: Option<In>| if buffered { Pay::Buf(x) } else { Pay::Fmt(x) };
            match n {
                In::Str(..) => Ok(Ev::Enum(again, pay(None))),
                In::Map(m) if m.len() == 1 => Ok(Ev::Enum(mk(&m[0].0), pay(Some(m[0].1.clone())))),
                In::Enum(k, x) if !buffered => Ok(Ev::Enum(mk(k), pay(x.as_deref().cloned()))),
                _ => Err(()),
            }
        }
        Hint::UnitStruct(_) if buffered && *n == In::Map(vec![]) => Ok(Ev::Leaf(Got::Unit)),
        _ if buffered && !answers(n, h) => Err(()),
        _ => natural(n, buffered, strict),
    }
}

fn unit(src: &Src, strict: bool) -> Res<()> {
    match event(src, &Hint::Unit, strict)? {
        Ev::Leaf(Got::Unit) => Ok(()),
        _ => Err(()),
    }
}

pub fn answer(src: &Src, r: &Req, strict: bool) -> Res<Got> {
    let e = event(src, &r.hint, strict)?;
    deliver(e, r, strict)
}

fn deliver(e: Ev, r: &Req, strict: bool) -> Res<Got> {
    Ok(match e {
        Ev::Leaf(g) => g,
        Ev::Some(x) => Got::Some(Box::new(answer(&x, &r.sub(), strict)?)),
        Ev::Newtype(x) => Got::Newtype(Box::new(answer(&x, &r.sub(), strict)?)),
        Ev::Seq(v, all) => {
            if all && r.take < v.len() {
                return Err(());
            }
            Got::Seq(v.iter().take(r.take).map(|x| answer(x, &r.sub(), strict)).collect::<Res<_>>()?)
        }
        Ev::Map(v, all) => {
            if all && r.take < v.len() {
                return Err(());
            }
            Got::Map(
                v.iter()
                    .take(r.take)
                    .map(|(k, x)| Ok((answer(k, &r.subkey(), strict)?, answer(x, &r.sub(), strict)?)))
                    .collect::<Res<_>>()?,
            )
        }
        Ev::Enum(k, p) => {
            let k = answer(&k, &r.subkey(), strict)?;
            let src;
            let x = match (&r.variant, p) {
                (VReq::Unit, Pay::Fmt(None) | Pay::Buf(None)) => Got::UnitVariant,
                (_, Pay::Fmt(None) | Pay::Buf(None)) => return Err(()),
                (v, p) => {
                    let (buf, name) = match p {
                        Pay::Fmt(x) => {
                            src = Src::Fmt(x.unwrap());
                            (false, "")
                        }
                        Pay::Buf(x) => {
                            src = Src::Buf(x.unwrap());
                            (true, "")
                        }
                        Pay::Val(s, n) => {
                            src = s;
                            (false, n)
                        }
                    };
                    match v {
                        VReq::Unit => {
                            unit(&src, strict)?;
                            Got::UnitVariant
                        }
                        VReq::Newtype => answer(&src, &r.sub(), strict)?,
                        VReq::Tuple(_) if buf && !matches!(src, Src::Buf(In::Seq(_))) => return Err(()),
                        VReq::Tuple(n) => deliver(event(&src, &Hint::Tuple(*n), strict)?, r, strict)?,
                        VReq::Struct(f) => deliver(event(&src, &Hint::Struct(name, f), strict)?, r, strict)?,
                    }
                }
            };
            Got::Enum(Box::new(k), Box::new(x))
        }
    })
}

/// The string a tag or key is read as.
pub fn string(src: &Src, strict: bool) -> Res<String> {
    match event(src, &Hint::Str, strict)? {
        Ev::Leaf(Got::Str(_, s)) => Ok(s),
        Ev::Leaf(Got::Char(c)) => Ok(c.to_string()),
        _ => Err(()),
    }
}

/// The remaining entries of an internally tagged object. Gives also how many
/// entries were left unread.
fn keyed(es: &[(Src, Src)], r: &Req, strict: bool) -> Res<(Got, usize)> {
    let first = |es: &[(Src, Src)]| -> Res<Src> {
        let (k, v) = es.first().ok_or(())?;
        if string(k, strict)? == "value" {
            Ok(v.clone())
        } else {
            Err(())
        }
    };
    Ok(match &r.hint {
        Hint::Any | Hint::Map | Hint::Struct(..) => {
            let n = r.take.min(es.len());
            let v = es[..n].iter().map(|(k, v)| (Src::Key(Box::new(k.clone())), v.clone())).collect();
            (deliver(Ev::Map(v, false), r, strict)?, es.len() - n)
        }
        Hint::Option => {
            if es.is_empty() {
                (Got::None, 0)
            } else {
                let v = first(es)?;
                (Got::Some(Box::new(answer(&v, &r.sub(), strict)?)), es.len() - 1)
            }
        }
        Hint::Unit | Hint::UnitStruct(_) => (Got::Unit, es.len()),
        Hint::Newtype(_) => {
            let (g, n) = keyed(es, &r.sub(), strict)?;
            (Got::Newtype(Box::new(g)), n)
        }
        Hint::Enum(name, _) => {
            let (k, v) = es.first().ok_or(())?;
            (deliver(Ev::Enum(k.clone(), Pay::Val(v.clone(), name)), r, strict)?, es.len() - 1)
        }
        Hint::Ignored => {
            if es.is_empty() {
                (Got::Unit, 0)
            } else {
                let v = first(es)?;
                answer(&v, &Req::new(Hint::Ignored), strict)?;
                (Got::Unit, es.len() - 1)
            }
        }
        _ => {
            let v = first(es)?;
            (answer(&v, r, strict)?, es.len() - 1)
        }
    })
}

/// Whether the value can be held in the buffer.
pub fn capturable(n: &In) -> bool {
    match n {
        In::Bad | In::Enum(..) => false,
        In::Some(x) | In::Newtype(x) => capturable(x),
        In::Seq(v) => v.iter().all(capturable),
        In::Map(v) => v.iter().all(|(a, b)| capturable(a) && capturable(b)),
        _ => true,
    }
}

/// The registered implementations: name -> how often.
pub type Names = &'static [(S, usize)];

#[derive(Debug, Clone, PartialEq)]
pub enum Want {
    Ok(S, Got),
    /// exactly this error
    Exact(DErr),
    /// an error that says non-unique
    NonUnique,
    Err,
}

pub fn all_names(n: Names) -> Vec<String> {
    let mut v: Vec<String> = n.iter().flat_map(|(s, c)| std::iter::repeat(s.to_string()).take(*c)).collect();
    v.sort();
    v
}

pub fn lookup(names: Names, key: &str) -> Result<S, Want> {
    match names.iter().find(|(s, _)| *s == key) {
        None => Err(Want::Exact(DErr::Variant(key.to_owned(), all_names(names)))),
        Some((s, 1)) => Ok(s),
        Some(_) => Err(Want::NonUnique),
    }
}

fn ok(r: Res<(S, Got)>) -> Want {
    match r {
        Ok((s, g)) => Want::Ok(s, g),
        Err(()) => Want::Err,
    }
}

pub fn external(n: &In, names: Names, r: &Req, strict: bool) -> Want {
    let In::Map(es) = n else { return Want::Err };
    let Some((k, v)) = es.first() else { return Want::Err };
    let Ok(k) = string(&Src::Fmt(k.clone()), strict) else { return Want::Err };
    let who = match lookup(names, &k) {
        Ok(w) => w,
        Err(e) => return e,
    };
    if strict && es.len() > 1 {
        return Want::Err;
    }
    ok(answer(&Src::Fmt(v.clone()), r, strict).map(|g| (who, g)))
}

pub fn internal(n: &In, tag: S, default: Option<S>, names: Names, r: &Req, strict: bool) -> Want {
    let In::Map(es) = n else { return Want::Err };
    let f = |x: &In| Src::Fmt(x.clone());
    let mut i = 0;
    while i < es.len() {
        match string(&f(&es[i].0), strict) {
            Err(()) => return Want::Err,
            Ok(k) if k == tag => break,
            Ok(_) => {
                if !capturable(&es[i].1) {
                    return Want::Err;
                }
            }
        }
        i += 1;
    }
    let who = if i < es.len() {
        let Ok(name) = string(&f(&es[i].1), strict) else { return Want::Err };
        lookup(names, &name)
    } else {
        match default {
            Some(d) => lookup(names, d),
            None => return Want::Exact(DErr::Missing(tag.to_owned())),
        }
    };
    let who = match who {
        Ok(w) => w,
        Err(e) => return e,
    };
    if i == 0 && !es.is_empty() {
        let rest: Vec<_> = es[1..].iter().map(|(a, b)| (f(a), f(b))).collect();
        ok(keyed(&rest, r, strict).and_then(|(g, left)| if strict && left > 0 { Err(()) } else { Ok((who, g)) }))
    } else {
        let mut rest = vec![];
        for (j, (a, b)) in es.iter().enumerate() {
            if j != i {
                let k = if j < i { string(&f(a), strict) } else { string_owned(&f(a), strict) };
                let Ok(k) = k else { return Want::Err };
                if !capturable(b) {
                    return Want::Err;
                }
                rest.push((Src::Buf(In::Str(Own::Owned, k)), Src::Buf(b.clone())));
            }
        }
        ok(keyed(&rest, r, strict).and_then(|(g, left)| if left > 0 { Err(()) } else { Ok((who, g)) }))
    }
}
/// Keys after a late tag are read as String, which also takes UTF-8 bytes.
fn string_owned(src: &Src, strict: bool) -> Res<String> {
    match event(src, &Hint::String, strict)? {
        Ev::Leaf(Got::Str(_, s)) => Ok(s),
        Ev::Leaf(Got::Char(c)) => Ok(c.to_string()),
        Ev::Leaf(Got::Bytes(_, b)) => String::from_utf8(b).map_err(|_| ()),
        _ => Err(()),
    }
}

pub struct Adj {
    pub tag: S,
    pub content: S,
    pub default: Option<S>,
    pub deny: bool,
}

pub fn adjacent(n: &In, a: &Adj, names: Names, r: &Req, strict: bool) -> Want {
    let f = |x: &In| Src::Fmt(x.clone());
    match n {
        In::Seq(v) => {
            let Some(t) = v.first() else { return Want::Exact(DErr::Length(0)) };
            let Ok(t) = string(&f(t), strict) else { return Want::Err };
            let who = match lookup(names, &t) {
                Ok(w) => w,
                Err(e) => return e,
            };
            let Some(c) = v.get(1) else { return Want::Exact(DErr::Length(1)) };
            if strict && v.len() > 2 {
                return Want::Err;
            }
            ok(answer(&f(c), r, strict).map(|g| (who, g)))
        }
        In::Map(es) => {
            // any error in the input anywhere is an error of the whole
            let (mut tags, mut contents, mut errs) = (vec![], vec![], vec![]);
            for (k, v) in es {
                match string(&f(k), strict) {
                    Err(()) => errs.push(Want::Err),
                    Ok(k) if k == a.tag => {
                        if tags.is_empty() {
                            match string(&f(v), strict) {
                                Err(()) => errs.push(Want::Err),
                                Ok(t) => match lookup(names, &t) {
                                    Ok(w) => tags.push(Some(w)),
                                    Err(e) => errs.push(e),
                                },
                            }
                        } else {
                            errs.push(Want::Exact(DErr::Duplicate(a.tag.into())));
                        }
                    }
                    Ok(k) if k == a.content => {
                        if contents.is_empty() {
                            if tags.is_empty() && !capturable(v) {
                                errs.push(Want::Err);
                            }
                            contents.push((tags.is_empty(), v));
                        } else {
                            errs.push(Want::Exact(DErr::Duplicate(a.content.into())));
                        }
                    }
                    Ok(k) if a.deny => errs.push(Want::Exact(DErr::Field(k, vec![a.tag.into(), a.content.into()]))),
                    Ok(_) => {
                        if *v == In::Bad {
                            errs.push(Want::Err);
                        }
                    }
                }
                // the first error is the one reported; later entries may go unread
                if !errs.is_empty() {
                    break;
                }
            }
            // a value that cannot be read comes before a later complaint
            let who = match (tags.first(), a.default) {
                (Some(w), _) => w.unwrap(),
                (None, None) => {
                    return match errs.pop() {
                        Some(e) => e,
                        None => Want::Exact(DErr::Missing(a.tag.into())),
                    }
                }
                (None, Some(_)) if contents.is_empty() => {
                    return match errs.pop() {
                        Some(e) => e,
                        None => Want::Exact(DErr::Missing(a.content.into())),
                    }
                }
                (None, Some(d)) => match (errs.pop(), lookup(names, d)) {
                    (Some(e), _) => return e,
                    (None, Ok(w)) => w,
                    (None, Err(e)) => return e,
                },
            };
            let got = match contents.first() {
                None => answer_unit(r),
                Some((true, v)) => answer(&Src::Buf((*v).clone()), r, strict),
                Some((false, v)) => answer(&f(v), r, strict),
            };
            match (got, errs.pop()) {
                (Err(()), _) => Want::Err,
                (Ok(_), Some(e)) => e,
                (Ok(g), None) => Want::Ok(who, g),
            }
        }
        _ => Want::Err,
    }
}

/// A type reading a unit: what serde's own unit deserializer presents.
fn answer_unit(r: &Req) -> Res<Got> {
    match &r.hint {
        Hint::Option => Ok(Got::None),
        _ => Ok(Got::Unit),
    }
}
