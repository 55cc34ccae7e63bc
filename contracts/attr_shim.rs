// ---- syn, as far as the attribute parser uses it
use vstd::prelude::*;
use crate::shim::*;
verus! {

/// One token of an attribute's arguments: an identifier, a punctuation
/// character, a string literal, anything else.
pub enum Tok { Word(Seq<char>), Punct(char), Text(Seq<char>), Other(int) }

pub open spec fn word(t: Seq<Tok>, i: int, w: Seq<char>) -> bool { 0 <= i < t.len() && t[i] == Tok::Word(w) }
pub open spec fn punct(t: Seq<Tok>, i: int, c: char) -> bool { 0 <= i < t.len() && t[i] == Tok::Punct(c) }
pub open spec fn text(t: Seq<Tok>, i: int) -> bool { 0 <= i < t.len() && t[i] is Text }

pub open spec fn takes_one(fits: bool, before: Seq<Tok>, ok: bool, after: Seq<Tok>) -> bool {
    if fits { ok && after == before.skip(1) } else { !ok }
}

pub broadcast proof fn skip_skip(s: Seq<Tok>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len()
    ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b)
{ assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
pub broadcast proof fn skip_none(s: Seq<Tok>)
    ensures #[trigger] s.skip(0) == s
{ assert(s.skip(0) =~= s); }

#[verifier::external_body]
pub struct SynErr { x: () }

/// syn::parse::Parse: what a type takes from the stream, and syn::token::Peek.
pub trait Parsed: Sized { spec fn takes(before: Seq<Tok>, r: Result<Self, SynErr>, after: Seq<Tok>) -> bool; }
pub trait Peeked: Sized { spec fn ahead(t: Seq<Tok>) -> bool; }

/// syn::parse::ParseBuffer
#[verifier::external_body]
pub struct Stream { x: () }
impl Stream {
    /// the tokens not yet taken
    pub uninterp spec fn rest(&self) -> Seq<Tok>;
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.rest().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn parse<T: Parsed>(&mut self) -> (r: Result<T, SynErr>) ensures T::takes(old(self).rest(), r, final(self).rest()) { unimplemented!() }
    #[verifier::external_body]
    pub fn peek<T: Peeked>(&self) -> (r: bool) ensures r == T::ahead(self.rest()) { unimplemented!() }
    #[verifier::external_body]
    pub fn lookahead1(&self) -> (r: Lookahead) ensures r.rest() == self.rest() { unimplemented!() }
    #[verifier::external_body]
    pub fn error<M>(&self, m: M) -> (r: SynErr) { unimplemented!() }
}
#[verifier::external_body]
pub struct Lookahead { x: () }
impl Lookahead {
    pub uninterp spec fn rest(&self) -> Seq<Tok>;
    #[verifier::external_body]
    pub fn peek<T: Peeked>(&self) -> (r: bool) ensures r == T::ahead(self.rest()) { unimplemented!() }
    #[verifier::external_body]
    pub fn error(self) -> (r: SynErr) { unimplemented!() }
}

pub struct Tok_eq { }
pub struct Tok_comma { }
pub struct Tok_question { }
impl Parsed for Tok_eq { open spec fn takes(before: Seq<Tok>, r: Result<Self, SynErr>, after: Seq<Tok>) -> bool { takes_one(punct(before, 0, '='), before, r is Ok, after) } }
impl Parsed for Tok_comma { open spec fn takes(before: Seq<Tok>, r: Result<Self, SynErr>, after: Seq<Tok>) -> bool { takes_one(punct(before, 0, ','), before, r is Ok, after) } }
impl Peeked for Tok_eq { open spec fn ahead(t: Seq<Tok>) -> bool { punct(t, 0, '=') } }
impl Peeked for Tok_comma { open spec fn ahead(t: Seq<Tok>) -> bool { punct(t, 0, ',') } }
/// an optional token
impl<T: Parsed + Peeked> Parsed for Option<T> {
    open spec fn takes(before: Seq<Tok>, r: Result<Self, SynErr>, after: Seq<Tok>) -> bool {
        if T::ahead(before) { (r is Ok ==> r->Ok_0 is Some) && T::takes(before, match r { Ok(x) => Ok(x->Some_0), Err(e) => Err(e) }, after) }
        else { r is Ok && r->Ok_0 is None && after == before }
    }
}
#[verifier::external_body]
pub struct LitStr { x: () }
impl View for LitStr { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Parsed for LitStr {
    open spec fn takes(before: Seq<Tok>, r: Result<Self, SynErr>, after: Seq<Tok>) -> bool {
        takes_one(text(before, 0), before, r is Ok, after) && (r is Ok ==> r->Ok_0@ == before[0]->Text_0)
    }
}
impl Peeked for LitStr { open spec fn ahead(t: Seq<Tok>) -> bool { text(t, 0) } }
#[verifier::external_body]
pub struct Expr { x: () }
/// how many tokens the expression at the start of a token sequence has (none: no
/// expression there), and which expression it is
pub uninterp spec fn expr_at(t: Seq<Tok>) -> Option<(nat, Expr)>;
impl Parsed for Expr {
    open spec fn takes(before: Seq<Tok>, r: Result<Self, SynErr>, after: Seq<Tok>) -> bool {
        match expr_at(before) {
            Some((n, x)) => n <= before.len() && r == Ok::<Expr, SynErr>(x) && after == before.skip(n as int),
            None => r is Err,
        }
    }
}

// ---- the grammar of an attribute's arguments

/// What the attribute on a trait says.
pub enum Args {
    External,
    Internal(Seq<char>, Option<Seq<char>>),
    Adjacent(Seq<char>, Seq<char>, Option<Seq<char>>, bool),
}

pub open spec fn eq_text(t: Seq<Tok>, i: int, w: Seq<char>) -> bool { word(t, i, w) && punct(t, i + 1, '=') && text(t, i + 2) }

/// the options after tag and content
pub open spec fn options(t: Seq<Tok>, d: Option<Seq<char>>, deny: bool) -> Option<(Option<Seq<char>>, bool)>
    decreases t.len()
{
    if t.len() == 0 { Some((d, deny)) }
    else if d is None && eq_text(t, 0, "default_variant"@) {
        let d = Some(t[2]->Text_0);
        if t.len() == 3 { Some((d, deny)) } else if punct(t, 3, ',') { options(t.skip(4), d, deny) } else { None }
    } else if !deny && word(t, 0, "deny_unknown_fields"@) {
        if t.len() == 1 { Some((d, true)) } else if punct(t, 1, ',') { options(t.skip(2), d, true) } else { None }
    } else { None }
}

/// the configuration a token sequence stands for, if it stands for one
pub open spec fn reading(t: Seq<Tok>) -> Option<Args> {
    if t.len() == 0 { Some(Args::External) }
    else if !eq_text(t, 0, "tag"@) { None }
    else if t.len() == 3 || (t.len() == 4 && punct(t, 3, ',')) { Some(Args::Internal(t[2]->Text_0, None)) }
    else if !punct(t, 3, ',') { None }
    else if eq_text(t, 4, "content"@) {
        if t.len() == 7 { Some(Args::Adjacent(t[2]->Text_0, t[6]->Text_0, None, false)) }
        else if punct(t, 7, ',') {
            match options(t.skip(8), None, false) {
                Some((d, deny)) => Some(Args::Adjacent(t[2]->Text_0, t[6]->Text_0, d, deny)),
                None => None,
            }
        } else { None }
    } else if eq_text(t, 4, "default_variant"@) && (t.len() == 7 || (t.len() == 8 && punct(t, 7, ','))) {
        Some(Args::Internal(t[2]->Text_0, Some(t[6]->Text_0)))
    } else { None }
}

// ---- the same, by how a configuration is written

pub open spec fn put(w: Seq<char>, s: Seq<char>) -> Seq<Tok> { seq![Tok::Word(w), Tok::Punct('='), Tok::Text(s)] }
pub open spec fn comma(b: bool) -> Seq<Tok> { if b { seq![Tok::Punct(',')] } else { Seq::empty() } }
/// `swap`: deny_unknown_fields before default_variant; `end`: a trailing comma
pub open spec fn written(a: Args, swap: bool, end: bool) -> Seq<Tok> {
    let c = seq![Tok::Punct(',')];
    let deny = seq![Tok::Word("deny_unknown_fields"@)];
    match a {
        Args::External => Seq::empty(),
        Args::Internal(t, None) => put("tag"@, t) + comma(end),
        Args::Internal(t, Some(d)) => put("tag"@, t) + c + put("default_variant"@, d) + comma(end),
        Args::Adjacent(t, k, None, false) => put("tag"@, t) + c + put("content"@, k) + comma(end),
        Args::Adjacent(t, k, None, true) => put("tag"@, t) + c + put("content"@, k) + c + deny + comma(end),
        Args::Adjacent(t, k, Some(d), false) => put("tag"@, t) + c + put("content"@, k) + c + put("default_variant"@, d) + comma(end),
        Args::Adjacent(t, k, Some(d), true) =>
            put("tag"@, t) + c + put("content"@, k) + c
            + (if swap { deny + c + put("default_variant"@, d) } else { put("default_variant"@, d) + c + deny })
            + comma(end),
    }
}

pub proof fn lemma_words()
    ensures
        "tag"@ != "content"@, "tag"@ != "default_variant"@, "content"@ != "default_variant"@,
        "default_variant"@ != "deny_unknown_fields"@,
{
    reveal_strlit("tag"); reveal_strlit("content"); reveal_strlit("default_variant"); reveal_strlit("deny_unknown_fields");
    assert("tag"@.len() == 3); assert("content"@.len() == 7); assert("default_variant"@.len() == 15); assert("deny_unknown_fields"@.len() == 19);
}

/// (the two options start with different words)
pub broadcast proof fn option_words(t: Seq<Tok>, d: Option<Seq<char>>, deny: bool)
    ensures #[trigger] options(t, d, deny) == options(t, d, deny), "default_variant"@ != "deny_unknown_fields"@
{ lemma_words(); }

/// Every way to write a configuration is read as that configuration,
pub proof fn writing_is_read(a: Args, swap: bool, end: bool)
    ensures reading(written(a, swap, end)) == Some(a)
{
    lemma_words();
    let t = written(a, swap, end);
    if let Args::Adjacent(..) = a {
        let o = t.skip(8);
        reveal_with_fuel(options, 4);
        if t.len() > 8 {
            if let Args::Adjacent(_, _, Some(_), true) = a {
                let o2 = o.skip(if swap { 2int } else { 4int });
                if swap {
                    assert(o[0] == Tok::Word("deny_unknown_fields"@));
                    assert(o2[0] == Tok::Word("default_variant"@));
                    assert(eq_text(o2, 0, "default_variant"@));
                    if end { assert(o2.skip(4).len() == 0); }
                } else {
                    assert(eq_text(o, 0, "default_variant"@));
                    assert(o2[0] == Tok::Word("deny_unknown_fields"@));
                    if end { assert(o2.skip(2).len() == 0); }
                }
            } else if let Args::Adjacent(_, _, Some(_), false) = a {
                assert(eq_text(o, 0, "default_variant"@));
                if end { assert(o.skip(4).len() == 0); }
            } else {
                assert(word(o, 0, "deny_unknown_fields"@));
                if end { assert(o.skip(2).len() == 0); }
            }
        }
    }
}

/// and nothing else is read as a configuration.
pub proof fn reading_is_written(t: Seq<Tok>)
    requires reading(t) is Some
    ensures exists|swap: bool, end: bool| t == written(reading(t)->0, swap, end)
{
    lemma_words();
    let a = reading(t)->0;
    let k = t.len();
    assert(forall|i: int| 0 <= i < t.len() && (#[trigger] t[i]) is Text ==> t[i] == Tok::Text(t[i]->Text_0));
    match a {
        Args::External => { assert(t =~= written(a, false, false)); }
        Args::Internal(_, None) => { assert(t =~= written(a, false, k == 4)); }
        Args::Internal(_, Some(_)) => { assert(t =~= written(a, false, k == 8)); }
        Args::Adjacent(_, _, d, deny) => {
            reveal_with_fuel(options, 4);
            if k <= 8 {
                assert(t =~= written(a, false, k == 8));
            } else {
                let o = t.skip(8);
                assert(forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] == t[i + 8]);
                assert(forall|i: int| 8 <= i < t.len() ==> #[trigger] t[i] == o[i - 8]);
                if eq_text(o, 0, "default_variant"@) {
                    if o.len() <= 4 { assert(t =~= written(a, false, o.len() == 4)); }
                    else {
                        let p = o.skip(4);
                        assert(word(p, 0, "deny_unknown_fields"@));
                        assert(p.len() <= 2) by { if p.len() > 2 { let q = p.skip(2); assert(options(q, Some(o[2]->Text_0), true) is None); } }
                        assert(p[0] == t[12]);
                        if p.len() == 2 { assert(p[1] == t[13]); }
                        assert(t =~= written(a, false, p.len() == 2));
                    }
                } else {
                    assert(word(o, 0, "deny_unknown_fields"@));
                    if o.len() <= 2 { assert(t =~= written(a, false, o.len() == 2)); }
                    else {
                        let p = o.skip(2);
                        assert(eq_text(p, 0, "default_variant"@));
                        assert(p.len() <= 4) by { if p.len() > 4 { let q = p.skip(4); assert(options(q, Some(p[2]->Text_0), true) is None); } }
                        assert(p[0] == t[10] && p[1] == t[11] && p[2] == t[12]);
                        if p.len() == 4 { assert(p[3] == t[13]); }
                        assert(t =~= written(a, true, p.len() == 4));
                    }
                }
            }
        }
    }
}

/// What the attribute on an implementation says: nothing, or `name = EXPR`.
pub open spec fn reading_impl(t: Seq<Tok>) -> Option<Option<Expr>> {
    if t.len() == 0 { Some(None) }
    else if !(word(t, 0, "name"@) && punct(t, 1, '=')) { None }
    else {
        match expr_at(t.skip(2)) {
            None => None,
            Some((n, x)) => {
                let r = t.skip(2).skip(n as int);
                if r.len() == 0 || (r.len() == 1 && punct(r, 0, ',')) { Some(Some(x)) } else { None }
            }
        }
    }
}

// ---- syn's syntax tree, as far as it is looked at

#[verifier::external_body]
pub struct SynIdent { x: () }
impl View for SynIdent { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VOwn for SynIdent {
    type O = String;
    open spec fn owned(&self, o: String) -> bool { o@ == self@ }
    #[verifier::external_body]
    fn v_to_owned(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn v_into(&self) -> (r: String) { unimplemented!() }
}
#[verifier::external_body]
pub struct PathArgs { x: () }
pub struct PathSegment { pub ident: SynIdent, pub arguments: PathArgs }
#[verifier::external_body]
pub struct Segments { x: () }
impl View for Segments { type V = Seq<PathSegment>; uninterp spec fn view(&self) -> Seq<PathSegment>; }
impl Segments {
    #[verifier::external_body]
    pub fn last(&self) -> (r: Option<&PathSegment>) ensures match r { Some(s) => self@.len() > 0 && *s == self@.last(), None => self@.len() == 0 } { unimplemented!() }
    #[verifier::external_body]
    pub fn first(&self) -> (r: Option<&PathSegment>) ensures match r { Some(s) => self@.len() > 0 && *s == self@.first(), None => self@.len() == 0 } { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
pub struct SynPath { pub leading_colon: Option<Tok_colon2>, pub segments: Segments }
pub struct Tok_colon2 { }
impl SynPath {
    /// the identifier a path consists of, if it is nothing but an identifier
    pub uninterp spec fn plain(&self) -> Option<Seq<char>>;
    #[verifier::external_body]
    pub fn is_ident(&self, s: &str) -> (r: bool) ensures r == (self.plain() == Some(s@)) { unimplemented!() }
}
#[verifier::external_body]
pub struct SynAttribute { x: () }
#[verifier::external_body]
pub struct QSelf { x: () }
pub struct TypePath { pub attrs: Vec<SynAttribute>, pub qself: Option<QSelf>, pub path: SynPath }
pub struct TypeGroup { pub attrs: Vec<SynAttribute>, pub elem: Box<Type> }
pub enum Type { Path(TypePath), Group(TypeGroup), Paren(TypeGroup), Other(u8) }
/// A type's own name: the last segment of its path, seen through the groups
/// that macros put around it.
pub open spec fn own_name(t: Type) -> Option<Seq<char>>
    decreases t
{
    match t {
        Type::Path(p) => if p.qself is None { Some(p.path.segments@.last().ident@) } else { None },
        Type::Group(g) => own_name(*g.elem),
        _ => None,
    }
}
/// Every path has a segment (syn's own invariant).
pub open spec fn whole(t: Type) -> bool
    decreases t
{
    match t {
        Type::Path(p) => p.path.segments@.len() > 0,
        Type::Group(g) => whole(*g.elem),
        Type::Paren(g) => whole(*g.elem),
        _ => true,
    }
}
pub struct TraitBound { pub maybe: Option<Tok_question>, pub path: SynPath }
pub enum TypeParamBound { Trait(TraitBound), Other(u8) }
pub struct ItemTrait { pub supertraits: Vec<TypeParamBound> }
pub open spec fn bound_to(b: TypeParamBound, find: Seq<char>) -> bool { b is Trait && b->Trait_0.maybe is None && b->Trait_0.path.plain() == Some(find) }
pub open spec fn has_bound(s: Seq<TypeParamBound>, find: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && bound_to(#[trigger] s[i], find) }
} // verus!
