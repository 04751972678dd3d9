//! Bounded grammar of C++ names: atoms, and one-hole contexts in which any
//! term of the right sort can be placed. Names are all chains of contexts
//! around an atom.

use crate::ast::*;

#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
pub enum Prec {
    /// Operators can be appended on the right
    Postfix,
    /// Prefix operators can be prepended
    Unary,
    /// Needs parentheses
    Binary,
}
use Prec::*;

#[derive(Clone, Debug)]
pub enum Term {
    T(Ty),
    V(Val, Prec),
}
impl Term {
    pub fn text(&self) -> String {
        match self {
            Term::T(t) => t.full(),
            Term::V(v, _) => v.full(),
        }
    }
}

pub struct Ctx {
    pub what: &'static str,
    pub f: Box<dyn Fn(&Term) -> Option<Term> + Sync + Send>,
}

// ------------------------------------------------------------ constructors
pub fn unq(id: &str) -> Unq {
    Unq::Named { dtor: false, id: id.into(), tp: None }
}
fn name(u: Unq) -> Name {
    Name { path: Path::default(), id: u }
}
fn scoped(scopes: Vec<Unq>, u: Unq) -> Name {
    Name {
        path: Path { rooted: false, scopes: scopes.into_iter().map(|id| Scope { id, sig: None }).collect() },
        id: u,
    }
}
fn tn(n: Name) -> Ty {
    Ty { attrs: vec![], cv: String::new(), simple: Simple::Name(n), decl: vec![] }
}
pub fn t(id: &str) -> Ty {
    tn(name(unq(id)))
}
fn legacy(s: &str) -> Ty {
    Ty { attrs: vec![], cv: String::new(), simple: Simple::Legacy(s.into()), decl: vec![] }
}
fn val(h: Head) -> Val {
    Val { head: Box::new(h), trailer: vec![] }
}
fn v(id: &str) -> Val {
    val(Head::Name(name(unq(id))))
}
fn lit(s: &str) -> Val {
    val(Head::Lit(s.into()))
}
fn then(v: &Val, a: After) -> Val {
    let mut v = v.clone();
    v.trailer.push(a);
    v
}
fn tmpl(id: &str, p: Vec<TParam>) -> Unq {
    Unq::Named { dtor: false, id: id.into(), tp: Some(Some(p)) }
}
fn ptr() -> Decl {
    Decl::Ptr { path: Path::default(), cv: String::new(), restrict: false }
}
fn sig(params: Vec<Ty>) -> Sig {
    Sig { params, ..Default::default() }
}
fn func(n: &str, s: Sig) -> Ty {
    let mut r = t(n);
    r.decl.push(Decl::Fn(s));
    r
}
fn sym(s: &str) -> Op {
    Op::Sym(s.into())
}
fn opname(s: &str) -> Unq {
    Unq::Op { op: sym(s), tp: None }
}

// ------------------------------------------------------------- side conditions
/// Could a value be mistaken for a type (C++ would know from the declarations)
fn typelike(v: &Val) -> bool {
    matches!(*v.head, Head::Name(_) | Head::SizeOf(_) | Head::DeclVal(_))
        && v.trailer
            .iter()
            .all(|a| match a {
                After::Call(_) | After::Index(_) => true,
                // Trailing return type
                After::Binary(op, v) if op == "->" => typelike(v),
                // Function that returns a pointer or reference
                After::Binary(op, v) => {
                    matches!(&op[..], "*" | "&" | "&&") && matches!(*v.head, Head::Paren(_))
                }
                _ => false,
            })
}
/// Does a value have this operator outside of any kind of brackets?
fn exposes(v: &Val, pred: &dyn Fn(&str) -> bool) -> bool {
    (match &*v.head {
        Head::Unary(_, v) => exposes(v, pred),
        Head::New { .. } => false,
        _ => false,
    }) || v.trailer.iter().any(|a| match a {
        After::Binary(op, v) => pred(op) || exposes(v, pred),
        After::Ternary(a, b) => exposes(a, pred) || exposes(b, pred),
        _ => false,
    })
}
fn has_comma(v: &Val) -> bool {
    exposes(v, &|o| o == ",")
}
fn has_greater(v: &Val) -> bool {
    exposes(v, &|o| o.starts_with('>'))
}
fn has_less(v: &Val) -> bool {
    exposes(v, &|o| o == "<")
}
/// `a < b` next to a comma is a template to anyone who does not know `a`
fn in_list(v: &Val) -> bool {
    !has_comma(v) && !has_less(v) && !munches(&v.full())
}
fn digit_first(v: &Val) -> bool {
    v.full().starts_with(|c: char| c.is_ascii_digit())
}
/// Does the spelling end with an operator name made of symbols?
fn ends_with_op(s: &str) -> bool {
    // Only relevant before symbols
    match s.rfind("operator") {
        Some(i) => s[i + 8..].chars().all(|c| "+-*/%^&|~!=<>,".contains(c)) && s.len() > i + 8,
        None => false,
    }
}
fn pure_name(t: &Ty) -> Option<&Name> {
    match &t.simple {
        Simple::Name(n) if t.attrs.is_empty() && t.cv.is_empty() && t.decl.is_empty() => Some(n),
        _ => None,
    }
}
fn is_conv(n: &Name) -> bool {
    matches!(&n.id, Unq::Op { op: Op::Conv(_), .. })
}
fn is_conv_ty(t: &Ty) -> bool {
    matches!(&t.simple, Simple::Name(n) if is_conv(n))
}
fn is_op_ty(t: &Ty) -> bool {
    matches!(&t.simple, Simple::Name(n) if matches!(n.id, Unq::Op{..}))
}
fn scope_ok(n: &Name) -> bool {
    !matches!(n.id, Unq::Op { .. } | Unq::Named { dtor: true, .. })
}
/// Name and signature of a function that can enclose other entities
fn scope_fn(t: &Ty) -> Option<(&Name, &Sig)> {
    match &t.simple {
        Simple::Name(n) if t.attrs.is_empty() && t.cv.is_empty() && !is_conv(n) => match &t.decl[..] {
            [Decl::Fn(s)] if s.ret.is_none() && s.noexcept.is_none() => Some((n, s)),
            _ => None,
        },
        _ => None,
    }
}
/// Can declarators be appended to this type?
fn open(t: &Ty) -> bool {
    !is_conv_ty(t)
        && !is_op_ty(t)
        && t.decl.iter().all(|d| matches!(d, Decl::Ptr { .. }))
}

// ------------------------------------------------------------------- atoms
pub fn atoms() -> Vec<Term> {
    let mut r = vec![];
    let mut ty = |t: Ty| r.push(Term::T(t));
    ty(t("a"));
    ty(tn(Name { path: Path { rooted: true, scopes: vec![] }, id: unq("a") }));
    ty(tn(scoped(vec![unq("a"), unq("b")], unq("c"))));
    ty(tn(name(tmpl("a", vec![]))));
    ty(tn(name(tmpl("a", vec![TParam::T(t("b")), TParam::V(lit("1"))]))));
    ty(tn(name(Unq::Named { dtor: false, id: "a".into(), tp: Some(None) })));
    for s in LEGACY {
        ty(legacy(s));
    }
    ty(t("_x1$"));
    ty(t("operators"));
    ty(t("constant"));
    ty(t("integer"));
    ty(t("decltypes"));
    ty(t("newer"));
    for s in [
        "(anonymous namespace)",
        "(anonymous)",
        "(anonymous class)",
        "(anonymous struct at /a/b.h:3:4)",
        "(lambda at /a/b.cpp:1:2)",
        "(lambda at /a,b>(c.cpp:1:2)",
        "(lambda at /é/名前.cpp:1:2)",
        "{unnamed type#2}",
    ] {
        ty(tn(name(Unq::Anon(s.into()))));
    }
    ty(tn(name(Unq::Lambda(Box::new(sig(vec![legacy("int")])), 1))));
    ty(tn(scoped(vec![unq("a")], Unq::Named { dtor: true, id: "a".into(), tp: None })));
    for o in OPS {
        ty(tn(scoped(vec![unq("a")], opname(o))));
    }
    for o in ["()", "[]", "\"\" _k"] {
        ty(tn(scoped(vec![unq("a")], opname(o))));
    }
    for o in ["new", "new[]", "delete", "delete[]", "co_await"] {
        ty(tn(scoped(vec![unq("a")], Unq::Op { op: Op::Word(o.into()), tp: None })));
    }
    for o in ["+", "<", ">", "<<", ">>", "->", "<=>", ",", "()", "&&", "=="] {
        ty(tn(scoped(
            vec![unq("a")],
            Unq::Op { op: sym(o), tp: Some(Some(vec![TParam::T(t("b"))])) },
        )));
    }
    ty(Ty { simple: Simple::Auto(1), ..t("a") });
    let mut va = |v: Val, p| r.push(Term::V(v, p));
    for s in [
        "0", "1", "-1", "18446744073709551615", "-9223372036854775808", "'c'", "'>'", "'<'", "','", "')'", "'('",
        "'\\''", "'\"'", "'\\\\'", "'\\n'", "'\\0'", "'\\x7f'", "1_km", "' '", "']'", "':'", "'&'", "'-'", "'名'", "'é'",
    ] {
        va(lit(s), Postfix);
    }
    va(v("a"), Postfix);
    va(v("newer"), Postfix);
    va(val(Head::Name(scoped(vec![unq("a")], unq("b")))), Postfix);
    va(val(Head::Name(scoped(vec![tmpl("a", vec![TParam::V(lit("1"))])], unq("value")))), Postfix);
    va(val(Head::Name(name(tmpl("a", vec![TParam::T(t("b")), TParam::T(t("c"))])))), Postfix);
    va(val(Head::Name(Name { path: Path { rooted: true, scopes: vec![] }, id: unq("a") })), Postfix);
    r
}
/// Complete combinations of the parts of the larger productions
pub fn products() -> Vec<Term> {
    let mut r = vec![];
    // Function signatures
    let mut sigs = vec![];
    for params in [vec![], vec![t("b")], vec![t("b"), legacy("int")]] {
        for variadic in [false, true] {
            for cv in CVS {
                for refs in 0..=2 {
                    for noexcept in [None, Some(None), Some(Some(Box::new(lit("1"))))] {
                        for ret in [None, Some(Box::new(t("c")))] {
                            for abi in [None, Some("x".to_string())] {
                                sigs.push(Sig {
                                    abi,
                                    params: params.clone(),
                                    variadic,
                                    cv: cv.to_string(),
                                    refs,
                                    noexcept: noexcept.clone(),
                                    ret: ret.clone(),
                                });
                            }
                        }
                    }
                }
            }
        }
    }
    for s in &sigs {
        r.push(Term::T(func("f", s.clone())));
        if s.abi.is_none() && s.params.len() == 1 {
            let mut p = t("b");
            p.decl = vec![Decl::Paren(vec![ptr()]), Decl::Fn(s.clone())];
            r.push(Term::T(p));
            r.push(Term::T(tn(name(Unq::Lambda(Box::new(s.clone()), 1)))));
            if s.ret.is_none() && s.noexcept.is_none() {
                r.push(Term::T(tn(Name {
                    path: Path {
                        rooted: false,
                        scopes: vec![
                            Scope { id: unq("m"), sig: None },
                            Scope { id: unq("g"), sig: Some(s.clone()) },
                        ],
                    },
                    id: unq("x"),
                })));
            }
        }
    }
    // Pointers and what can follow
    let paths = [
        Path::default(),
        Path { rooted: false, scopes: vec![Scope { id: unq("C"), sig: None }] },
        Path { rooted: true, scopes: vec![Scope { id: unq("C"), sig: None }, Scope { id: unq("D"), sig: None }] },
    ];
    let mut ptrs = vec![];
    for path in &paths {
        for cv in CVS {
            for restrict in [false, true] {
                ptrs.push(Decl::Ptr { path: path.clone(), cv: cv.to_string(), restrict });
            }
        }
    }
    for base in [t("a"), legacy("unsigned long"), tn(name(tmpl("a", vec![TParam::T(t("b"))])))] {
        for cv in CVS {
            for attr in [vec![], vec![v("y")]] {
                let mut b = base.clone();
                b.cv = cv.to_string();
                b.attrs = attr;
                r.push(Term::T(b.clone()));
                for p in &ptrs {
                    let with = |more: &[Decl]| {
                        let mut b = b.clone();
                        b.decl.push(p.clone());
                        b.decl.extend_from_slice(more);
                        Term::T(b)
                    };
                    r.push(with(&[]));
                    r.push(with(&[ptr()]));
                    r.push(with(&[Decl::Ref(1)]));
                    r.push(with(&[Decl::Ref(2)]));
                    // b* const [2] is not what C++ tools print
                    let mut paren = b.clone();
                    paren.decl.push(Decl::Paren(vec![p.clone()]));
                    paren.decl.push(Decl::Array(Some(lit("2"))));
                    r.push(Term::T(paren));
                }
            }
        }
    }
    // New expressions
    for rooted in [false, true] {
        for placement in [None, Some(vec![]), Some(vec![v("p")]), Some(vec![v("p"), lit("1")])] {
            for ty in [t("b"), legacy("long"), tn(scoped(vec![unq("n")], tmpl("b", vec![TParam::V(lit("1"))])))] {
                for ctor in [None, Some(vec![]), Some(vec![lit("1")]), Some(vec![lit("1"), v("q")])] {
                    // new b() could be a function type
                    if ctor.as_ref().is_some_and(|c| c.is_empty()) {
                        continue;
                    }
                    r.push(Term::V(
                        val(Head::New { rooted, placement: placement.clone(), ty: ty.clone(), ctor }),
                        Binary,
                    ));
                }
            }
        }
    }
    // Names
    for rooted in [false, true] {
        for depth in 0..=3 {
            for id in [
                unq("x"),
                tmpl("x", vec![TParam::T(t("b")), TParam::V(lit("-1")), TParam::V(lit("'c'"))]),
                Unq::Named { dtor: true, id: "x".into(), tp: None },
                Unq::Named { dtor: true, id: "x".into(), tp: Some(Some(vec![TParam::T(t("b"))])) },
                opname("()"),
                Unq::Op { op: sym("()"), tp: Some(Some(vec![])) },
                Unq::Op { op: Op::Conv(Box::new(t("bool"))), tp: None },
                Unq::Op { op: Op::Word("new[]".into()), tp: None },
                Unq::Decltype(Box::new(v("y"))),
                Unq::Anon("(anonymous namespace)".into()),
            ] {
                for template in [false, true] {
                    let scope = |i: usize| {
                        let n = ["m", "n", "o"][i];
                        Scope {
                            id: if template { tmpl(n, vec![TParam::T(t("b"))]) } else { unq(n) },
                            sig: None,
                        }
                    };
                    r.push(Term::T(tn(Name {
                        path: Path { rooted, scopes: (0..depth).map(scope).collect() },
                        id: id.clone(),
                    })));
                }
            }
        }
    }
    r
}
pub const CVS: &[&str] = &["", "const", "volatile", "const volatile"];
pub const LEGACY: &[&str] = &[
    "short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long",
    "__int128", "unsigned __int128", "char", "signed char", "unsigned char", "float", "double", "long double",
    "float _Complex", "double _Complex", "long double _Complex",
];
/// Canonical spelling of a sequence of C-style type keywords, if it makes sense
pub fn legacy_canonical(words: &[&str]) -> Option<String> {
    let n = |w: &str| words.iter().filter(|x| **x == w).count();
    let mut bases: Vec<&str> =
        ["float", "double", "char", "int", "__int128"].into_iter().filter(|b| n(b) > 0).collect();
    let dup = ["float", "double", "char", "int", "__int128", "signed", "unsigned", "short", "_Complex"]
        .iter()
        .any(|w| n(w) > 1);
    if dup || bases.len() > 1 || n("signed") + n("unsigned") > 1 || n("long") > 2 || n("long") * n("short") > 0 {
        return None;
    }
    let base = bases.pop().unwrap_or("int");
    let mut s = match base {
        "float" | "double" => {
            let long = n("long");
            if n("signed") + n("unsigned") + n("short") > 0 || long > 1 || (base == "float" && long > 0) {
                return None;
            }
            format!("{}{base}", "long ".repeat(long))
        }
        _ if n("_Complex") > 0 => return None,
        "char" | "__int128" => {
            if n("short") + n("long") > 0 {
                return None;
            }
            let signed = n("signed") > 0 && base == "char";
            format!("{}{}{base}", if signed { "signed " } else { "" }, "unsigned ".repeat(n("unsigned")))
        }
        _ => {
            let size = format!("{}{}", "short ".repeat(n("short")), "long ".repeat(n("long")));
            let size = if size.is_empty() { "int" } else { size.trim_end() };
            format!("{}{size}", "unsigned ".repeat(n("unsigned")))
        }
    };
    if n("_Complex") > 0 {
        s.push_str(" _Complex");
    }
    Some(s)
}

/// A few atoms of every kind, for the deepest chains
pub fn few_atoms() -> Vec<Term> {
    vec![
        Term::T(tn(name(tmpl("a", vec![TParam::T(t("b")), TParam::V(lit("1"))])))),
        Term::T(legacy("int")),
        Term::V(lit("')'"), Postfix),
        Term::V(lit("'名'"), Postfix),
        Term::V(v("a"), Postfix),
    ]
}
pub const OPS: &[&str] = &[
    "+", "-", "*", "/", "%", "^", "&", "|", "~", "!", "=", "<", ">", ",", "<<", ">>", "&&", "||", "==", "!=", "<=",
    ">=", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<=", ">>=", "<=>", "->", "->*", "++", "--",
];
pub const BINOPS: &[&str] = &[
    "+", "-", "*", "/", "%", "^", "&", "|", "=", "<", ">", ",", "<<", ">>", "&&", "||", "==", "!=", "<=", ">=", "+=",
    "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<=", ">>=", "<=>",
];

/// Operator names after which `>` or `,` would read as another operator
fn munches(s: &str) -> bool {
    let mut rest = s;
    while let Some(i) = rest.find("operator") {
        rest = &rest[i + 8..];
        // operator<<b> is operator<< followed by junk to a greedy reader
        if rest.starts_with("<<") {
            return true;
        }
        if rest.chars().all(|c| "+-*/%^&|~!=<>,".contains(c))
            && matches!(rest, ">" | ">>" | "->" | "<=>" | "-" | "<=" | "<<" | "," | "<" | ">=" | "=")
        {
            return true;
        }
    }
    false
}

fn tp_ok_t(t: &Ty) -> bool {
    let s = t.full();
    !munches(&s)
}
fn tp_ok_v(v: &Val) -> bool {
    !typelike(v) && !has_comma(v) && !has_greater(v) && !has_less(v) && !munches(&v.full())
}

// ------------------------------------------------------------------ contexts
pub fn contexts() -> Vec<Ctx> {
    let mut r: Vec<Ctx> = vec![];
    macro_rules! tt { ($what:expr, |$t:ident| $body:expr) => {
        r.push(Ctx { what: $what, f: Box::new(move |x: &Term| match x { Term::T($t) => $body, _ => None }) }) } }
    macro_rules! vv { ($what:expr, |$v:ident, $p:ident| $body:expr) => {
        r.push(Ctx { what: $what, f: Box::new(move |x: &Term| match x { Term::V($v, $p) => { let $p = *$p; let _ = $p; $body }, _ => None }) }) } }
    fn ok(t: Ty) -> Option<Term> {
        Some(Term::T(t))
    }
    fn okv(v: Val, p: Prec) -> Option<Term> {
        Some(Term::V(v, p))
    }
    fn when(c: bool, t: impl FnOnce() -> Term) -> Option<Term> {
        c.then(t)
    }
    let ta = |p: Vec<TParam>| Term::T(tn(name(tmpl("A", p))));

    // Template parameters
    tt!("A<T>", |t| when(tp_ok_t(t), || ta(vec![TParam::T(t.clone())])));
    tt!("A<T, b>", |t2| when(tp_ok_t(t2), || ta(vec![TParam::T(t2.clone()), TParam::T(t("b"))])));
    tt!("A<b, T>", |t2| when(tp_ok_t(t2), || ta(vec![TParam::T(t("b")), TParam::T(t2.clone())])));
    tt!("A<T>::c", |t2| when(tp_ok_t(t2), || Term::T(tn(scoped(
        vec![tmpl("A", vec![TParam::T(t2.clone())])], unq("c"))))));
    tt!("a::operator+<T>", |t2| when(tp_ok_t(t2), || Term::T(tn(scoped(vec![unq("a")],
        Unq::Op { op: sym("+"), tp: Some(Some(vec![TParam::T(t2.clone())])) })))));
    tt!("operator<<T, b>", |t2| when(tp_ok_t(t2), || Term::T(tn(name(
        Unq::Op { op: sym("<"), tp: Some(Some(vec![TParam::T(t2.clone()), TParam::T(t("b"))])) })))));
    vv!("A<V>", |v, p| when(tp_ok_v(v), || ta(vec![TParam::V(v.clone())])));
    vv!("A<V, b>", |v, p| when(tp_ok_v(v), || ta(vec![TParam::V(v.clone()), TParam::T(t("b"))])));
    vv!("A<b, V>", |v, p| when(tp_ok_v(v), || ta(vec![TParam::T(t("b")), TParam::V(v.clone())])));
    vv!("A<V>::c", |v, p| when(tp_ok_v(v), || Term::T(tn(scoped(
        vec![tmpl("A", vec![TParam::V(v.clone())])], unq("c"))))));

    // Names and scopes
    tt!("N::x", |t| { let n = pure_name(t)?; when(scope_ok(n), || {
        let mut n = n.clone();
        n.path.scopes.push(Scope { id: n.id, sig: None });
        n.id = unq("x");
        Term::T(tn(n)) }) });
    tt!("N::x<b>", |t2| { let n = pure_name(t2)?; when(scope_ok(n), || {
        let mut n = n.clone();
        n.path.scopes.push(Scope { id: n.id, sig: None });
        n.id = tmpl("x", vec![TParam::T(t("b"))]);
        Term::T(tn(n)) }) });
    tt!("N::operator()", |t| { let n = pure_name(t)?; when(scope_ok(n), || {
        let mut n = n.clone();
        n.path.scopes.push(Scope { id: n.id, sig: None });
        n.id = opname("()");
        Term::T(tn(n)) }) });
    tt!("N::~x", |t| { let n = pure_name(t)?; when(scope_ok(n), || {
        let mut n = n.clone();
        n.path.scopes.push(Scope { id: n.id, sig: None });
        n.id = Unq::Named { dtor: true, id: "x".into(), tp: None };
        Term::T(tn(n)) }) });
    tt!("N::{lambda}", |t| { let n = pure_name(t)?; when(scope_ok(n), || {
        let mut n = n.clone();
        n.path.scopes.push(Scope { id: n.id, sig: None });
        n.id = Unq::Lambda(Box::new(sig(vec![])), 3);
        Term::T(tn(n)) }) });
    tt!("x::N", |t| { let n = pure_name(t)?; when(!n.path.rooted, || {
        let mut n = n.clone();
        n.path.scopes.insert(0, Scope { id: unq("x"), sig: None });
        Term::T(tn(n)) }) });
    tt!("::N", |t| { let n = pure_name(t)?; when(!n.path.rooted, || {
        let mut n = n.clone();
        n.path.rooted = true;
        Term::T(tn(n)) }) });
    tt!("F::x", |t| { let (n, s) = scope_fn(t)?;
        let mut n = n.clone();
        n.path.scopes.push(Scope { id: n.id, sig: Some(s.clone()) });
        n.id = unq("x");
        ok(tn(n)) });
    tt!("F::(lambda)::operator()", |t| { let (n, s) = scope_fn(t)?;
        let mut n = n.clone();
        n.path.scopes.push(Scope { id: n.id, sig: Some(s.clone()) });
        n.path.scopes.push(Scope { id: Unq::Anon("(lambda at /x.cpp:1:2)".into()), sig: None });
        n.id = opname("()");
        ok(tn(n)) });
    tt!("C::operator T", |t| ok(tn(scoped(vec![unq("C")], Unq::Op { op: Op::Conv(Box::new(t.clone())), tp: None }))));
    tt!("{lambda(T)#1}", |t| ok(tn(name(Unq::Lambda(Box::new(sig(vec![t.clone()])), 1)))));
    vv!("decltype(V)", |v, p| when(in_list(v), || Term::T(tn(name(Unq::Decltype(Box::new(v.clone())))))));

    // Functions
    macro_rules! fns { ($what:expr, |$n:ident| $s:expr) => {
        tt!($what, |t2| { let $n = pure_name(t2)?; when(!is_conv($n), || {
            let mut r = t2.clone(); r.decl.push(Decl::Fn($s)); Term::T(r) }) }) } }
    fns!("N()", |n| sig(vec![]));
    fns!("N(b)", |n| sig(vec![t("b")]));
    fns!("N(b, c) const", |n| Sig { cv: "const".into(), ..sig(vec![t("b"), t("c")]) });
    fns!("N() const volatile &&", |n| Sig { cv: "const volatile".into(), refs: 2, ..sig(vec![]) });
    fns!("N() &", |n| Sig { refs: 1, ..sig(vec![]) });
    fns!("N(...)", |n| Sig { variadic: true, ..sig(vec![]) });
    fns!("N(b, ...)", |n| Sig { variadic: true, ..sig(vec![t("b")]) });
    fns!("N(b) noexcept", |n| Sig { noexcept: Some(None), ..sig(vec![t("b")]) });
    fns!("N(b) -> c", |n| Sig { ret: Some(Box::new(t("c"))), ..sig(vec![t("b")]) });
    tt!("N[abi:x](b)", |t2| { let n = pure_name(t2)?; when(
        !is_conv(n) && !matches!(n.id, Unq::Named { tp: None, .. }) || matches!(n.id, Unq::Named { .. }), || {
            let mut r = t2.clone();
            r.decl.push(Decl::Fn(Sig { abi: Some("x".into()), ..sig(vec![t("b")]) }));
            Term::T(r) }) });
    tt!("f(T)", |t| ok(func("f", sig(vec![t.clone()]))));
    tt!("f(T, b)", |t2| when(tp_ok_t(t2), || Term::T(func("f", sig(vec![t2.clone(), t("b")])))));
    tt!("f(b, T)", |t2| ok(func("f", sig(vec![t("b"), t2.clone()]))));
    tt!("f(T, ...)", |t| when(tp_ok_t(t), || Term::T(func("f", Sig { variadic: true, ..sig(vec![t.clone()]) }))));
    tt!("f() -> T", |t| ok(func("f", Sig { ret: Some(Box::new(t.clone())), ..sig(vec![]) })));
    vv!("f(b) noexcept(V)", |v, p| when(in_list(v), || Term::T(
        func("f", Sig { noexcept: Some(Some(Box::new(v.clone()))), ..sig(vec![t("b")]) }))));

    // Declarators
    macro_rules! app { ($what:expr, $($d:expr),+) => {
        tt!($what, |t2| when(open(t2), || { let mut r = t2.clone(); $( r.decl.push($d); )+ Term::T(r) })) } }
    app!("T*", ptr());
    app!("T&", Decl::Ref(1));
    app!("T&&", Decl::Ref(2));
    app!("T* const", Decl::Ptr { path: Path::default(), cv: "const".into(), restrict: false });
    app!("T* volatile&", Decl::Ptr { path: Path::default(), cv: "volatile".into(), restrict: false }, Decl::Ref(1));
    app!("T* restrict", Decl::Ptr { path: Path::default(), cv: "".into(), restrict: true });
    app!("T[3]", Decl::Array(Some(lit("3"))));
    app!("T[]", Decl::Array(None));
    app!("T[][2]", Decl::Array(None), Decl::Array(Some(lit("2"))));
    app!("T (*)(b)", Decl::Paren(vec![ptr()]), Decl::Fn(sig(vec![t("b")])));
    app!("T (&)[3]", Decl::Paren(vec![Decl::Ref(1)]), Decl::Array(Some(lit("3"))));
    app!("T (* const)()", Decl::Paren(vec![Decl::Ptr { path: Path::default(), cv: "const".into(), restrict: false }]), Decl::Fn(sig(vec![])));
    app!("T (* (*)())[2]", Decl::Paren(vec![ptr(), Decl::Paren(vec![ptr()]), Decl::Fn(sig(vec![]))]), Decl::Array(Some(lit("2"))));
    app!("T C::*", Decl::Ptr { path: Path { rooted: false, scopes: vec![Scope { id: unq("C"), sig: None }] }, cv: "".into(), restrict: false });
    app!("T ( C::*)(b) const", Decl::Paren(vec![Decl::Ptr { path: Path { rooted: false, scopes: vec![Scope { id: unq("C"), sig: None }] }, cv: "".into(), restrict: false }]),
        Decl::Fn(Sig { cv: "const".into(), ..sig(vec![t("b")]) }));
    tt!("T(b)", |t2| when(open(t2) && pure_name(t2).is_none(), || { let mut r = t2.clone(); r.decl.push(Decl::Fn(sig(vec![t("b")]))); Term::T(r) }));
    tt!("T const", |t| when(open(t) && t.decl.is_empty() && t.cv.is_empty(), || {
        let mut r = t.clone(); r.decl.push(Decl::Cv("const".into())); Term::T(r) }));
    tt!("const T", |t| when(!is_conv_ty(t) && !is_op_ty(t) && t.cv.is_empty() && t.attrs.is_empty(), || {
        let mut r = t.clone(); r.cv = "const".into(); Term::T(r) }));
    tt!("const volatile T", |t| when(!is_conv_ty(t) && !is_op_ty(t) && t.cv.is_empty() && t.attrs.is_empty(), || {
        let mut r = t.clone(); r.cv = "const volatile".into(); Term::T(r) }));
    tt!("b (*)(T)", |t2| { let mut r = t("b"); r.decl = vec![Decl::Paren(vec![ptr()]), Decl::Fn(sig(vec![t2.clone()]))]; ok(r) });
    // b (anonymous)::* could also be a function that takes an `anonymous`
    tt!("b N::*", |t2| { let n = pure_name(t2)?; when(scope_ok(n) && !n.full().starts_with("(anonymous)"), || {
        let mut p = n.path.clone();
        p.scopes.push(Scope { id: n.id.clone(), sig: None });
        let mut r = t("b");
        r.decl.push(Decl::Ptr { path: p, cv: "".into(), restrict: false });
        Term::T(r) }) });
    vv!("b[V]", |v, p| when(in_list(v), || { let mut r = t("b"); r.decl.push(Decl::Array(Some(v.clone()))); Term::T(r) }));
    vv!("b __vector(V)", |v, p| when(in_list(v), || { let mut r = t("b"); r.decl.push(Decl::Vector(v.clone())); Term::T(r) }));
    vv!("__attribute__((V)) b", |v, p| when(in_list(v), || { let mut r = t("b"); r.attrs = vec![v.clone()]; Term::T(r) }));
    vv!("__attribute__((b, V)) int", |v2, p| when(in_list(v2), || { let mut r = legacy("int"); r.attrs = vec![v("b"), v2.clone()]; Term::T(r) }));

    // Values made of types
    tt!("sizeof(T)", |t| okv(val(Head::SizeOf(t.clone())), Postfix));
    tt!("declval(T)", |t| okv(val(Head::DeclVal(t.clone())), Postfix));
    tt!("(T)x", |t| okv(val(Head::Unary(Op::Conv(Box::new(t.clone())), v("x"))), Unary));
    tt!("(T)1", |t| okv(val(Head::Unary(Op::Conv(Box::new(t.clone())), lit("1"))), Unary));
    // new (anonymous)(1) could also be a placement new
    tt!("new T(1)", |t| when(!t.full().starts_with("(anonymous)") && !is_conv_ty(t) && !is_op_ty(t) && open(t), || Term::V(val(Head::New {
        rooted: false, placement: None, ty: t.clone(), ctor: Some(vec![lit("1")]) }), Binary)));
    tt!("N value", |t| { let n = pure_name(t)?; when(!is_conv(n) && matches!(n.id, Unq::Named { .. }), || Term::V(val(Head::Name(n.clone())), Postfix)) });
    tt!("&N", |t| { let n = pure_name(t)?; when(!is_conv(n) && !n.full().starts_with("(anonymous)"), || Term::V(val(Head::Unary(sym("&"), val(Head::Name(n.clone())))), Unary)) });

    // Values made of values
    vv!("(V)", |v, p| when(!typelike(v), || Term::V(val(Head::Paren(v.clone())), Postfix)));
    vv!("(V < b)", |v2, p| when(p == Postfix && !has_greater(v2) && !has_comma(v2), || Term::V(val(Head::Paren(then(v2, After::Binary("<".into(), v("b"))))), Postfix)));
    vv!("(a < V)", |v2, p| when(p <= Unary && !ends_with_op(&v2.full()), || Term::V(val(Head::Paren(then(&v("a"), After::Binary("<".into(), v2.clone())))), Postfix)));
    for op in ["-", "+", "*", "&", "!", "++", "--"] {
        vv!(op, |v, p| when(p <= Unary
            && !(matches!(op, "-" | "+") && digit_first(v))
            // (x)-y is a cast to anyone who does not know x
            , || Term::V(val(Head::Unary(sym(op), v.clone())), Unary)));
    }
    vv!("(int)V", |v, p| when(p <= Unary, || Term::V(val(Head::Unary(Op::Conv(Box::new(legacy("int"))), v.clone())), Unary)));
    vv!("new(V) b", |v, p| when(in_list(v), || Term::V(val(Head::New { rooted: false, placement: Some(vec![v.clone()]), ty: t("b"), ctor: None }), Binary)));
    vv!("::new int(1, V)", |v, p| when(in_list(v), || Term::V(val(Head::New { rooted: true, placement: None, ty: legacy("int"), ctor: Some(vec![lit("1"), v.clone()]) }), Binary)));
    for op in BINOPS {
        if *op != "<" {
            vv!(op, |v2, p| when(p == Postfix, || Term::V(then(v2, After::Binary(op.to_string(), v("b"))), Binary)));
            // a & &::b reads as a reference type used as a scope
            vv!(op, |v2, p| when(p <= Unary && !(op.starts_with('&') && v2.full().contains("&::")), || Term::V(then(&v("a"), After::Binary(op.to_string(), v2.clone())), Binary)));
        }
    }
    let is_lit = |v: &Val| matches!(*v.head, Head::Lit(_)) && v.trailer.is_empty();
    vv!("V.m", |v, p| when(p == Postfix && !is_lit(v), || Term::V(then(v, After::Member(unq("m"))), Postfix)));
    vv!("V.m<b>", |v, p| when(p == Postfix && !is_lit(v), || Term::V(then(v, After::Member(tmpl("m", vec![TParam::T(t("b"))]))), Postfix)));
    vv!("V->m", |v2, p| when(p == Postfix && !is_lit(v2), || Term::V(then(v2, After::Binary("->".into(), v("m"))), Binary)));
    vv!("V()", |v, p| when(p == Postfix && !is_lit(v), || Term::V(then(v, After::Call(vec![])), Postfix)));
    vv!("V(1, 2)", |v, p| when(p == Postfix && !is_lit(v), || Term::V(then(v, After::Call(vec![lit("1"), lit("2")])), Postfix)));
    vv!("V[1]", |v, p| when(p == Postfix && !is_lit(v), || Term::V(then(v, After::Index(lit("1"))), Postfix)));
    vv!("V++", |v, p| when(p == Postfix && !is_lit(v), || Term::V(then(v, After::Postfix("++".into())), Postfix)));
    vv!("V--", |v, p| when(p == Postfix && !is_lit(v), || Term::V(then(v, After::Postfix("--".into())), Postfix)));
    vv!("V...", |v, p| when(p == Postfix && !is_lit(v), || Term::V(then(v, After::Ellipsis), Binary)));
    vv!("f(V).y", |v2, p| when(in_list(v2), || Term::V(then(&then(&v("f"), After::Call(vec![v2.clone()])), After::Member(unq("y"))), Postfix)));
    vv!("f(b, V)", |v2, p| when(in_list(v2), || Term::V(then(&v("f"), After::Call(vec![v("b"), v2.clone()])), Postfix)));
    vv!("f(V, b)", |v2, p| when(in_list(v2), || Term::V(then(&v("f"), After::Call(vec![v2.clone(), v("b")])), Postfix)));
    vv!("a[V]", |v2, p| when(in_list(v2), || Term::V(then(&v("a"), After::Index(v2.clone())), Postfix)));
    vv!("V ? a : b", |v2, p| when(p == Postfix, || Term::V(then(v2, After::Ternary(v("a"), v("b"))), Binary)));
    vv!("a ? V : b", |v2, p| when(p <= Unary, || Term::V(then(&v("a"), After::Ternary(v2.clone(), v("b"))), Binary)));
    vv!("a ? b : V", |v2, p| when(p <= Unary, || Term::V(then(&v("a"), After::Ternary(v("b"), v2.clone())), Binary)));
    vv!("(... + V)", |v2, p| when(p <= Unary, || Term::V(val(Head::Paren(then(&val(Head::Ellipsis), After::Binary("+".into(), v2.clone())))), Postfix)));
    vv!("(V && ...)", |v2, p| when(p == Postfix, || Term::V(val(Head::Paren(then(v2, After::Binary("&&".into(), val(Head::Ellipsis))))), Postfix)));
    r
}
