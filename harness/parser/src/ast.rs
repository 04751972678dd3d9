//! Independent model of a C++ name: what it consists of, and how it is spelled
//! in full and when everything nested deeper than some level is elided.

use cpparser::subparsers::{
    anonymous::AnonymousEntityView as AnonV,
    functions::FunctionSignatureView,
    names::{
        scopes::{IdExpressionView, NestedNameSpecifierView},
        unqualified::UnqualifiedIdView as UnqV,
    },
    operators::{usage::NewExpressionView, DisplayContext, OperatorView},
    templates::{TemplateParameterView, TemplateParametersView},
    types::{
        declarators::DeclOperatorView as DeclV, qualifiers::Reference,
        specifiers::SimpleTypeView, TypeView,
    },
    values::{AfterValueView as AfterV, ValueHeaderView as HeadV, ValueView},
};

#[derive(Clone, Debug, PartialEq)]
pub struct Ty {
    pub attrs: Vec<Val>,
    pub cv: String,
    pub simple: Simple,
    pub decl: Vec<Decl>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Simple {
    Name(Name),
    Legacy(String),
    Auto(u32),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Name {
    pub path: Path,
    pub id: Unq,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Path {
    pub rooted: bool,
    pub scopes: Vec<Scope>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Scope {
    pub id: Unq,
    pub sig: Option<Sig>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Unq {
    Named { dtor: bool, id: String, tp: Option<Tps> },
    Op { op: Op, tp: Option<Tps> },
    Decltype(Box<Val>),
    Anon(String),
    Lambda(Box<Sig>, u32),
}
/// None is `<, void>`
pub type Tps = Option<Vec<TParam>>;
#[derive(Clone, Debug, PartialEq)]
pub enum TParam {
    T(Ty),
    V(Val),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    /// Spelled directly after the operator keyword
    Sym(String),
    /// Spelled after the operator keyword and a space
    Word(String),
    Conv(Box<Ty>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Decl {
    Cv(String),
    Ptr { path: Path, cv: String, restrict: bool },
    Ref(usize),
    Array(Option<Val>),
    Fn(Sig),
    Paren(Vec<Decl>),
    Vector(Val),
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Sig {
    pub abi: Option<String>,
    pub params: Vec<Ty>,
    pub variadic: bool,
    pub cv: String,
    pub refs: usize,
    pub noexcept: Option<Option<Box<Val>>>,
    pub ret: Option<Box<Ty>>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Val {
    pub head: Box<Head>,
    pub trailer: Vec<After>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Head {
    Lit(String),
    Paren(Val),
    Unary(Op, Val),
    New { rooted: bool, placement: Option<Vec<Val>>, ty: Ty, ctor: Option<Vec<Val>> },
    Name(Name),
    Ellipsis,
    SizeOf(Ty),
    DeclVal(Ty),
}
#[derive(Clone, Debug, PartialEq)]
pub enum After {
    Index(Val),
    Call(Vec<Val>),
    Binary(String, Val),
    Ternary(Val, Val),
    Member(Unq),
    Postfix(String),
    Ellipsis,
}

// ---------------------------------------------------------------- spelling

/// Spelling with everything nested deeper than `d` list levels elided
pub trait Spell {
    fn spell(&self, d: usize, o: &mut String);
    fn at(&self, d: usize) -> String {
        let mut o = String::new();
        self.spell(d, &mut o);
        o
    }
    fn full(&self) -> String {
        self.at(usize::MAX)
    }
}

fn list<T: Spell>(items: &[T], open: &str, sep: &str, close: &str, d: usize, o: &mut String) {
    o.push_str(open);
    if d == 0 {
        if !items.is_empty() {
            o.push('…');
        }
    } else {
        for (i, item) in items.iter().enumerate() {
            if i > 0 {
                o.push_str(sep);
            }
            item.spell(d.saturating_sub(1), o);
        }
    }
    o.push_str(close);
}

impl Spell for Ty {
    fn spell(&self, d: usize, o: &mut String) {
        if !self.attrs.is_empty() {
            o.push_str("__attribute__(");
            list(&self.attrs, "(", ", ", ")", d, o);
            o.push_str(") ");
        }
        if !self.cv.is_empty() {
            o.push_str(&self.cv);
            o.push(' ');
        }
        match &self.simple {
            Simple::Name(n) => n.spell(d, o),
            Simple::Legacy(s) => o.push_str(s),
            Simple::Auto(n) => o.push_str(&format!("auto:{n}")),
        }
        list(&self.decl, "", "", "", d, o);
    }
}
impl Spell for Name {
    fn spell(&self, d: usize, o: &mut String) {
        self.path.spell(d, o);
        self.id.spell(d, o);
    }
}
impl Spell for Path {
    fn spell(&self, d: usize, o: &mut String) {
        if d == 0 && !self.scopes.is_empty() {
            o.push_str("…::");
            return;
        }
        if self.rooted {
            o.push_str("::");
        }
        list(&self.scopes, "", "", "", d, o);
    }
}
impl Spell for Scope {
    fn spell(&self, d: usize, o: &mut String) {
        self.id.spell(d, o);
        if let Some(sig) = &self.sig {
            sig.spell(d, o);
        }
        o.push_str("::");
    }
}
fn tps(tp: &Option<Tps>, d: usize, o: &mut String) {
    match tp {
        None => {}
        Some(None) => o.push_str(if d == 0 { "<…>" } else { "<, void>" }),
        Some(Some(l)) => list(l, "<", ", ", ">", d, o),
    }
}
impl Spell for Unq {
    fn spell(&self, d: usize, o: &mut String) {
        match self {
            Unq::Named { dtor, id, tp } => {
                if *dtor {
                    o.push('~');
                }
                o.push_str(id);
                tps(tp, d, o);
            }
            Unq::Op { op, tp } => {
                o.push_str("operator");
                match op {
                    Op::Sym(s) => o.push_str(s),
                    Op::Word(s) => {
                        o.push(' ');
                        o.push_str(s)
                    }
                    Op::Conv(t) => {
                        o.push(' ');
                        t.spell(d, o)
                    }
                }
                tps(tp, d, o);
            }
            Unq::Decltype(v) => {
                o.push_str("decltype(");
                v.spell(d, o);
                o.push(')');
            }
            Unq::Anon(s) => o.push_str(s),
            Unq::Lambda(sig, id) => {
                o.push_str("{lambda");
                sig.spell(d, o);
                o.push_str(&format!("#{id}}}"));
            }
        }
    }
}
impl Spell for TParam {
    fn spell(&self, d: usize, o: &mut String) {
        match self {
            TParam::T(t) => t.spell(d, o),
            TParam::V(v) => v.spell(d, o),
        }
    }
}
impl Spell for Decl {
    fn spell(&self, d: usize, o: &mut String) {
        match self {
            Decl::Cv(cv) => {
                o.push(' ');
                o.push_str(cv)
            }
            Decl::Ptr { path, cv, restrict } => {
                if path.rooted || !path.scopes.is_empty() {
                    o.push(' ');
                    path.spell(d, o);
                }
                o.push('*');
                if !cv.is_empty() {
                    o.push(' ');
                    o.push_str(cv);
                }
                if *restrict {
                    o.push_str(" restrict");
                }
            }
            Decl::Ref(n) => o.push_str(&"&".repeat(*n)),
            Decl::Array(v) => {
                o.push('[');
                if let Some(v) = v {
                    v.spell(d, o);
                }
                o.push(']');
            }
            Decl::Fn(sig) => sig.spell(d, o),
            Decl::Paren(l) => {
                o.push_str(" (");
                list(l, "", "", "", d, o);
                o.push(')');
            }
            Decl::Vector(v) => {
                o.push_str(" __vector(");
                v.spell(d, o);
                o.push(')');
            }
        }
    }
}
impl Spell for Sig {
    fn spell(&self, d: usize, o: &mut String) {
        if let Some(abi) = &self.abi {
            o.push_str(&format!("[abi:{abi}]"));
        }
        o.push('(');
        if d == 0 {
            if !self.params.is_empty() || self.variadic {
                o.push('…');
            }
        } else {
            list(&self.params, "", ", ", "", d, o);
            if self.variadic {
                o.push_str(if self.params.is_empty() { "..." } else { ", ..." });
            }
        }
        o.push(')');
        if !self.cv.is_empty() {
            o.push(' ');
            o.push_str(&self.cv);
        }
        if self.refs > 0 {
            o.push(' ');
            o.push_str(&"&".repeat(self.refs));
        }
        if let Some(n) = &self.noexcept {
            o.push_str(" noexcept");
            if let Some(v) = n {
                o.push('(');
                v.spell(d, o);
                o.push(')');
            }
        }
        if let Some(ret) = &self.ret {
            o.push_str(" -> ");
            ret.spell(d, o);
        }
    }
}
impl Spell for Val {
    fn spell(&self, d: usize, o: &mut String) {
        match &*self.head {
            Head::Lit(s) => o.push_str(s),
            Head::Paren(v) => {
                o.push('(');
                v.spell(d, o);
                o.push(')');
            }
            Head::Unary(op, v) => {
                match op {
                    Op::Sym(s) => o.push_str(s),
                    Op::Word(s) => {
                        o.push_str(s);
                        o.push(' ')
                    }
                    Op::Conv(t) => {
                        o.push('(');
                        t.spell(d, o);
                        o.push(')');
                    }
                }
                // Maximal munch must not turn two operators into another one
                let mut rest = String::new();
                v.spell(d, &mut rest);
                if let Op::Sym(s) = op {
                    if matches!(s.as_bytes().last(), Some(b'+' | b'-' | b'&'))
                        && s.as_bytes().last() == rest.as_bytes().first()
                    {
                        o.push(' ');
                    }
                }
                o.push_str(&rest);
            }
            Head::New { rooted, placement, ty, ctor } => {
                if *rooted {
                    o.push_str("::");
                }
                o.push_str("new");
                if let Some(p) = placement {
                    list(p, "(", ", ", ")", d, o);
                }
                o.push(' ');
                ty.spell(d, o);
                if let Some(c) = ctor {
                    list(c, "(", ", ", ")", d, o);
                }
            }
            Head::Name(n) => n.spell(d, o),
            Head::Ellipsis => o.push_str("..."),
            Head::SizeOf(t) => {
                o.push_str("sizeof(");
                t.spell(d, o);
                o.push(')');
            }
            Head::DeclVal(t) => {
                o.push_str("declval(");
                t.spell(d, o);
                o.push(')');
            }
        }
        list(&self.trailer, "", "", "", d, o);
    }
}
impl Spell for After {
    fn spell(&self, d: usize, o: &mut String) {
        match self {
            After::Index(v) => {
                o.push('[');
                v.spell(d, o);
                o.push(']');
            }
            After::Call(l) => list(l, "(", ", ", ")", d, o),
            After::Binary(op, v) => {
                if op.starts_with("->") {
                    o.push_str(op);
                } else {
                    o.push_str(&format!(" {op} "));
                }
                v.spell(d, o);
            }
            After::Ternary(a, b) => {
                o.push_str(" ? ");
                a.spell(d, o);
                o.push_str(" : ");
                b.spell(d, o);
            }
            After::Member(u) => {
                o.push('.');
                u.spell(d, o);
            }
            After::Postfix(s) => o.push_str(s),
            After::Ellipsis => o.push_str("..."),
        }
    }
}

// ---------------------------------------------------- what the parser reports

/// Text of an operator, as shown when it is used
fn op_text(o: &OperatorView<'_>, ctx: DisplayContext) -> String {
    struct D<'a, 'b>(&'a OperatorView<'b>, DisplayContext);
    impl std::fmt::Display for D<'_, '_> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            self.0.display(f, &cpparser::display::DisplayState::default(), self.1)
        }
    }
    D(o, ctx).to_string()
}
fn op(o: &OperatorView<'_>) -> Op {
    match o {
        OperatorView::Conversion(t) => Op::Conv(Box::new(ty(t))),
        _ => {
            let text = op_text(o, DisplayContext::Declaration);
            let text = text.strip_prefix("operator").unwrap_or(&text);
            match text.strip_prefix(' ') {
                Some(w) => Op::Word(w.into()),
                None => Op::Sym(text.into()),
            }
        }
    }
}
fn vals<'a, 'b: 'a>(l: impl Iterator<Item = ValueView<'b>> + 'a) -> Vec<Val> {
    l.map(|v| val(&v)).collect()
}
pub fn ty(t: &TypeView<'_>) -> Ty {
    let attrs = t.attributes();
    let spec = t.type_specifier();
    let simple = match spec.simple_type() {
        SimpleTypeView::IdExpression(i) => Simple::Name(name(&i)),
        SimpleTypeView::LegacyName(l) => Simple::Legacy(l.to_string()),
        SimpleTypeView::LibibertyAuto(n) => Simple::Auto(n),
    };
    let decl = t.declarator();
    Ty {
        attrs: vals(attrs.iter()),
        cv: spec.cv().to_string(),
        simple,
        decl: decl.iter().map(|d| decl_op(&d)).collect(),
    }
}
fn name(n: &IdExpressionView<'_>) -> Name {
    Name { path: path(&n.path()), id: unq(&n.id()) }
}
fn path(p: &NestedNameSpecifierView<'_>) -> Path {
    Path {
        rooted: p.is_rooted(),
        scopes: p
            .scopes()
            .iter()
            .map(|s| Scope {
                id: unq(&s.id()),
                sig: s.function_signature().map(|s| sig(&s)),
            })
            .collect(),
    }
}
fn tparams(t: &TemplateParametersView<'_>) -> Tps {
    t.0.as_ref().map(|l| {
        l.iter()
            .map(|p| match p {
                TemplateParameterView::TypeLike(t) => TParam::T(ty(&t)),
                TemplateParameterView::ValueLike(v) => TParam::V(val(&v)),
            })
            .collect()
    })
}
fn unq(u: &UnqV<'_>) -> Unq {
    match u {
        UnqV::Named { is_destructor, id, template_parameters } => Unq::Named {
            dtor: *is_destructor,
            id: id.to_string(),
            tp: template_parameters.as_ref().map(tparams),
        },
        UnqV::Operator { operator, template_parameters } => Unq::Op {
            op: op(operator),
            tp: template_parameters.as_ref().map(tparams),
        },
        UnqV::Decltype(v) => Unq::Decltype(Box::new(val(v))),
        UnqV::Anonymous(AnonV::LibibertyLambda(l)) => {
            Unq::Lambda(Box::new(sig(&l.signature())), l.id())
        }
        UnqV::Anonymous(a) => Unq::Anon(a.to_string()),
    }
}
fn refs(r: Reference) -> usize {
    match r {
        Reference::None => 0,
        Reference::LValue => 1,
        Reference::RValue => 2,
    }
}
fn sig(s: &FunctionSignatureView<'_>) -> Sig {
    Sig {
        abi: s.abi().map(|a| a.to_string()),
        params: s.parameters().iter().map(|t| ty(&t)).collect(),
        variadic: s.variadic(),
        cv: s.cv().to_string(),
        refs: refs(s.reference()),
        noexcept: s.noexcept().map(|n| n.map(|v| Box::new(val(&v)))),
        ret: s.trailing_return().map(|t| Box::new(ty(&t))),
    }
}
fn decl_op(d: &DeclV<'_>) -> Decl {
    match d {
        DeclV::ConstVolatile(cv) => Decl::Cv(cv.to_string()),
        DeclV::Pointer { path: p, cv, restrict } => Decl::Ptr {
            path: path(p),
            cv: cv.to_string(),
            restrict: *restrict,
        },
        DeclV::Reference(r) => Decl::Ref(refs(*r)),
        DeclV::Array(v) => Decl::Array(v.as_ref().map(val)),
        DeclV::Function(s) => Decl::Fn(sig(s)),
        DeclV::Parenthesized(l) => Decl::Paren(l.iter().map(|d| decl_op(&d)).collect()),
        DeclV::VectorSize(v) => Decl::Vector(val(v)),
    }
}
fn new(n: &NewExpressionView<'_>) -> Head {
    Head::New {
        rooted: n.rooted(),
        placement: n.placement().map(|l| vals(l.iter())),
        ty: ty(&n.ty()),
        ctor: n.constructor().map(|l| vals(l.iter())),
    }
}
pub fn val(v: &ValueView<'_>) -> Val {
    let head = match v.header() {
        HeadV::Literal(l) => Head::Lit(l.to_string()),
        HeadV::Parenthesized(v) => Head::Paren(val(&v)),
        HeadV::UnaryOp(o, v) => Head::Unary(op(&o), val(&v)),
        HeadV::NewExpression(n) => new(&n),
        HeadV::IdExpression(i) => Head::Name(name(&i)),
        HeadV::Ellipsis => Head::Ellipsis,
        HeadV::SizeOf(t) => Head::SizeOf(ty(&t)),
        HeadV::DeclVal(t) => Head::DeclVal(ty(&t)),
    };
    let trailer = v
        .trailer()
        .iter()
        .map(|a| match a {
            AfterV::ArrayIndex(v) => After::Index(val(&v)),
            AfterV::FunctionCall(l) => After::Call(vals(l.iter())),
            AfterV::BinaryOp(o, v) => After::Binary(
                op_text(&o, DisplayContext::BinaryUsage).trim().to_owned(),
                val(&v),
            ),
            AfterV::TernaryOp(a, b) => After::Ternary(val(&a), val(&b)),
            AfterV::MemberAccess(u) => After::Member(unq(&u)),
            AfterV::PostfixOp(o) => {
                After::Postfix(op_text(&o, DisplayContext::PostfixUsage))
            }
            AfterV::Ellipsis => After::Ellipsis,
        })
        .collect();
    Val { head: Box::new(head), trailer }
}
