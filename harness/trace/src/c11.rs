//! C11: activity names and arguments
use crate::*;
use serde_json::Map;

const KNOWN: &str = include_str!("known.txt");

/// How an argument is to be shown
#[derive(Clone, Debug, PartialEq)]
pub enum Shown {
    Nothing,
    Str(String),
    Path(String),
    Entity(String),
    /// Symbol which is understood
    Parsed(String),
    /// Symbol which is understood or at least demangled
    Demangled,
    MaybeMangled(String),
    Loop,
    Module,
    BadPath,
    BadEntity,
    BadLoop,
    /// Some entity, or none at all
    AnyEntity,
    /// Some symbol, whatever it is called
    Any,
}

pub fn show(a: &ActivityArgument) -> Shown {
    match a {
        ActivityArgument::Nothing => Shown::Nothing,
        ActivityArgument::String(s) => Shown::Str(s.to_string()),
        ActivityArgument::FilePath(p) => Shown::Path(p.to_string()),
        ActivityArgument::CppEntity(e) => Shown::Entity(e.to_string()),
        ActivityArgument::Symbol(Symbol::Parsed(e)) => Shown::Parsed(e.to_string()),
        ActivityArgument::Symbol(Symbol::Demangled(_)) => Shown::Demangled,
        ActivityArgument::Symbol(Symbol::MaybeMangled(s)) => Shown::MaybeMangled(s.to_string()),
        ActivityArgument::UnnamedLoop => Shown::Loop,
        ActivityArgument::Module => Shown::Module,
    }
}

/// Details of every kind: text, what it is as a symbol, entity and path
struct Detail {
    text: String,
    symbol: Shown,
    entity: Option<Option<String>>,
    path: Option<String>,
    /// Unambiguous kind, for activities of unknown name
    kind: Option<Shown>,
}

fn details(more: usize) -> Vec<Detail> {
    let mut v = vec![];
    let mut syms: Vec<(String, Shown)> = vec![];
    for (mangled, text) in mangle(more) {
        syms.push((mangled, Shown::Parsed(text)));
    }
    for (m, t) in [
        ("main", "main"),
        ("__clang_call_terminate", "__clang_call_terminate"),
        ("_ZN1A1bES_", "A::b(A)"),
        ("_Z1fPKcS0_", "f(char const*, char const*)"),
        ("_ZNSt6vectorIiSaIiEE9push_backERKi", "std::vector<int, std::allocator<int>>::push_back(int const&)"),
        ("_ZN12_GLOBAL__N_11fEv", "(anonymous namespace)::f()"),
        ("_ZNK1AclEi", "A::operator()(int) const"),
        ("_ZN1AC2Ev", "A::A()"),
        ("_ZN1AD0Ev", "A::~A()"),
        ("_ZNK1AcvbEv", "A::operator bool() const"),
        ("_Z1fiz", "f(int, ...)"),
        ("_Z1hIJEEvT_", "h<>()"),
        ("_ZN1ArsEi", "A::operator>>(int)"),
        ("_ZN1AcmEi", "A::operator,(int)"),
        ("_ZplRK1AS1_", "operator+(A const&, A const&)"),
        ("_Z1fILi1EEvv", "f<1>()"),
        ("_Z1fILin1EEvv", "f<-1>()"),
        ("_Z1fILb1EEvv", "f<true>()"),
    ] {
        syms.push((m.into(), Shown::Parsed(t.into())));
    }
    for s in [
        "__cxx_global_var_init", "__cxx_global_var_init.1", "_GLOBAL__sub_I_x.cpp", "_Z", "_Zgarbage", "_ZN", "xyz", "a b", "é",
        "_Z1", "_Z99999999999999999999f", "mainly", "(main", "main)",
        // Found to be meaningless halfway through
        "_Z1fIiEvT0_", "_ZN1A1gIcEEiT_T1_",
    ] {
        syms.push((s.into(), Shown::MaybeMangled(s.into())));
    }
    for s in ["_ZTV1A", "_ZTS1A", "_ZZ1fvE1x", "_ZGVZ1fvE1x"] {
        syms.push((s.into(), Shown::Demangled));
    }
    let recognized = |t: &str| t.starts_with("_Z") || t == "main" || t == "__clang_call_terminate" || t.starts_with("__cxx_global_var_init") || t.starts_with("_GLOBAL__sub_I_");
    for (text, shown) in syms {
        let kind = recognized(&text).then(|| shown.clone());
        // Newer clangs add parentheses
        v.push(Detail { text: format!("({text})"), symbol: shown.clone(), entity: None, path: None, kind: kind.clone() });
        v.push(Detail { text, symbol: shown, entity: None, path: None, kind });
    }
    for (t, shown) in [
        ("A", "A"),
        ("A::b<int>", "A::b<int>"),
        ("a<b<c> >", "a<b<c>>"),
        ("f(int const*, ...)", "f(int const*, ...)"),
        ("std::vector<int, std::allocator<int>>::push_back", "std::vector<int, std::allocator<int>>::push_back"),
        ("operator<<", "operator<<"),
        ("(anonymous namespace)::f", "(anonymous namespace)::f"),
        ("(anonymous)", "(anonymous)"),
        ("f()::(lambda at /a/b.h:1:2)::operator()", "f()::(lambda at /a/b.h:1:2)::operator()"),
        ("long unsigned int", "unsigned long"),
    ] {
        let sym = if t == "(anonymous)" { "anonymous" } else { t };
        v.push(Detail { text: t.into(), symbol: Shown::MaybeMangled(sym.into()), entity: Some(Some(shown.into())), path: None, kind: t.chars().next().filter(|c| !c.is_uppercase()).map(|_| Shown::Entity(shown.into())) });
    }
    // Names of unknown activities' details are told from plain words by their punctuation
    for t in ["Foo<int>", "Foo<Bar>", "Foo_bar", "A_b", "Foo::Bar", "F()"] {
        v.push(Detail { text: t.into(), symbol: Shown::Any, entity: Some(Some(t.into())), path: None, kind: Some(Shown::Entity(t.into())) });
    }
    for t in ["(", ")", "()", "((", "))", ")(", "é)", "(é", "(a", "a)", "_Z1fv)", "(/a/b.h"] {
        v.push(Detail { text: t.into(), symbol: Shown::Any, entity: None, path: None, kind: None });
    }
    for t in ["a b c", "<", "f(", "A<", "1", "a::", "", " ", "é é", "\u{0}", "∞", "f(lambda at b.h:1:2)"] {
        v.push(Detail { text: t.into(), symbol: Shown::MaybeMangled(t.into()), entity: Some(None), path: None, kind: None });
    }
    for (t, p) in [
        ("/a/b.h", "/a/b.h"),
        ("/usr/include/c++/12/vector", "/usr/include/c++/12/vector"),
        ("/a/./b.h", "/a/b.h"),
        ("/a//b.h", "/a/b.h"),
        ("/a/x/../b.h", "/a/b.h"),
        ("/é/ .h", "/é/ .h"),
        ("/a/[module]", "/a/[module]"),
        ("/a/b.h)", "/a/b.h)"),
    ] {
        v.push(Detail { text: t.into(), symbol: Shown::MaybeMangled(t.into()), entity: Some(None), path: Some(p.into()), kind: Some(Shown::Path(p.into())) });
    }
    for t in ["[module]", "<unnamed loop>", "<unnamed loop", "[module] ", "X86 DAG->DAG Instruction Selection", "Loop Vectorization", "a.h", "./a.h"] {
        let kind = match t {
            "[module]" => Some(Shown::Module),
            "<unnamed loop>" => Some(Shown::Loop),
            "X86 DAG->DAG Instruction Selection" | "Loop Vectorization" => Some(Shown::Str(t.into())),
            _ => None,
        };
        v.push(Detail { text: t.into(), symbol: Shown::MaybeMangled(t.into()), entity: Some(None), path: None, kind });
    }
    v
}

/// Mangled functions along with their meaning
fn mangle(more: usize) -> Vec<(String, String)> {
    let base = [
        ("i", "int"), ("c", "char"), ("b", "bool"), ("m", "unsigned long"), ("a", "signed char"), ("d", "double"), ("1X", "X"),
        ("N1B1CE", "B::C"), ("1TIiE", "T<int>"), ("N1B1TIcdEE", "B::T<char, double>"), ("Dn", "std::nullptr_t"), ("PFviE", "void (*)(int)"),
    ];
    let mods: &[(&str, &str)] = &[("", ""), ("P", "*"), ("R", "&"), ("O", "&&"), ("PK", " const*"), ("RK", " const&"), ("PP", "**"), ("PV", " volatile*")];
    let mut types = vec![];
    for (m, t) in &base {
        for (mm, mt) in mods {
            if m.starts_with("PF") && !mm.is_empty() {
                continue;
            }
            types.push((format!("{mm}{m}"), format!("{t}{mt}")));
        }
    }
    let names: Vec<(&str, &str, &str)> = vec![
        ("1f", "f", ""),
        ("N1A1fE", "A::f", ""),
        ("NK1A1fE", "A::f", " const"),
        ("N1A1Z2fgE", "A::Z::fg", ""),
        ("N1TIdE1fE", "T<double>::f", ""),
        ("N1AplE", "A::operator+", ""),
        ("NK1AixE", "A::operator[]", " const"),
        ("N1AC1E", "A::A", ""),
        ("N1AD1E", "A::~A", ""),
        ("N12_GLOBAL__N_11fE", "(anonymous namespace)::f", ""),
    ];
    let mut r = vec![];
    for (nm, nt, suffix) in &names {
        r.push((format!("_Z{nm}v"), format!("{nt}(){suffix}")));
        for (a, at) in &types {
            r.push((format!("_Z{nm}{a}"), format!("{nt}({at}){suffix}")));
        }
    }
    for (i, (a, at)) in types.iter().enumerate() {
        for (j, (b, bt)) in types.iter().enumerate() {
            // Avoid substitutions
            let simple = |t: &str| !t.contains(|c: char| c.is_ascii_uppercase());
            if more > 0 && (simple(a) && simple(b) || i / mods.len() != j / mods.len() && !(a.contains('B') && b.contains('B') || a.contains('T') && b.contains('T'))) {
                r.push((format!("_Z1f{a}{b}"), format!("f({at}, {bt})")));
                r.push((format!("_Z1fI{a}EvT_{b}"), format!("f<{at}>({at}, {bt})")));
            }
        }
    }
    r.retain(|(m, _)| !m.contains("T_") || more > 1);
    r
}

fn load(events: &[Value]) -> Result<ClangTrace, ClangTraceParseError> {
    let mut s = String::from(r#"{"traceEvents":["#);
    for e in events {
        s.push_str(&e.to_string());
        s.push(',');
    }
    s.push_str(crate::c09::PROCESS);
    s.push_str("]}");
    ClangTrace::from_str(&s)
}
fn event(i: usize, name: &str, args: Option<Value>) -> Value {
    let mut v = json!({"ph": "X", "pid": 7, "tid": 7, "ts": 10 + 2 * i, "dur": 1, "name": name});
    if let Some(a) = args {
        v["args"] = a;
    }
    v
}

fn expected(ty: &str, d: Option<&Detail>) -> Result<Shown, ()> {
    let Some(d) = d else {
        return match ty {
            "Nothing" | "SymbolOpt" | "UnnamedLoopOpt" => Ok(Shown::Nothing),
            _ => Err(()),
        };
    };
    Ok(match ty {
        "Nothing" => return Err(()),
        "String" => Shown::Str(d.text.clone()),
        "FilePathOrModule" if d.text == "[module]" => Shown::Module,
        "FilePathOrModule" => match (&d.path, d.text.starts_with('/')) {
            (Some(p), _) => Shown::Path(p.clone()),
            (None, true) => unreachable!(),
            (None, false) => Shown::BadPath,
        },
        "CppEntity" => match &d.entity {
            Some(Some(e)) => Shown::Entity(e.clone()),
            Some(None) => Shown::BadEntity,
            None => Shown::AnyEntity,
        },
        "Symbol" | "SymbolOpt" => d.symbol.clone(),
        "UnnamedLoop" | "UnnamedLoopOpt" if d.text == "<unnamed loop>" => Shown::Loop,
        "UnnamedLoop" | "UnnamedLoopOpt" => Shown::BadLoop,
        _ => unreachable!("{ty}"),
    })
}

fn outcome(arg: Result<ParsedActivityArgument, ActivityArgumentError>, t: &ClangTrace) -> Shown {
    match arg {
        Ok(a) => show(&a.resolve(t)),
        Err(ActivityArgumentError::BadFilePath(_)) => Shown::BadPath,
        Err(ActivityArgumentError::BadCppEntity(_)) => Shown::BadEntity,
        Err(ActivityArgumentError::UnexpectedLoopName(_)) => Shown::BadLoop,
    }
}
fn same(got: &Shown, want: &Shown) -> bool {
    got == want
        || *want == Shown::Demangled && matches!(got, Shown::Parsed(_))
        || *want == Shown::Any && matches!(got, Shown::Parsed(_) | Shown::Demangled | Shown::MaybeMangled(_))
        || *want == Shown::AnyEntity && matches!(got, Shown::Entity(_) | Shown::BadEntity)
}

pub fn run() -> ! {
    let ck = Ck::new("C11");
    let ds = details(ck.pick(1, 2));
    let known: Vec<(&str, &str)> = KNOWN.lines().map(|l| l.split_once('\t').unwrap()).collect();
    if std::env::var_os("MC_REAL").is_some() {
        real::run(ck, &known);
        return ck.finish();
    }
    ck.note("known_activities", known.len());
    ck.note("details", ds.len());
    // Every known activity with every detail
    ck.par(&known, |_, (ty, name)| {
        let one = |what: String, args: Option<Value>, want: Result<Shown, ()>, raw: Option<&str>| {
            ck.distinct_states(1);
            ck.transitions(1);
            ck.case(&format!("{name} with {what}"), || {
                let follow = [("InlinerPass", "_Z1gi", Shown::Parsed("g(int)".into())), ("Source", "/r/s.h", Shown::Path("/r/s.h".into())), ("ParseClass", "K<L>", Shown::Entity("K<L>".into()))];
                let mut events = vec![event(0, name, args)];
                events.extend(follow.iter().enumerate().map(|(i, f)| event(i + 1, f.0, Some(json!({"detail": f.1})))));
                let mut t = match (load(&events), &want) {
                    (Ok(t), Ok(_)) => t,
                    (Ok(_), Err(())) => return Err("accepted".into()),
                    (Err(e), Ok(w)) => return Err(format!("rejected ({e}) instead of {w:?}")),
                    (Err(e), Err(())) => {
                        ensure!(e.to_string().contains(name), "the error does not mention the activity: {e}");
                        return Ok(());
                    }
                };
                let want = want.unwrap();
                let arg = {
                    let a = t.all_activities().find(|a| a.start() == 10.0).unwrap();
                    ensure!(a.activity().name() == *name, "named {}", a.activity().name());
                    ensure!(a.activity().id().to_string() == *name, "id displays as {}", a.activity().id());
                    ensure!(!matches!(a.activity().id(), ActivityId::UnknownActivity(_)), "not recognized");
                    let arg = a.activity().raw_argument().clone();
                    ensure!(arg.detail().as_deref() == raw, "detail turned into {:?}", arg.detail());
                    ensure!(format!("{:?}", arg.arg_type()) == *ty, "treated as {:?} instead of {ty}", arg.arg_type());
                    arg
                };
                let parsed = arg.clone().parse(&mut t);
                let got = outcome(parsed, &t);
                ensure!(same(&got, &want), "shown as {got:?} instead of {want:?}");
                // Again
                let parsed = arg.parse(&mut t);
                let again = outcome(parsed, &t);
                ensure!(again == got, "{got:?} became {again:?}");
                // What comes next is not affected
                for (i, f) in follow.iter().enumerate() {
                    let arg = t.all_activities().find(|a| a.start() == 12.0 + 2.0 * i as f64).unwrap().activity().raw_argument().clone();
                    let parsed = arg.parse(&mut t);
                    let next = outcome(parsed, &t);
                    ensure!(next == f.2, "{:?} is then shown as {next:?}", f.1);
                }
                Ok(())
            });
        };
        one("no args".into(), None, expected(ty, None), None);
        one("empty args".into(), Some(json!({})), expected(ty, None), None);
        for d in &ds {
            one(format!("{:?}", d.text), Some(json!({"detail": d.text})), expected(ty, Some(d)), Some(&d.text));
        }
        for bad in [json!(null), json!(1), json!(true), json!([]), json!(["_Z1fv"]), json!({}), json!({"detail": "x"})] {
            one(format!("detail {bad}"), Some(json!({"detail": bad})), Err(()), None);
        }
        for k in ["Detail", "name", "", "detail ", "count", "a", "zzz"] {
            for d in ["/a/b.h", "_Z1fv", "<unnamed loop>"] {
                one(format!("{k:?} instead of a detail"), Some(json!({k: d})), Err(()), None);
                let mut m = Map::new();
                m.insert("detail".into(), json!(d));
                m.insert(k.into(), json!(1));
                one(format!("{d} plus {k:?}"), Some(Value::Object(m.clone())), Err(()), None);
                m.insert("third".into(), json!(1));
                one(format!("{d} plus {k:?} and more"), Some(Value::Object(m)), Err(()), None);
            }
        }
    });
    // Unknown activities: neighbours of known names and others
    let mut unknown: Vec<String> = vec!["".into(), "X".into(), "é".into(), "UnknownActivity".into(), "Totally".into(), "ModuleCGSCCAnalysis".into()];
    for (_, n) in &known {
        unknown.push(n.to_lowercase());
        unknown.push(format!("{n} "));
        unknown.push(format!("{n}2"));
        unknown.push(n[1..].into());
    }
    unknown.retain(|u| !known.iter().any(|(_, n)| n == u));
    let step = ck.pick(37, 1);
    ck.note("unknown_activities", unknown.len());
    ck.par(&unknown, |i, name| {
        for (j, d) in ds.iter().map(Some).chain([None]).enumerate() {
            if (i + j) % step != 0 && i > 8 && d.is_some() {
                continue;
            }
            ck.distinct_states(1);
            ck.transitions(1);
            ck.case(&format!("unknown activity {name:?} with {:?}", d.map(|d| &d.text)), || {
                let mut t = load(&[event(0, name, d.map(|d| json!({"detail": d.text})))]).map_err(|e| format!("rejected: {e}"))?;
                let arg = {
                    let a = t.all_activities().next().unwrap();
                    ensure!(a.activity().name() == name, "named {}", a.activity().name());
                    ensure!(a.activity().id().to_string() == *name, "id displays as {}", a.activity().id());
                    a.activity().raw_argument().clone()
                };
                ensure!(arg.detail().as_deref() == d.map(|d| &d.text[..]), "detail turned into {:?}", arg.detail());
                let parsed = arg.parse(&mut t);
                let got = outcome(parsed, &t);
                match d {
                    None => ensure!(got == Shown::Nothing, "shown as {got:?}"),
                    Some(d) => {
                        if let Some(k) = &d.kind {
                            ensure!(same(&got, k), "taken for {got:?} instead of {k:?}");
                        }
                        // Whatever it is taken for must be true to it
                        let ok = match &got {
                            Shown::Str(s) => *s == d.text,
                            Shown::Path(p) => d.path.as_ref() == Some(p),
                            Shown::Entity(e) => d.entity.is_none() || d.entity == Some(Some(e.clone())),
                            Shown::Parsed(_) | Shown::Demangled | Shown::MaybeMangled(_) => same(&got, &d.symbol),
                            Shown::Loop => d.text == "<unnamed loop>",
                            Shown::Module => d.text == "[module]",
                            Shown::BadEntity => !matches!(d.entity, Some(Some(_))),
                            _ => false,
                        };
                        ensure!(ok, "taken for {got:?}");
                    }
                }
                Ok(())
            });
        }
    });
    // Several activities in one trace, their details resolved in any order
    let ty = |t: &str| known.iter().find(|(k, _)| *k == t).unwrap().1;
    let corpus: Vec<(&str, &Detail, Shown)> = {
        let mut v: Vec<(&str, &Detail, Shown)> = vec![];
        for d in &ds[ds.len() - 80..] {
            for t in ["String", "FilePathOrModule", "CppEntity", "Symbol", "UnnamedLoopOpt"] {
                let shown = expected(t, Some(d)).unwrap();
                let plain = matches!(shown, Shown::Str(_) | Shown::BadLoop | Shown::BadPath | Shown::BadEntity | Shown::Demangled | Shown::AnyEntity);
                let seen = v.iter().filter(|x| std::mem::discriminant(&x.2) == std::mem::discriminant(&shown)).count();
                if (!plain || seen < 2) && seen < ck.pick(7, 12) {
                    v.push((ty(t), d, shown));
                }
            }
        }
        v
    };
    ck.note("resolution_corpus", corpus.len());
    let firsts: Vec<usize> = (0..corpus.len()).collect();
    ck.par(&firsts, |_, &a| {
        for b in 0..corpus.len() {
            for c in 0..corpus.len() {
                let trio = [a, b, c];
                ck.distinct_states(1);
                ck.transitions(6);
                ck.case(&format!("{:?}", trio.map(|i| (&corpus[i].0, &corpus[i].1.text))), || {
                    let events: Vec<Value> = trio.iter().enumerate().map(|(i, x)| event(i, corpus[*x].0, Some(json!({"detail": corpus[*x].1.text})))).collect();
                    let mut t = load(&events).map_err(|e| e.to_string())?;
                    let raw: Vec<_> = t.all_activities().map(|a| a.activity().raw_argument().clone()).collect();
                    let mut parsed = vec![];
                    for (i, r) in raw.iter().enumerate() {
                        parsed.push((i, r.clone().parse(&mut t)));
                        // Earlier ones again
                        let again = raw[0].clone().parse(&mut t);
                        ensure!(again == parsed[0].1, "parsing twice gives two results");
                    }
                    for (i, p) in parsed {
                        let got = outcome(p, &t);
                        let want = &corpus[trio[i]].2;
                        ensure!(same(&got, want), "#{i} is shown as {got:?} instead of {want:?}");
                    }
                    Ok(())
                });
            }
        }
    });
    // Details with long lists may be too much, but are never fatal
    type Long = (&'static str, fn(usize) -> String, Option<fn(usize) -> String>);
    let long: &[Long] = &[
        ("FilePathOrModule", |n| format!("/{}a.h", "d/".repeat(n)), None),
        ("CppEntity", |n| format!("A<{}>", (0..n).map(|i| i.to_string()).collect::<Vec<_>>().join(", ")), None),
        ("CppEntity", |n| format!("f({})", vec!["int"; n].join(", ")), None),
        ("CppEntity", |n| format!("A<f({})>", vec!["1"; n].join(", ")), None),
        ("CppEntity", |n| format!("int{}", "*".repeat(n)), None),
        ("CppEntity", |n| format!("{}b", "a::".repeat(n)), None),
        ("CppEntity", |n| format!("(lambda at /{}a.h:1:2)", "d/".repeat(n)), None),
        ("Symbol", |n| format!("_Z1f{}", "i".repeat(n)), Some(|n| format!("f({})", vec!["int"; n].join(", ")))),
        ("String", |n| "x".repeat(n), None),
    ];
    let lengths = [1, 60, 63, 64, 65, 200, 254, 255, 256, 257, 300, 1000, 1022, 1023, 1024, 1025, 2100];
    let cases: Vec<(&Long, usize)> = long.iter().flat_map(|l| lengths.map(|n| (l, n))).collect();
    ck.par(&cases, |_, ((t, make, shown), n)| {
        let (text, n) = (make(*n), *n);
        let shown = shown.map_or_else(|| text.clone(), |f| f(n));
        ck.distinct_states(1);
        ck.transitions(3);
        ck.case(&format!("{} with a list of {n}", make(2)), || {
            let events: Vec<Value> =
                [("ParseClass", "K<L>"), (ty(t), &text), ("ParseClass", "K<L>"), ("Source", "/r/s.h"), (ty(t), &text), ("InlinerPass", "_Z1gi")]
                    .iter()
                    .enumerate()
                    .map(|(i, (name, d))| event(i, name, Some(json!({"detail": d}))))
                    .collect();
            let mut t = load(&events).map_err(|e| e.to_string())?;
            let raw: Vec<_> = t.all_activities().map(|a| a.activity().raw_argument().clone()).collect();
            let mut all = vec![];
            for r in &raw {
                let parsed = r.clone().parse(&mut t);
                all.push(outcome(parsed, &t));
            }
            ensure!(raw[1].detail().as_deref() == Some(&text), "the detail is altered");
            let ok = match &all[1] {
                Shown::Str(s) | Shown::Path(s) | Shown::Entity(s) | Shown::Parsed(s) => *s == shown,
                Shown::BadPath | Shown::BadEntity => n > 60,
                Shown::Demangled => n > 200,
                _ => false,
            };
            ensure!(ok, "shown as {:?}", all[1]);
            ensure!(all[4] == all[1], "shown differently the second time");
            let k = Shown::Entity("K<L>".into());
            ensure!(all[0] == k && all[2] == k && all[3] == Shown::Path("/r/s.h".into()) && all[5] == Shown::Parsed("g(int)".into()), "others are disturbed: {:?}", [&all[0], &all[2], &all[3], &all[5]]);
            Ok(())
        });
    });
    real::run(ck, &known);
    ck.finish()
}
