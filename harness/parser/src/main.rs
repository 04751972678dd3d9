//! C04-C08: C++ name parser
mod ast;
mod c29;
mod gen;
mod ws;
use ast::*;
use cpparser::{
    display::{CustomDisplay, DisplayState},
    EntityKey, EntityParser, EntityView,
};
use gen::*;
use std::io::BufRead;
use vc::{ensure, Ck, Outcome};

struct Disp<'a, T: CustomDisplay>(&'a T, usize);
impl<T: CustomDisplay> std::fmt::Display for Disp<'_, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.display_impl(f, &DisplayState::new(self.1))
    }
}
fn at(v: &EntityView, d: usize) -> String {
    Disp(v, d).to_string()
}

fn probe() {
    let _ck = Ck::new("PROBE");
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let t = std::time::Instant::now();
        let r = vc::quietly(|| {
            let mut p = EntityParser::new();
            match p.parse_entity(&line) {
                Ok(k) => {
                    let v = p.entity(k);
                    let s = format!("{v}");
                    let d: Vec<_> = (0..=v.recursion_depth()).map(|d| at(&v, d)).collect();
                    drop(v);
                    let again = p.parse_entity(&s).map(|k2| k2 == k).map_err(|e| e.to_string());
                    format!("{} depths={d:?} {again:?}", if s == line { "=".into() } else { s })
                }
                Err(e) => format!("ERR {e:?}"),
            }
        });
        println!("{line}\n     {} [{:?}]", match r { Ok(s) => s, Err(p) => format!("PANIC {p}") }, t.elapsed());
    }
}

/// Call `f` on every name of the bounded grammar: every atom inside of every
/// chain of up to `full` contexts, and a few atoms inside longer chains.
fn names(ck: &'static Ck, full: usize, deep: usize, f: impl Fn(&Ty) + Sync) {
    fn grow(ctxs: &[Ctx], depth: usize, term: &Term, f: &(impl Fn(&Ty) + Sync)) {
        if depth == 0 {
            if let Term::T(t) = term {
                f(t)
            }
            return;
        }
        for c in ctxs {
            if let Some(next) = (c.f)(term) {
                grow(ctxs, depth - 1, &next, f);
            }
        }
    }
    let ctxs = contexts();
    ck.note("contexts", ctxs.len());
    ck.note("atoms", atoms().len());
    ck.note("combined_atoms", products().len());
    for depth in 0..=deep {
        let mut atoms = if depth <= full { atoms() } else { few_atoms() };
        if depth < full {
            atoms.extend(products());
        }
        // Parallelize over (atom, first context)
        if depth == 0 {
            for a in &atoms {
                grow(&ctxs, 0, a, &f);
            }
            continue;
        }
        let firsts: Vec<Term> = atoms
            .iter()
            .flat_map(|a| ctxs.iter().filter_map(|c| (c.f)(a)))
            .collect();
        ck.par(&firsts, |_, t| grow(&ctxs, depth - 1, t, &f));
    }
    ck.note("chain_depth_all_atoms", full);
    ck.note("chain_depth_some_atoms", deep);
}

/// A few names of several shapes
fn few() -> Vec<Ty> {
    let mut r = vec![];
    let ctxs = contexts();
    for a in few_atoms() {
        for (i, c) in ctxs.iter().enumerate() {
            if i % 16 == 3 {
                if let Some(Term::T(t)) = (c.f)(&a) {
                    r.push(t);
                }
            }
        }
    }
    r.retain(|t| !t.full().starts_with('-'));
    r
}

fn explore(ck: &'static Ck, full: usize, deep: usize, f: impl Fn(&Ty, &str) -> Outcome + Sync) {
    names(ck, full, deep, |t| {
        let text = t.full();
        ck.transitions(1);
        if ck.state(&text) {
            if text.len() % 17 == 3 {
                ck.sample(|| serde_json::json!(text));
            }
            ck.case(&text, || f(t, &text));
        }
    });
}

fn parse(p: &mut EntityParser, s: &str) -> Result<EntityKey, String> {
    p.parse_entity(s).map_err(|e| format!("{s:?} is rejected at {:?}", e.input))
}

/// Names with a list of n elements of each kind, and the lengths of list that
/// must at least be supported
type LongName = (&'static str, usize, fn(usize) -> String);
const LONG: &[LongName] = &[
    ("template parameters", 1000, |n| format!("A<{}>", numbers(n))),
    ("equal template parameters", 1000, |n| format!("A<{}>", vec!["int"; n].join(", "))),
    ("function parameters", 250, |n| format!("f({})", vec!["int*"; n].join(", "))),
    ("function pointer parameters", 250, |n| format!("void (*)({})", vec!["int"; n].join(", "))),
    ("call arguments", 60, |n| format!("A<f({})>", numbers(n))),
    ("attribute arguments", 60, |n| format!("__attribute__(({})) int", numbers(n))),
    ("pointers", 250, |n| format!("int{}", "*".repeat(n))),
    ("array dimensions", 250, |n| format!("int{}", "[2]".repeat(n))),
    ("scopes", 250, |n| format!("{}x", "a::".repeat(n))),
    ("template scopes", 250, |n| format!("{}x", "a<int>::".repeat(n))),
    ("postfix operators", 60, |n| format!("A<x{}>", "++".repeat(n))),
    ("subscripts", 60, |n| format!("A<x{}>", "[1]".repeat(n))),
    ("directories", 250, |n| format!("(lambda at /{}a.cpp:1:2)", "d/".repeat(n))),
    ("identifier characters", 3000, |n| "a".repeat(n)),
];

fn numbers(n: usize) -> String {
    (0..n).map(|i| i.to_string()).collect::<Vec<_>>().join(", ")
}

/// Lengths around those where fields of usual sizes overflow
fn long_lengths(max: usize) -> Vec<usize> {
    let mut all: Vec<usize> = (1..=40).chain((3..).map(|b| 1usize << b).take_while(|p| *p <= max).flat_map(|p| p - 4..=p + 4)).collect();
    all.extend([60, 250, 1000, 3000]);
    all.sort();
    all.dedup();
    all
}

/// What can be around a long list
const LONG_CTX: &[(&str, &str)] = &[("", ""), ("B<", ">"), ("B<int, ", ", C<int>>"), ("g(", ")"), ("B<C<", ">, int>::D")];

fn c05() -> ! {
    let ck = Ck::new("C05");
    explore(ck, 3, ck.pick(3, 4), |_, text| {
        let mut p = EntityParser::new();
        let k = parse(&mut p, text)?;
        let shown = p.entity(k).to_string();
        ensure!(shown == text, "displayed as {shown:?}");
        let k2 = parse(&mut p, &shown)?;
        ensure!(k2 == k, "parsing the displayed name yields another entity");
        ensure!(p.entity(k2).to_string() == text, "second display differs");
        Ok(())
    });
    // Long lists
    let cases: Vec<(&LongName, usize)> =
        LONG.iter().flat_map(|l| long_lengths(1024).into_iter().filter(|n| *n <= l.1).map(move |n| (l, n))).collect();
    ck.par(&cases, |_, ((kind, _, name), n)| {
        for (open, close) in LONG_CTX {
            let text = format!("{open}{}{close}", name(*n));
            ck.state(&text);
            ck.transitions(1);
            ck.case(&format!("{n} {kind} in {open}...{close}"), || {
                let mut p = EntityParser::new();
                let k = parse(&mut p, &text)?;
                let shown = p.entity(k).to_string();
                ensure!(shown == text, "displayed as {shown:?}");
                ensure!(p.entity(k).bounded_display(u16::MAX) == text, "bounded display differs");
                ensure!(parse(&mut p, &text)? == k, "parsing it again yields another entity");
                Ok(())
            });
        }
    });
    // All orders of the keywords that make up C-style types
    let words =
        ["short", "int", "long", "unsigned", "signed", "char", "float", "double", "__int128", "_Complex"];
    vc::sequences(words.len(), 2..=5, |seq| {
        let ws: Vec<&str> = seq.iter().map(|i| words[*i]).collect();
        for (open, close) in [("", ""), ("A<", ">"), ("f(", ")"), ("const ", "*")] {
            let text = format!("{open}{}{close}", ws.join(" "));
            ck.transitions(1);
            ck.state(&text);
            ck.case(&text, || {
                let mut p = EntityParser::new();
                match (legacy_canonical(&ws), p.parse_entity(&text)) {
                    (None, Err(_)) => {}
                    (Some(c), Ok(k)) => {
                        let want = format!("{open}{c}{close}");
                        let got = p.entity(k).to_string();
                        ensure!(got == want, "displayed as {got:?}, expected {want:?}");
                    }
                    (None, Ok(k)) => return Err(format!("accepted as {:?}", p.entity(k).to_string())),
                    (Some(_), Err(_)) => return Err("rejected".into()),
                }
                Ok(())
            });
        }
    });
    ck.finish()
}

fn view_ast(v: &EntityView) -> Ty {
    ast::ty(v.0.as_ref().expect("read as the unknown entity"))
}

/// C04: independence from parsing history
fn c04() -> ! {
    let ck = Ck::new("C04");
    // Groups of spellings of one entity
    let groups: &[&[&str]] = &[
        &["a"],
        &["b"],
        &["::a"],
        &["a::b", "class a::b"],
        &["a<b>", "struct a< b >"],
        &["a<b, 1>", "a<b,1>", "a<b, 1ul>"],
        &["a<b>::b"],
        &["a<b *>", "a<b*>"],
        &["a<(b)1>"],
        &["a<, void>"],
        &["a<>"],
        &["f(a)", "f( a )"],
        &["f(a, b)"],
        &["f(a, b, ...) const"],
        &["f(a)::b"],
        &["int"],
        &["const int"],
        &["b (*)(a)"],
        &["b[1]", "b [1]"],
        &["b[a]"],
        &["decltype(a + 1)", "decltype(a+1)"],
        &["a::operator+"],
        &["{lambda(a)#1}"],
        &["{lambda(a)#2}"],
        &["(lambda at /a/b.cpp:1:2)"],
        &["(lambda at /a/c.cpp:1:2)"],
        &["<unknown>"],
    ];
    let rejected: &[&str] = &[
        "", "a<b", "a<b, 1, c::", "f(a, b", "f(a, b) junk", "b[1", "decltype(a + ", "a::(", "é", "{lambda(a)#",
        "(lambda at a/b.cpp:1:2)", "(lambda at /z/y.cpp:1:2", "x<y<z, w(v)>", "b (*)(a",
    ];
    #[derive(Clone)]
    enum Act {
        Good(usize, String),
        Bad(String),
        /// Parse many unrelated names, so that storage has to grow
        Bulk,
    }
    let mut acts = vec![Act::Bulk];
    for (g, l) in groups.iter().enumerate() {
        acts.extend(l.iter().map(|s| Act::Good(g, s.to_string())));
    }
    acts.extend(rejected.iter().map(|s| Act::Bad(s.to_string())));
    let shown: Vec<String> = groups
        .iter()
        .map(|l| {
            let mut p = EntityParser::new();
            match parse(&mut p, l[0]) {
                Ok(k) => p.entity(k).to_string(),
                Err(e) => {
                    ck.violation(l[0], &e);
                    ck.finish()
                }
            }
        })
        .collect();
    for (i, a) in shown.iter().enumerate() {
        for b in &shown[..i] {
            if a == b {
                ck.violation(a, "two different entities are displayed identically");
            }
        }
    }
    let depth = ck.pick(3, 4);
    ck.note("corpus", acts.len());
    ck.note("depth", depth);
    let firsts: Vec<usize> = (0..acts.len() * acts.len()).collect();
    ck.par(&firsts, |_, first| {
        vc::sequences(acts.len(), 0..=depth - 2, |tail| {
            let seq: Vec<usize> = [first / acts.len(), first % acts.len()].iter().chain(tail).copied().collect();
            let desc = || {
                seq.iter()
                    .map(|&i| match &acts[i] {
                        Act::Good(_, s) | Act::Bad(s) => format!("{s:?}"),
                        Act::Bulk => "BULK".into(),
                    })
                    .collect::<Vec<_>>()
                    .join(" ; ")
            };
            // Bulk parsing is slow, only do it once per sequence
            if seq.iter().filter(|&&i| matches!(acts[i], Act::Bulk)).count() > 1 {
                return;
            }
            ck.state(&seq);
            ck.transitions(seq.len() as u64);
            let d = desc();
            ck.sample(|| serde_json::json!(d));
            ck.case(&d, || {
                let mut p = EntityParser::new();
                let mut known: Vec<Option<EntityKey>> = vec![None; groups.len()];
                for &i in &seq {
                    match &acts[i] {
                        Act::Good(g, s) => {
                            let k = parse(&mut p, s)?;
                            match known[*g] {
                                Some(old) => ensure!(old == k, "{s:?} is a different entity than before"),
                                None => {
                                    for (h, other) in known.iter().enumerate() {
                                        ensure!(*other != Some(k), "{s:?} is the same entity as {:?}", shown[h]);
                                    }
                                    known[*g] = Some(k);
                                }
                            }
                        }
                        Act::Bad(s) => {
                            ensure!(p.parse_entity(s).is_err(), "{s:?} is accepted after other names");
                        }
                        Act::Bulk => {
                            for i in 0..40 {
                                parse(&mut p, &format!("n{i}<m{i}, {i}>::o{i}(p{i}, (lambda at /q{i}/r{i}.h:1:{i}))"))?;
                            }
                        }
                    }
                    for (g, k) in known.iter().enumerate() {
                        if let Some(k) = k {
                            let now = p.entity(*k).to_string();
                            ensure!(now == shown[g], "{:?} is now displayed as {now:?}", shown[g]);
                        }
                    }
                }
                Ok(())
            });
        });
    });
    // Near-duplicates: names in which one token was exchanged are other entities
    let full = ck.pick(2, 3);
    let swaps: &[(&str, &[&str])] = &[
        ("const", &["volatile", "const volatile"]),
        ("volatile", &["const"]),
        ("&", &["&&", "*"]),
        ("&&", &["&", "||"]),
        ("*", &["&", "**"]),
        ("+", &["-"]),
        ("-", &["+"]),
        ("<", &["<="]),
        ("==", &["!="]),
        ("++", &["--"]),
        ("int", &["long", "unsigned int"]),
        ("unsigned", &["signed", ""]),
        ("1", &["2", "1_k", "-1"]),
        ("2", &["1"]),
        ("3", &["4"]),
        ("...", &["a", "a, ..."]),
        ("noexcept", &[""]),
        ("sizeof", &["declval"]),
        ("restrict", &[""]),
        ("[", &["[1"]),
        (">", &[", b>"]),
        (")", &[", b)", ", ...)", ") const", ") &", ") noexcept", ") -> b", ")[3]"]),
        ("::", &["::d::", "<>::", "()::"]),
        ("~", &[""]),
        ("new", &["::new", "delete"]),
    ];
    names(ck, full, full, |t| {
        let text = t.full();
        if !ck.state(&(&text, "swap")) {
            return;
        }
        let toks = ws::tokens(&text);
        ck.case(&format!("exchanged tokens in {text}"), || {
            let mut p = EntityParser::new();
            let k = parse(&mut p, &text)?;
            for (i, tok) in toks.iter().enumerate() {
                let bare = tok.trim_end();
                let space = &tok[bare.len()..];
                let mut others: Vec<String> = swaps
                    .iter()
                    .filter(|(a, _)| *a == bare)
                    .flat_map(|(_, b)| b.iter().map(|b| format!("{b}{space}")))
                    .collect();
                if bare.len() == 1 && bare.as_bytes()[0].is_ascii_alphabetic() {
                    others.push(format!("zz{space}"));
                    others.push(format!("d::{tok}"));
                    others.push(format!("{bare}<d>{space}"));
                    others.push(format!("{bare}*{space}"));
                } else if bare.starts_with('\'') {
                    others.push(format!("'z'{space}"));
                } else if bare.starts_with("(lambda") {
                    others.push(format!("(lambda at /zz.h:7:7){space}"));
                }
                // Other places, differing by one coordinate
                for (at, sep) in [(bare.rfind(':'), 1), (bare.rfind(':').and_then(|e| bare[..e].rfind(':')), 1), (bare.rfind('#'), 1), (bare.find('/'), 0)] {
                    if let (true, Some(at)) = (bare.len() > 2 && bare.starts_with(['(', '{']), at) {
                        others.push(format!("{}9{}{space}", &bare[..at + sep], &bare[at + sep..]));
                    }
                }
                for o in others {
                    let other: String = toks.iter().enumerate().map(|(j, t)| if i == j { &o[..] } else { &t[..] }).collect();
                    let Ok(k2) = p.parse_entity(&other) else { continue };
                    let (a, b) = (view_ast(&p.entity(k)), view_ast(&p.entity(k2)));
                    ensure!((a == b) == (k == k2), "{other:?} {} the same entity, but {} the same name",
                        if k == k2 { "is" } else { "is not" }, if a == b { "is" } else { "is not" });
                    // Does the name change?
                    let shown = p.entity(k2).to_string();
                    let mut fresh = EntityParser::new();
                    let k3 = parse(&mut fresh, &other)?;
                    let alone = fresh.entity(k3).to_string();
                    ensure!((alone == text) == (k == k2), "{other:?} {} the same entity, but is displayed as {alone:?} on its own", if k == k2 { "is" } else { "is not" });
                    ensure!(shown == alone, "{other:?} is displayed as {shown:?} instead of {alone:?}");
                }
            }
            ensure!(p.entity(k).to_string() == text, "displayed as {} after parsing similar names", p.entity(k));
            Ok(())
        });
        ck.transitions(toks.len() as u64);
    });
    // A long history: every name of the bounded grammar in a single parser
    let all = std::sync::Mutex::new(std::collections::BTreeSet::new());
    names(ck, 2, 2, |t| {
        all.lock().unwrap().insert(t.full());
    });
    let all: Vec<String> = all.into_inner().unwrap().into_iter().collect();
    // (split in several histories, as the key space is limited by design)
    const HISTORIES: usize = 24;
    ck.note("names_in_long_histories", all.len());
    ck.note("long_histories", HISTORIES);
    let starts: Vec<usize> = (0..HISTORIES).collect();
    ck.par(&starts, |_, start| {
        let some: Vec<&String> = all.iter().skip(*start).step_by(HISTORIES).collect();
        ck.case(&format!("names of the grammar in one history, {start}"), || {
            let mut p = EntityParser::new();
            let mut keys = vec![];
            let mut back = std::collections::HashMap::new();
            for s in &some {
                let k = parse(&mut p, s)?;
                keys.push(k);
                if let Some(t) = back.insert(k, s) {
                    return Err(format!("{s:?} and {t:?} are the same entity"));
                }
            }
            for (s, k) in some.iter().zip(&keys).rev() {
                let now = p.entity(*k).to_string();
                ensure!(now == **s, "{s:?} is displayed as {now:?} after parsing other names");
                ensure!(parse(&mut p, s)? == *k, "{s:?} is a different entity when parsed again");
            }
            Ok(())
        });
    });
    ck.transitions(2 * all.len() as u64);
    ck.finish()
}

/// C06: display under a column budget
fn c06() -> ! {
    let ck = Ck::new("C06");
    explore(ck, ck.pick(2, 3), 3, |t, text| {
        let mut p = EntityParser::new();
        let k = parse(&mut p, text)?;
        let v = p.entity(k);
        use c29::{cols, fitting, levels};
        let levels = levels(t);
        for (d, want) in levels.iter().enumerate() {
            let got = at(&v, d);
            ensure!(got == *want, "at depth {d}: displayed as {got:?}, expected {want:?}");
        }
        let len = cols(text);
        let mut prev = 0;
        for budget in 1..=len + 2 {
            let got = v.bounded_display(budget as u16);
            let want = fitting(&levels, budget);
            ensure!(got == want, "in {budget} columns: {got:?}, expected {want:?}");
            ensure!(cols(&got) <= budget, "{got:?} does not fit {budget} columns");
            ensure!(budget < len || got == text, "{got:?} is not in full, although it fits {budget} columns");
            ensure!(cols(&got) >= prev, "shorter in {budget} columns than in {}", budget - 1);
            prev = cols(&got);
        }
        ck.transitions(len as u64 + 2);
        ensure!(v.bounded_display(u16::MAX) == text, "not in full in 65535 columns");
        Ok(())
    });
    ck.finish()
}

/// C07: any text gets an answer
fn c07() -> ! {
    let ck = Ck::new("C07");
    const TOKENS: &[&str] = &[
        "a", "int", "unsigned ", "const ", "operator", "new ", "delete", "sizeof(", "declval(", "decltype(", "noexcept",
        "__vector(", "__attribute__((", "(anonymous", "(lambda at ", "/a.h:1:2)", "{lambda", "#1}", "{unnamed type#",
        "auto:", "[abi:", "'", "\\", "1", "é", " ", "(", ")", "[", "]", "{", "}", "<", ">", ",", "::", ":", ".", "...",
        "+", "-", "*", "&", "!", "~", "=", "?", "->", "\"\" ", "18446744073709551616", "$", "<unknown>", "\n", "\u{0}",
        ";", "_k", "|", "^", "%", "/", "co_await ", "typename ", "restrict",
    ];
    const WRAP: &[(&str, &str)] = &[("", ""), ("A<", ">"), ("f(", ")")];
    let len = 4;
    ck.note("tokens", TOKENS.len());
    ck.note("max_len", len);
    ck.note("wrappers", WRAP.len());
    ck.case_timeout(60);
    let run = |p: &mut EntityParser, s: &str| -> Outcome {
        if let Ok(k) = p.parse_entity(s) {
            let v = p.entity(k);
            let full = v.to_string();
            for cols in [1, 4, 16] {
                v.bounded_display(cols);
            }
            ensure!(v.bounded_display(u16::MAX) == full, "not in full in 65535 columns");
        }
        Ok(())
    };
    let slowest = std::sync::Mutex::new((0.0, String::new()));
    let batch = |tokens: &[&str], prefix: &[usize], lens: std::ops::RangeInclusive<usize>| {
        let mut p = EntityParser::new();
        let mut n = 0;
        let mut worst = (0.0, String::new());
        vc::sequences(tokens.len(), lens, |tail| {
            let mut s = String::new();
            for &i in prefix.iter().chain(tail) {
                s.push_str(tokens[i]);
            }
            for (open, close) in WRAP {
                let text = format!("{open}{s}{close}");
                n += 1;
                let t = std::time::Instant::now();
                // The key space of a parser is limited by design
                if !ck.case(&text, || run(&mut p, &text)) || n % 4096 == 0 {
                    p = EntityParser::new();
                }
                let t = t.elapsed().as_secs_f64();
                if t > worst.0 {
                    worst = (t, text);
                }
            }
        });
        ck.transitions(n);
        ck.distinct_states(n);
        let mut s = slowest.lock().unwrap();
        if worst.0 > s.0 {
            *s = worst;
        }
    };
    batch(TOKENS, &[], 0..=0);
    let firsts: Vec<usize> = (0..TOKENS.len()).collect();
    ck.par(&firsts, |_, f| batch(TOKENS, &[*f], 0..=len - 1));
    if ck.thorough() {
        // One token more over the tokens that start or end constructs
        let core = &TOKENS[..46];
        ck.note("core_tokens", core.len());
        ck.note("core_max_len", len + 1);
        let firsts: Vec<[usize; 2]> = (0..core.len())
            .flat_map(|i| (0..core.len()).map(move |j| [i, j]))
            .collect();
        ck.par(&firsts, |_, f| batch(core, f, len - 1..=len - 1));
    }
    // Lists of any length: accepted or refused, without disturbing what follows
    let lengths = long_lengths(ck.pick(2048, 4096));
    let cases: Vec<(&LongName, usize)> = LONG.iter().flat_map(|l| lengths.iter().map(move |n| (l, *n))).collect();
    let refused = std::sync::atomic::AtomicU64::new(0);
    ck.par(&cases, |_, ((kind, _, name), n)| {
        for (open, close) in LONG_CTX {
            let text = format!("{open}{}{close}", name(*n));
            ck.state(&text);
            ck.transitions(3);
            ck.case(&format!("{n} {kind} in {open}...{close}"), || {
                let mut p = EntityParser::new();
                let small = parse(&mut p, "A<f(1, 2), b::c>")?;
                match p.parse_entity(&text) {
                    Ok(k) => ensure!(p.entity(k).to_string() == text, "displayed differently"),
                    Err(_) => {
                        refused.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        ensure!(p.parse_entity(&text).is_err(), "refused only once");
                    }
                }
                ensure!(parse(&mut p, "A<f(1, 2), b::c>")? == small, "what was known before is not recognized afterwards");
                ensure!(p.entity(small).to_string() == "A<f(1, 2), b::c>", "what was known before is altered");
                Ok(())
            });
        }
    });
    ck.note("long_lists_refused", refused.into_inner());
    // Histories that are so long that a parser may run out of keys
    let many: &[(&str, usize, fn(usize) -> String)] = &[
        ("identifiers", 70_000, |i| format!("i{i}")),
        ("template parameters", 70_000, |i| format!("A<{i}>")),
        ("call arguments", 5_000, |i| format!("A<f({i})>")),
        ("operators", 5_000, |i| format!("A<x + {i}>")),
        ("function parameters", 70_000, |i| format!("f(int[{i}])")),
        ("scopes", 70_000, |i| format!("A<{i}>::B")),
        ("paths", 70_000, |i| format!("(lambda at /d{i}/a.h:1:2)")),
        ("lines", 70_000, |i| format!("(lambda at /d/a.h:{i}:2)")),
    ];
    ck.par(many, |_, (kind, n, name)| {
        ck.case(&format!("{n} different {kind}"), || {
            let mut p = EntityParser::new();
            let mut known: Vec<(String, EntityKey)> = vec![];
            let mut refused = 0;
            for i in 0..*n {
                let text = name(i);
                ck.state(&text);
                match p.parse_entity(&text) {
                    Ok(k) => known.push((text, k)),
                    Err(_) => refused += 1,
                }
                // Whatever happens, earlier names are unaffected
                if i.is_power_of_two() || refused == 1 || i + 1 == *n {
                    for (text, k) in known.iter().step_by(1 + known.len() / 500) {
                        ensure!(p.entity(*k).to_string() == *text, "{text:?} became {:?} after {i} names", p.entity(*k).to_string());
                        ensure!(p.parse_entity(text).is_ok_and(|again| again == *k), "{text:?} is not recognized after {i} names");
                    }
                }
            }
            ck.transitions(*n as u64);
            ensure!(known.len() >= 1000, "only {} names were accepted", known.len());
            Ok(())
        });
    });
    let s = slowest.into_inner().unwrap();
    ck.note("slowest_seconds", s.0);
    ck.note("slowest_text", s.1);
    // Damage: every name of the grammar, cut short at every character,
    // and with each of its characters removed
    explore(ck, ck.pick(1, 2), 2, |_, text| {
        let mut p = EntityParser::new();
        for (i, c) in text.char_indices() {
            let rest = &text[i + c.len_utf8()..];
            run(&mut p, &text[..i])?;
            run(&mut p, &format!("{}{rest}", &text[..i]))?;
            run(&mut p, &format!("{}é{rest}", &text[..i]))?;
        }
        ck.transitions(3 * text.len() as u64);
        Ok(())
    });
    ck.finish()
}

/// C08: structure of the parsed name
fn c08() -> ! {
    let ck = Ck::new("C08");
    explore(ck, 3, ck.pick(3, 4), |t, text| {
        let mut p = EntityParser::new();
        let k = parse(&mut p, text)?;
        let got = view_ast(&p.entity(k));
        ensure!(got == *t, "read as {got:?}, but it means {t:?}");
        Ok(())
    });
    // Whitespace
    let full = ck.pick(2, 3);
    names(ck, full, full, |t| {
        let text = t.full();
        if !ck.state(&(&text, "whitespace")) {
            return;
        }
        let toks = ws::tokens(&text);
        ck.case(&format!("whitespace in {text}"), || {
            let mut p = EntityParser::new();
            let k = parse(&mut p, &text)?;
            let spaced = |at: &dyn Fn(usize) -> bool, ws: &str| {
                let mut s = String::new();
                for (i, t) in toks.iter().enumerate() {
                    if i > 0 && at(i) {
                        s.push_str(ws);
                    }
                    s.push_str(t);
                }
                s
            };
            let mut try_one = |v: String, must: bool| -> Outcome {
                match p.parse_entity(&v) {
                    Ok(k2) => ensure!(k2 == k, "{v:?} is another entity"),
                    Err(_) => ensure!(!must, "{v:?} is rejected"),
                }
                Ok(())
            };
            let usual = ws::usual(&toks);
            for i in 1..toks.len() {
                // f() -> a()::b reads differently from f() -> a ()::b
                let scope_fn = [")::", "const::", "volatile::", "noexcept::", "&::"].iter().any(|s| text.contains(s)) && matches!(&toks[i][..], "(" | "[");
                if ws::neutral(&toks[i - 1], &toks[i]) && !scope_fn {
                    try_one(spaced(&|j| i == j, " "), usual[i])?;
                }
            }
            try_one(spaced(&|i| usual[i], " "), true)?;
            try_one(spaced(&|i| usual[i], "\t  "), true)?;
            // Removing optional whitespace after commas
            try_one(toks.iter().map(|t| if t == ", " { "," } else { &t[..] }).collect(), !text.contains("<, void>"))?;
            Ok(())
        });
        ck.transitions(toks.len() as u64 + 2);
    });
    ck.finish()
}

fn main() {
    let id = std::env::args().nth(1).expect("usage: mc-parser ID");
    match id.as_str() {
        "probe" => probe(),
        "C04" => c04(),
        "C05" => c05(),
        "C06" => c06(),
        "C07" => c07(),
        "C08" => c08(),
        "C29" => c29::check(),
        _ => panic!("unknown property {id}"),
    }
}
