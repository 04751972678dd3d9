//! C11: the traces that the installed clang writes
use crate::*;
use std::{
    collections::HashMap,
    path::{Path, PathBuf},
    process::Command,
};

const NAMES: &str = include_str!("names.cpp");
const OPT: &str = include_str!("opt.cpp");

const BASES: [&str; 20] = [
    "void",
    "bool",
    "int",
    "unsigned long long",
    "signed char",
    "long double",
    "char16_t",
    "decltype(nullptr)",
    "__int128",
    "B",
    "n::E",
    "n::C",
    "Anon",
    "n::W<B>",
    "n::Outer::Inner",
    "n::U",
    "Lam",
    "Unnamed",
    "Loc",
    "n::in::V",
];

/// Every way to build a type from those, up to that depth
fn types(bases: &[&str], depth: usize) -> String {
    let mods = [
        "T*",
        "T&",
        "T&&",
        "const T",
        "volatile T",
        "T[3]",
        "T[]",
        "T()",
        "T(*)(int, B)",
        "T(&)(char, ...)",
        "int(*)(T)",
        "T B::*",
        "T (B::*)(int) const",
        "void (B::*)(T) volatile &&",
        "n::W<T>",
        "n::Two<T, 'c'>",
        "n::Pack<T, int, T>",
        "n::Tmpl<n::W, T>",
        "typename n::W<T>::In",
        "void (*(*)(T))(char)",
        "T() noexcept",
    ];
    let mut s = String::from(
        "struct B { int m; };
namespace n { enum E { X }; enum class C : short { Y }; template<class T> struct W { struct In {}; }; template<class T, char> struct Two {}; template<class...> struct Pack {}; template<template<class> class, class> struct Tmpl {}; struct Outer { struct Inner {}; }; union U { int a; }; inline namespace in { struct V {}; } }
namespace { struct Anon {}; }
static auto lam = [](int x) { return x; }; using Lam = decltype(lam);
static struct { int q; } unnamed; using Unnamed = decltype(unnamed);
inline auto local() { struct L {}; return L(); } using Loc = decltype(local());
template<class T> struct Probe { static int f(Probe*) { return 0; } template<class U> static int g() { return 1; } };
template<class T, template<class> class M> int one() { if constexpr (requires { typename M<T>; }) return Probe<M<T>>::f(nullptr) + Probe<int>::g<M<T>>(); else return 0; }
template<class T, template<class> class M, template<class> class N> int two() { if constexpr (requires { typename M<N<T>>; }) return Probe<M<N<T>>>::f(nullptr); else return 0; }
",
    );
    let mut all = vec![String::from("I")];
    s += "template<class T> using I = T;\n";
    for (i, m) in mods.iter().enumerate() {
        s += &format!("template<class T> using M{i} = {m};\n");
        all.push(format!("M{i}"));
    }
    s += "int sum() {\n int s = 0;\n";
    for b in bases {
        for m in &all {
            s += &format!(" s += one<{b}, {m}>();\n");
            if depth > 1 {
                for n in &all {
                    s += &format!(" s += two<{b}, {m}, {n}>();\n");
                }
            }
        }
    }
    s + " return s;\n}\n"
}

/// The same name, whatever its spelling
fn canonical(name: &str) -> String {
    let mut out = String::new();
    let mut rest = name
        .replace("unnamed", "anonymous")
        .replace("__restrict", "restrict");
    // Normalized paths
    while let Some(i) = rest.find(" at /") {
        let (head, tail) = rest.split_at(i + 4);
        let end = tail.find(':').unwrap_or(tail.len());
        let mut parts: Vec<&str> = vec![];
        for c in tail[..end].split('/') {
            match c {
                "" | "." => {}
                ".." => drop(parts.pop()),
                c => parts.push(c),
            }
        }
        let path = parts.join("/");
        out += head;
        out += &path;
        rest = tail[end..].to_string();
    }
    out += &rest;
    // Literals by value
    let cs: Vec<char> = out.chars().collect();
    let mut s = String::new();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if c == '\'' {
            // (the character may be a quote)
            let (code, next) = match cs.get(i + 1) {
                Some('\\') => match cs[i + 2] {
                    'x' | 'u' | 'U' => {
                        let end = (i + 3..cs.len()).find(|&k| cs[k] == '\'').unwrap();
                        (
                            u32::from_str_radix(&cs[i + 3..end].iter().collect::<String>(), 16).unwrap(),
                            end,
                        )
                    }
                    e => (
                        match e {
                            'n' => 10,
                            't' => 9,
                            'r' => 13,
                            'v' => 11,
                            'f' => 12,
                            'b' => 8,
                            'a' => 7,
                            '0' => 0,
                            e => e as u32,
                        },
                        i + 3,
                    ),
                },
                Some(c) => (*c as u32, i + 2),
                None => (0, i),
            };
            if s.ends_with("u8") && !s.chars().rev().nth(2).is_some_and(char::is_alphanumeric) {
                s.truncate(s.len() - 2);
            } else if matches!(s.chars().last(), Some('L' | 'u' | 'U'))
                && !s.chars().rev().nth(1).is_some_and(char::is_alphanumeric)
            {
                s.pop();
            }
            s += &format!("'{code}'");
            i = next + 1;
        } else if c.is_ascii_digit() && !s.chars().last().is_some_and(|c| c.is_alphanumeric() || c == '_') {
            while i < cs.len() && cs[i].is_ascii_digit() {
                s.push(cs[i]);
                i += 1;
            }
            while i < cs.len() && matches!(cs[i], 'U' | 'L') {
                i += 1;
            }
        } else {
            if !c.is_whitespace() {
                s.push(c);
            }
            i += 1;
        }
    }
    s
}

struct Job {
    program: &'static str,
    source: PathBuf,
    flags: String,
}

fn clang(dir: &Path, i: usize, job: &Job) -> Option<PathBuf> {
    let out = dir.join(format!("o{i}.o"));
    let ok = Command::new("clang++")
        .args(["-w", "-ftime-trace", "-c", "-o"])
        .arg(&out)
        .args(job.flags.split(' ').filter(|f| !f.is_empty()))
        .arg(&job.source)
        .current_dir(dir)
        .output()
        .is_ok_and(|o| o.status.success());
    let _ = std::fs::remove_file(&out);
    let json = out.with_extension("json");
    (ok && json.exists()).then_some(json)
}

fn judge(known: &HashMap<&str, &str>, file: &Path, states: &dyn Fn(u64)) -> Outcome {
    let doc: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    type Event = (String, u64, u64, Option<String>);
    let mut want: Vec<Event> = vec![];
    let mut globals = 0;
    let bits = |v: &Value| v.as_f64().unwrap().to_bits();
    for e in doc["traceEvents"].as_array().unwrap() {
        if e["ph"] == "X" {
            if e["name"].as_str().unwrap().starts_with("Total ") {
                globals += 1;
            } else {
                want.push((
                    e["name"].as_str().unwrap().into(),
                    bits(&e["ts"]),
                    bits(&e["dur"]),
                    e["args"]["detail"].as_str().map(String::from),
                ));
            }
        }
    }
    let mut t = ClangTrace::from_file(file).map_err(|e| format!("the trace is refused: {e}"))?;
    let mut got: Vec<Event> = t
        .all_activities()
        .map(|a| {
            (
                a.activity().name().into(),
                a.start().to_bits(),
                a.duration().to_bits(),
                a.activity().raw_argument().detail().map(|d| d.to_string()),
            )
        })
        .collect();
    want.sort();
    got.sort();
    if want != got {
        let i = want
            .iter()
            .zip(&got)
            .position(|(a, b)| a != b)
            .unwrap_or(want.len().min(got.len()));
        return Err(format!(
            "the activities differ: {:?} in the file, {:?} loaded",
            want.get(i),
            got.get(i)
        ));
    }
    ensure!(
        t.global_stats().len() == globals,
        "{} global statistics are loaded, {globals} are in the file",
        t.global_stats().len()
    );
    let raw: Vec<_> = t
        .all_activities()
        .map(|a| {
            (
                a.activity().name().to_string(),
                a.activity().raw_argument().clone(),
            )
        })
        .collect();
    let mut seen = std::collections::HashSet::new();
    for (name, raw) in raw {
        let detail = raw.detail().map(|d| d.to_string());
        // How details of other kinds of activity are read is a guess
        let Some(kind) = known.get(name.as_str()) else {
            continue;
        };
        if !seen.insert((*kind, detail.clone())) {
            continue;
        }
        states(1);
        let parsed = raw.parse(&mut t);
        if kind.starts_with("UnnamedLoop") && detail.as_deref().is_some_and(|d| d != "<unnamed loop>") {
            // Loops have names if the compiler keeps the names of labels
            ensure!(
                matches!(parsed, Err(ActivityArgumentError::UnexpectedLoopName(_))),
                "{name}({detail:?}) is not reported"
            );
            continue;
        }
        let parsed = parsed.map_err(|e| format!("{name}({detail:?}): {e}"))?;
        let shown = c11::show(&parsed.resolve(&t));
        if let (c11::Shown::Entity(s), Some(d)) = (&shown, &detail) {
            ensure!(canonical(s) == canonical(d), "{name}({d:?}) is shown as {s:?}");
        }
        let ok = match (*kind, &shown, &detail) {
            ("Nothing", c11::Shown::Nothing, None) => true,
            ("String", c11::Shown::Str(s), Some(d)) => s == d,
            ("FilePathOrModule", c11::Shown::Module, Some(d)) => d == "[module]",
            ("FilePathOrModule", c11::Shown::Path(_), Some(d)) => d.starts_with('/'),
            ("CppEntity", c11::Shown::Entity(_), Some(_)) => true,
            (
                "Symbol" | "SymbolOpt",
                c11::Shown::Parsed(_) | c11::Shown::Demangled | c11::Shown::MaybeMangled(_),
                Some(_),
            ) => true,
            ("SymbolOpt" | "UnnamedLoopOpt", c11::Shown::Nothing, None) => true,
            ("UnnamedLoop" | "UnnamedLoopOpt", c11::Shown::Loop, Some(_)) => true,
            _ => false,
        };
        ensure!(ok, "{name}({detail:?}) is shown as {shown:?}");
    }
    Ok(())
}

pub fn run(ck: &'static Ck, known: &[(&'static str, &'static str)]) {
    let known: HashMap<&str, &str> = known.iter().map(|(k, n)| (*n, *k)).collect();
    let dir = std::env::temp_dir().join(format!("mc-trace-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let mut jobs = vec![];
    let mut add = |program: &'static str, text: &str, flags: &[String]| {
        let source = dir.join(format!("{program}_{}.cpp", jobs.len()));
        std::fs::write(&source, text).unwrap();
        jobs.extend(flags.iter().map(|f| Job {
            program,
            source: source.clone(),
            flags: f.clone(),
        }));
    };
    let all = "-ftime-trace-granularity=0";
    for bases in BASES.chunks(2) {
        add("types", &types(bases, 1), &[format!("-std=c++20 {all} -O1")]);
        add(
            "types2",
            &types(bases, 2),
            &if ck.thorough() {
                vec![
                    format!("-std=c++20 {all} -O0"),
                    format!("-std=c++20 {all} -O1 -g"),
                ]
            } else {
                vec![format!("-std=c++20 {all} -O0")]
            },
        );
    }
    let f = |l: &[&str]| -> Vec<String> { l.iter().map(|o| format!("-std=c++20 {all} {o}")).collect() };
    add("names", NAMES, &f(&["-O0", "-O2", "-O0 -g"]));
    let extra = [
        "",
        "-g",
        "-fsanitize=address",
        "-fsanitize=undefined,thread",
        "-fsanitize=memory",
        "-march=native -ffast-math",
        "-flto",
        "-flto=thin",
        "-fprofile-generate",
        "-fprofile-instr-generate -fcoverage-mapping",
        "-S",
        "-emit-llvm",
        "-fopenmp",
        "-fPIC -ffunction-sections",
        "-fvisibility=hidden -fstack-protector-strong",
        "-fwhole-program-vtables -flto -fvisibility=hidden",
        "--coverage",
        "-pg",
        "-fcf-protection -mretpoline",
        "-fdelayed-template-parsing",
        "-fno-rtti",
    ];
    let levels = ["-O0", "-O1", "-O2", "-O3", "-Os", "-Oz", "-Og"];
    let mut flags = vec![];
    for (i, x) in extra.iter().enumerate() {
        for l in levels {
            // Everything at the usual level
            if ck.thorough() || i == 0 || l == "-O2" {
                flags.push(format!("-std=c++20 {all} {l} {x}"));
            }
        }
    }
    flags.push("-std=c++20 -O2".into());
    flags.push("-std=c++20 -O2 -ftime-trace-granularity=20".into());
    add("opt", OPT, &flags);
    let ran = std::sync::Mutex::new(HashMap::<&str, u64>::new());
    let jobs: Vec<(usize, Job)> = jobs.into_iter().enumerate().collect();
    ck.par(&jobs, |_, (i, job)| {
        // (nothing can be said without a compiler that accepts the program)
        let made = clang(&dir, *i, job);
        let Some(file) = made else {
            println!("clang++ {} does not compile {}", job.flags, job.program);
            return;
        };
        *ran.lock().unwrap().entry(job.program).or_default() += 1;
        ck.case(&format!("clang++ {} {}.cpp", job.flags, job.program), || {
            judge(&known, &file, &|n| ck.distinct_states(n))
        });
        let _ = std::fs::remove_file(&file);
    });
    if std::env::var_os("MC_KEEP").is_none() {
        let _ = std::fs::remove_dir_all(&dir);
    }
    let ran = ran.into_inner().unwrap();
    for p in ["types", "types2", "names", "opt"] {
        ck.note(&format!("real_traces_of_{p}"), ran.get(p).copied().unwrap_or(0));
    }
    if ran.len() < 4 {
        ck.not_exhaustive("clang++ does not compile some of the programs here");
    }
}
