//! C17: freshness of profiles
use crate::*;
use std::fs::File;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum St {
    Missing,
    /// Cannot be examined (a file where a directory should be)
    Broken,
    /// Modification time relative to the reference time, in nanoseconds
    At(i64),
}
const S: i64 = 1_000_000_000;

fn put(path: &Path, st: St, origin: SystemTime) {
    let _ = std::fs::remove_file(path);
    if let St::At(d) = st {
        let t = if d >= 0 { origin + Duration::from_nanos(d as u64) } else { origin - Duration::from_nanos(-d as u64) };
        File::create(path).unwrap().set_modified(t).unwrap();
    }
}

fn expect(product: St, db: St, sources: &[St], got: std::io::Result<ProductFreshness>, age: impl Fn(Duration) -> bool, future: bool) -> Outcome {
    let p = match product {
        St::Missing => {
            ensure!(matches!(got, Ok(ProductFreshness::Nonexistent)), "{got:?} although there is no profile");
            return Ok(());
        }
        St::Broken => {
            ensure!(got.is_err(), "{got:?} although the profile cannot be examined");
            return Ok(());
        }
        St::At(p) => p,
    };
    let deps = || std::iter::once(&db).chain(sources);
    let newer = deps().any(|d| matches!(d, St::At(d) if *d > p));
    let broken = deps().any(|d| !matches!(d, St::At(_)));
    match (newer, broken, got) {
        (true, _, Ok(ProductFreshness::Outdated)) => Ok(()),
        (_, true, Err(e)) => {
            ensure!(!e.to_string().is_empty(), "empty error");
            Ok(())
        }
        (false, false, Ok(ProductFreshness::MaybeOutdated(a))) => {
            match a {
                None => ensure!(future, "age is unknown although the profile is from the past"),
                Some(a) => ensure!(!future && age(a), "aged {a:?}"),
            }
            Ok(())
        }
        (_, _, got) => Err(format!("judged {got:?}")),
    }
}

pub fn run() -> ! {
    let ck = Ck::new("C17");
    let max = ck.pick(3, 4);
    let states = [St::Missing, St::Broken, St::At(-3600 * S), St::At(-1), St::At(0), St::At(1), St::At(3600 * S)];
    let products = [St::Missing, St::Broken, St::At(0), St::At(-1), St::At(2)];
    // A separate process per first choice, since the database is found
    // relative to the working directory
    if let Some(i) = std::env::args().nth(2) {
        let i: usize = i.parse().unwrap();
        worker(ck, &states, &products, states[i], max);
    }
    let exe = std::env::current_exe().unwrap();
    let children: Vec<_> = (0..states.len())
        .map(|i| std::process::Command::new(&exe).args(["C17", &i.to_string()]).stdout(std::process::Stdio::piped()).spawn().unwrap())
        .collect();
    let mut lists = 0;
    for c in children {
        let out = c.wait_with_output().unwrap();
        let text = String::from_utf8_lossy(&out.stdout).into_owned();
        let mut key = None;
        for l in text.lines() {
            if let Some(n) = l.strip_prefix("CASES ") {
                lists += n.parse::<u64>().unwrap();
            } else if let Some(k) = l.strip_prefix("KEY ") {
                key = Some(k.to_string());
            } else if let (Some(w), Some(k)) = (l.strip_prefix("WHAT "), key.take()) {
                ck.violation(&k, w);
            }
        }
        if !out.status.success() {
            ck.violation("a whole family of configurations", "the freshness check crashed");
        }
    }
    ck.distinct_states(lists);
    ck.transitions(lists);
    ck.traces(lists);
    ck.note("max_sources", max);
    ck.note("modification_times", "missing, unreadable, 1 h and 1 ns older, equal, 1 ns and 1 h newer");
    ck.sample(|| json!({"profile": "At(0)", "database": "At(-1)", "sources": ["At(1)", "Missing"]}));
    ck.finish()
}

fn worker(ck: &'static Ck, states: &[St], products: &[St], db: St, max: usize) -> ! {
    let scratch = Scratch::new("c17");
    let _ = ck;
    let dir = scratch.0.clone();
    std::env::set_current_dir(&dir).unwrap();
    std::fs::write("file", "").unwrap();
    std::fs::create_dir("sub").unwrap();
    let mut cases = 0u64;
    let mut bad = 0;
    let mut report = |key: String, res: Result<Outcome, String>| {
        let what = match res {
            Ok(Ok(())) => return,
            Ok(Err(e)) => e,
            Err(p) => format!("unexpected panic: {p}"),
        };
        bad += 1;
        if bad <= 5 {
            println!("KEY {key}\nWHAT {what}");
        }
    };
    for far in [0, 1] {
        // Reference time: in the past, or in the future
        let now = SystemTime::now();
        let origin = if far == 0 { now - Duration::from_secs(100_000) } else { now + Duration::from_secs(100_000) };
        let db_path = CompilationDatabase::location();
        if db == St::Broken {
            // A dangling link cannot be examined either
            let _ = std::os::unix::fs::symlink("loop", dir.join("loop"));
            let _ = std::fs::remove_file(db_path);
            std::os::unix::fs::symlink("loop", db_path).unwrap();
        } else if far == 1 && matches!(db, St::At(_)) {
            // The usual link to the database of the build directory
            let _ = std::fs::remove_file(db_path);
            put(Path::new("real.json"), db, origin);
            std::os::unix::fs::symlink("real.json", db_path).unwrap();
        } else {
            put(db_path, db, origin);
        }
        for n in 0..=max {
            let mut sel = vec![0usize; n];
            'lists: loop {
                let sources: Vec<St> = sel.iter().map(|i| states[*i]).collect();
                // Relative, absolute, nested, and through a symbolic link
                let name = |i: usize| match i {
                    0 => PathBuf::from("s0.cpp"),
                    1 => dir.join("link1.cpp"),
                    2 => PathBuf::from("sub/s2.cpp"),
                    _ => PathBuf::from(format!("s{i}.cpp")),
                };
                let mut entries = vec![];
                for (i, st) in sources.iter().enumerate() {
                    let path = if *st == St::Broken { PathBuf::from(format!("file/s{i}.cpp")) } else { name(i) };
                    if *st != St::Broken {
                        if i == 1 {
                            let target = format!("target{i}");
                            put(Path::new(&target), *st, origin);
                            let _ = std::os::unix::fs::symlink(&target, &path);
                        } else {
                            put(&path, *st, origin);
                        }
                    }
                    entries.push(DatabaseEntry::new(PathBuf::from("/"), format!("c++ -c s{i} -o s{i}.o"), path, None));
                }
                let database = CompilationDatabase::from_entries(entries.clone());
                for product in products {
                    for delta in [0, -60, 60] {
                        if delta != 0 && !matches!(product, St::At(_)) {
                            continue;
                        }
                        // The product relative to everything else
                        let product = match product {
                            St::At(d) => St::At(d + delta * S),
                            other => *other,
                        };
                        let path = if product == St::Broken { PathBuf::from("file/p.csv") } else { PathBuf::from("p.csv") };
                        if product != St::Broken {
                            put(&path, product, origin);
                        }
                        let mtime = path.metadata().and_then(|m| m.modified()).ok();
                        let judge = |got: &mut dyn FnMut() -> std::io::Result<ProductFreshness>, sources: &[St]| {
                            let before = SystemTime::now();
                            let got = got();
                            let after = SystemTime::now();
                            if let Ok(f) = &got {
                                ensure!(f.exists() == matches!(product, St::At(_)), "exists() lies about {f:?}");
                            }
                            let slack = Duration::from_millis(20);
                            let age = |a: Duration| {
                                let t = mtime.unwrap();
                                before.duration_since(t).unwrap_or_default().saturating_sub(slack) <= a && a <= after.duration_since(t).unwrap_or_default() + slack
                            };
                            expect(product, db, sources, got, age, far == 1)
                        };
                        let key = format!("profile {product:?}, database {db:?}, sources {sources:?}, reference time in the {}", ["past", "future"][far]);
                        cases += 1;
                        report(format!("full profile: {key}"), vc::quietly(|| judge(&mut || database.profile_freshness(&path), &sources)));
                        for (i, e) in entries.iter().enumerate() {
                            cases += 1;
                            report(format!("trace of source {i}: {key}"), vc::quietly(|| judge(&mut || e.derived_freshness(&path), &sources[i..=i])));
                        }
                    }
                }
                for i in 0..n {
                    let _ = std::fs::remove_file(name(i));
                }
                for d in sel.iter_mut() {
                    *d += 1;
                    if *d < states.len() {
                        continue 'lists;
                    }
                    *d = 0;
                }
                break;
            }
        }
    }
    println!("CASES {cases}");
    drop(scratch);
    std::process::exit(0)
}
