//! C26: starting in a build directory offers what the files there allow.
use crate::{
    app::{App, Kind, Setup, State},
    json, scratch, Ck,
};
use std::{
    os::unix::fs::PermissionsExt,
    path::{Path, PathBuf},
    sync::atomic::*,
    time::{Duration, SystemTime},
};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Db {
    Good,
    Missing,
    Directory,
    NoJson,
    NoList,
    BadEntry,
    NotUtf8,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Clang {
    Says(&'static str, bool),
    Missing,
    NotExecutable,
    Fails(u8),
    Dies,
    Binary,
    OnlyStderr,
}
/// The build profile that is there, times being relative to the start
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Prof {
    Missing,
    /// Seconds ago
    Age(u64),
    /// In the future by so many seconds
    Future(u64),
    /// Older than the database, or than source file number n
    StaleDb,
    Stale(usize),
    /// A source file cannot be examined
    NoSource(usize),
    /// A minute old; cannot be understood
    Bad(usize),
}
const BAD: [&str; 6] = ["file,max_rss\na.cpp,1e9\n", "file,max_rss,time\na.cpp,many,\n", "name,max_rss,time\na.cpp,1,\n", "file,max_rss,time\na.cpp\n", "directory", "file,max_rss,time\na.cpp,-5,\n"];
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Answer {
    First,
    Second,
    /// Quit instead
    Quit,
    CtrlC,
    /// Try to avoid the question, then the first
    EscFirst,
    /// Ask to quit, change one's mind, then the second
    QuitNoSecond,
}
const ANSWERS: [Answer; 6] = [Answer::First, Answer::Second, Answer::Quit, Answer::CtrlC, Answer::EscFirst, Answer::QuitNoSecond];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Case {
    db: Db,
    files: usize,
    clang: Clang,
    prof: Prof,
    /// The profile has wall times
    times: bool,
    /// It is given on the command line
    given: Option<&'static str>,
    answer: Answer,
    tui: bool,
}

/// What the user is asked
#[derive(Debug, PartialEq)]
enum Ask {
    Nothing,
    Create,
    Stale,
    Maybe(Option<u64>),
}

const OLD: u64 = 1_000_000;

fn set(p: &Path, t: SystemTime) {
    let _ = std::fs::File::open(p).and_then(|f| f.set_modified(t));
}

struct Run {
    app: App,
    dir: PathBuf,
    /// Sources that were compiled
    compiled: Vec<String>,
    told: Vec<usize>,
}
impl Run {
    fn start(c: &Case, base: &Path, worker: usize) -> Run {
        let _ = std::fs::remove_dir_all(base);
        let (dir, ctl) = (base.join("d"), base.join("c"));
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::create_dir_all(ctl.join("bin")).unwrap();
        let now = SystemTime::now();
        let ago = |s: u64| now - Duration::from_secs(s);
        let old = ago(OLD * 100);
        std::os::unix::fs::symlink(std::env::current_exe().unwrap(), ctl.join("bin/cc")).unwrap();
        let clang = ctl.join("bin/clang++");
        let mut mode = 0o755;
        let script = match c.clang {
            Clang::Missing => None,
            Clang::Says(text, _) => Some(format!("#!/bin/sh\n/bin/cat {}\n", {
                let p = ctl.join("version");
                std::fs::write(&p, text).unwrap();
                p.display().to_string()
            })),
            Clang::NotExecutable => {
                mode = 0o644;
                Some("#!/bin/sh\necho clang version 18.1.3\n".into())
            }
            Clang::Fails(n) => Some(format!("#!/bin/sh\necho clang version 18.1.3\nexit {n}\n")),
            Clang::Dies => Some("#!/bin/sh\necho clang version 18.1.3\nkill -9 $$\n".into()),
            Clang::Binary => Some("#!/bin/sh\nprintf 'clang version 18.1.3 \\377\\376\\n'\n".into()),
            Clang::OnlyStderr => Some("#!/bin/sh\necho clang version 18.1.3 >&2\n".into()),
        };
        if let Some(s) = script {
            std::fs::write(&clang, s).unwrap();
            std::fs::set_permissions(&clang, std::fs::Permissions::from_mode(mode)).unwrap();
        }
        let mut db = vec![];
        for i in 0..c.files {
            let src = dir.join(format!("f{i}.cpp"));
            std::fs::write(&src, "").unwrap();
            set(&src, old);
            db.push(json!({"directory": dir.to_str().unwrap(), "command": format!("{} -o f{i}.o -c {}", ctl.join("bin/cc").display(), src.display()), "file": src.to_str().unwrap()}));
        }
        let text = json!(db).to_string();
        let p = dir.join("compile_commands.json");
        match c.db {
            Db::Good => std::fs::write(&p, &text).unwrap(),
            Db::Missing => {}
            Db::Directory => std::fs::create_dir(&p).unwrap(),
            Db::NoJson => std::fs::write(&p, &text[..text.len() - 1]).unwrap(),
            Db::NoList => std::fs::write(&p, "{\"directory\":1}").unwrap(),
            Db::BadEntry => std::fs::write(&p, "[{\"directory\":\"/\"}]").unwrap(),
            Db::NotUtf8 => std::fs::write(&p, b"[{\"directory\":\"\xff\"}]").unwrap(),
        }
        set(&p, old);
        let name = c.profile();
        let prof = dir.join(name);
        std::fs::create_dir_all(prof.parent().unwrap()).unwrap();
        let absolute = prof.clone();
        let text = c.text();
        match c.prof {
            Prof::Missing => {}
            _ if text == "directory" => std::fs::create_dir(&prof).unwrap(),
            _ => std::fs::write(&prof, text).unwrap(),
        }
        match c.prof {
            Prof::Age(s) => set(&prof, ago(s)),
            Prof::Future(s) => set(&prof, now + Duration::from_secs(s)),
            Prof::StaleDb => {
                set(&prof, ago(50));
                set(&p, ago(49));
            }
            Prof::Stale(n) => {
                set(&prof, ago(5000));
                set(&dir.join(format!("f{n}.cpp")), ago(4999));
            }
            Prof::NoSource(n) => {
                set(&prof, ago(30));
                std::fs::remove_file(dir.join(format!("f{n}.cpp"))).unwrap();
            }
            Prof::Bad(_) => set(&prof, ago(5)),
            Prof::Missing => {}
        }
        if !matches!(c.profile(), "cmakeperf.csv" | "./cmakeperf.csv") {
            // Has nothing to do with it
            std::fs::write(dir.join("cmakeperf.csv"), "file,max_rss,time\nwrong.cpp,1,\n").unwrap();
        }
        let mut args = vec![];
        if c.tui {
            args.extend(["--ui", "tui"]);
        }
        if c.given.is_some() {
            args.extend(["--build-profile", if c.given == Some("/") { absolute.to_str().unwrap() } else { name }]);
        }
        let mut app = App::start(&Setup { dir: &dir, ctl: &ctl, args: &args, cols: 100, rows: 30, hold: false, reads: None, cpu: worker });
        app.wait_until(Duration::from_secs(20), |a| a.ended() || a.screen.has("Press H for help") || a.screen.has("<Quit>") || a.screen.has("<No>") || a.screen.has("<Measure>"));
        app.settle();
        Run { app, dir, compiled: vec![], told: vec![] }
    }
    /// Compilers do their work
    fn work(&mut self) {
        let parked: Vec<(usize, Kind)> = self.app.conns.iter().filter(|c| c.state == State::Parked && !self.told.contains(&c.id)).map(|c| (c.id, c.kind.clone())).collect();
        for (id, kind) in parked {
            if let Kind::Proc { args, .. } = kind {
                self.compiled.push(args.last().cloned().unwrap_or_default());
                self.told.push(id);
                self.app.tell(id, "exit\t0");
            }
        }
    }
    fn wait(&mut self, what: &str, f: impl Fn(&App) -> bool) -> Result<(), String> {
        let end = std::time::Instant::now() + Duration::from_secs(20);
        while !f(&self.app) {
            self.work();
            self.app.pump(Duration::from_millis(15));
            if self.app.ended() && !f(&self.app) {
                return Err(format!("instead of {what}, the program ends ({}): {}\n{}", self.app.status.unwrap(), self.app.stderr(), self.app.screen.text()));
            }
            if std::time::Instant::now() > end {
                return Err(format!("{what}: not shown\n{}", self.app.screen.text()));
            }
        }
        self.app.settle_for(Duration::from_millis(60), Duration::from_secs(3));
        Ok(())
    }
    fn key(&mut self, k: &str) {
        self.app.key(k);
        self.app.settle_for(Duration::from_millis(70), Duration::from_secs(3));
    }
    fn ends(&mut self) -> Result<(), String> {
        self.wait("ending", |a| a.ended())?;
        let err = self.app.stderr();
        match self.app.status.unwrap().success() && !err.contains("panicked") {
            true => Ok(()),
            false => Err(format!("the program does not end well ({}): {err}", self.app.status.unwrap())),
        }
    }
    /// Text of the dialog, on one line
    fn words(&self) -> String {
        let t: Vec<String> = self.app.screen.lines().iter().map(|l| l.trim_matches([' ', '│', '┌', '┐', '─', '└', '┘']).to_string()).collect();
        t.join(" ").split_whitespace().collect::<Vec<_>>().join(" ")
    }
}

impl Case {
    fn profile(&self) -> &'static str {
        match self.given {
            None => "cmakeperf.csv",
            Some("/") => "else where/absolute",
            Some(name) => name,
        }
    }
    fn text(&self) -> String {
        match self.prof {
            Prof::Bad(n) => BAD[n].into(),
            _ => {
                let mut s = "file,max_rss,time\n".to_string();
                for i in 0..self.files {
                    s += &format!("f{i}.cpp,{},{}\n", 1_230_000_000u64 * (i as u64 + 1), if self.times { format!("{}.5", i + 1) } else { String::new() });
                }
                s
            }
        }
    }
    fn clang_ok(&self) -> bool {
        matches!(self.clang, Clang::Says(_, true))
    }
    /// None: an error is reported
    fn asks(&self) -> Option<Ask> {
        Some(match self.prof {
            Prof::Missing => Ask::Create,
            Prof::StaleDb | Prof::Stale(_) => Ask::Stale,
            Prof::NoSource(_) => return None,
            Prof::Age(s) if s >= 60 && self.given.is_none() => Ask::Maybe(Some(s)),
            Prof::Future(_) if self.given.is_none() => Ask::Maybe(None),
            Prof::Age(_) | Prof::Future(_) | Prof::Bad(_) => Ask::Nothing,
        })
    }
}

/// The age that a question mentions: number and unit in seconds
pub fn age(text: &str) -> Option<(u64, u64)> {
    let (before, _) = text.split_once(" ago")?;
    let at = before.rfind("from ")? + 5;
    let t = &before[at..];
    let digits = t.find(|c: char| !c.is_ascii_digit())?;
    let unit = match t[digits..].trim() {
        "min" | "mins" | "minute" | "minutes" => 60,
        "h" | "hour" | "hours" => 3600,
        "day" | "days" | "d" => 86400,
        _ => return None,
    };
    Some((t[..digits].parse().ok()?, unit))
}

fn play(c: &Case, base: &Path, worker: usize) -> Result<&'static str, String> {
    let mut r = Run::start(c, base, worker);
    let dir = r.dir.clone();
    let snapshot = || -> Vec<(String, Vec<u8>)> {
        let mut v: Vec<(String, Vec<u8>)> = std::fs::read_dir(&dir).unwrap().flatten().map(|e| (e.file_name().to_string_lossy().into_owned(), std::fs::read(e.path()).unwrap_or_default())).collect();
        v.sort();
        v
    };
    let before = snapshot();
    let untouched = |r: &Run| -> Result<(), String> {
        if !r.compiled.is_empty() {
            return Err(format!("{:?} was compiled although nobody asked for it", r.compiled));
        }
        match snapshot() == before {
            true => Ok(()),
            false => Err(format!("files were changed: {:?}", snapshot().iter().map(|f| &f.0).collect::<Vec<_>>())),
        }
    };
    let error = |r: &mut Run, words: &[&str]| -> Result<(), String> {
        r.wait("an error message", |a| a.screen.has("<Quit>"))?;
        let text = r.words();
        if !words.iter().any(|w| text.to_lowercase().contains(w)) {
            return Err(format!("the message {text:?} does not mention any of {words:?}"));
        }
        r.key("\r");
        r.ends()?;
        untouched(r)
    };
    let wrong = |r: &Run, e: String| -> Result<&'static str, String> { Err(format!("{e}\n{}", r.app.screen.text())) };
    // Whatever is wrong first is reported
    let mut words = vec![];
    if c.db != Db::Good {
        words.push("compilation database");
    }
    if !c.clang_ok() {
        words.push("clang");
    }
    if !words.is_empty() {
        if c.asks().is_none() {
            words.push("freshness");
        }
        return error(&mut r, &words).map(|_| "error");
    }
    let Some(ask) = c.asks() else { return error(&mut r, &["freshness", "examine", "source", "file"]).map(|_| "error") };
    let mut measured = false;
    if ask != Ask::Nothing {
        let second = if ask == Ask::Create { "<No>" } else { "<Measure>" };
        r.wait("a question", |a| a.screen.has(second))?;
        let text = r.words();
        if let Ask::Maybe(secs) = ask {
            match (secs, age(&text)) {
                (Some(s), Some((n, unit))) => {
                    let next = if unit == 60 { s >= 3600 } else { unit == 3600 && s >= 86400 };
                    if n != s / unit || n == 0 || next {
                        return wrong(&r, format!("a profile of {s} s is said to be {n} times {unit} s old"));
                    }
                    if n != 1 && text.contains(" day ago") || n == 1 && text.contains(" days ago") {
                        return wrong(&r, format!("wrong number: {text:?}"));
                    }
                }
                (None, None) if !text.contains(" ago") => {}
                (want, _) => return wrong(&r, format!("the question {text:?} does not tell the age {want:?}")),
            }
        } else if text.contains(" ago") {
            return wrong(&r, format!("the question {text:?} tells an age"));
        }
        if ask == Ask::Stale && !text.contains("not up to date") {
            return wrong(&r, format!("the question {text:?} does not tell that the profile is outdated"));
        }
        let quit = |r: &mut Run, key: &str| -> Result<(), String> {
            r.key(key);
            r.wait("the question whether to quit", |a| a.screen.has("Ready to quit?"))
        };
        let create = match c.answer {
            Answer::Quit | Answer::CtrlC => {
                quit(&mut r, if c.answer == Answer::Quit { "q" } else { "\x03" })?;
                r.key("\r");
                r.ends()?;
                untouched(&r)?;
                return Ok("quit");
            }
            Answer::First => ask == Ask::Create,
            Answer::EscFirst => {
                r.key("\x1b");
                r.app.settle_for(Duration::from_millis(250), Duration::from_secs(2));
                if !r.app.screen.has(second) || r.app.ended() {
                    return wrong(&r, "Esc makes the question go away".into());
                }
                ask == Ask::Create
            }
            Answer::Second => {
                r.key("\x1b[C");
                ask != Ask::Create
            }
            Answer::QuitNoSecond => {
                quit(&mut r, "q")?;
                r.key("\x1b[C\r");
                r.wait("the question", |a| a.screen.has(second) && !a.screen.has("Ready to quit?"))?;
                r.key("\x1b[C");
                ask != Ask::Create
            }
        };
        untouched(&r)?;
        r.key("\r");
        if ask == Ask::Create && !create {
            r.ends()?;
            untouched(&r)?;
            return Ok("declined");
        }
        measured = create;
    }
    if let (Prof::Bad(_), false) = (c.prof, measured) {
        return error(&mut r, &["profile"]).map(|_| "error");
    }
    r.wait("the table of files", |a| a.screen.has("Press H for help"))?;
    r.app.settle();
    let lines = r.app.screen.lines();
    if !lines[0].contains("Source file") || !lines[0].contains("Memory") {
        return wrong(&r, "there is no table of files".into());
    }
    // The files, by decreasing memory use
    let mut shown: Vec<(f64, String, Option<String>)> = vec![];
    for l in lines.iter().filter(|l| l.contains(".cpp")) {
        let cells: Vec<&str> = l.split('┆').map(|c| c.trim_matches([' ', '|', '░', '▒', '│'])).collect();
        let gb = cells[0].strip_suffix("GB").and_then(|t| t.trim().parse::<f64>().ok());
        let Some(gb) = gb else { return wrong(&r, format!("memory use {:?}", cells[0])) };
        shown.push((gb, cells.last().unwrap().to_string(), (cells.len() > 2).then(|| cells[1].to_string())));
    }
    let mut names: Vec<&str> = shown.iter().map(|s| s.1.as_str()).collect();
    names.sort();
    let want: Vec<String> = (0..c.files).map(|i| format!("f{i}.cpp")).collect();
    if names != want {
        return wrong(&r, format!("the table has {names:?} instead of {want:?}"));
    }
    if shown.windows(2).any(|w| w[0].0 < w[1].0) {
        return wrong(&r, "the table is not sorted by memory use".into());
    }
    if measured {
        let mut done: Vec<&str> = r.compiled.iter().map(|p| Path::new(p).file_name().unwrap().to_str().unwrap()).collect();
        done.sort();
        if done != want {
            return wrong(&r, format!("{done:?} were compiled instead of {want:?}"));
        }
        let now = std::fs::read_to_string(dir.join(c.profile())).unwrap_or_default();
        if want.iter().any(|f| now.matches(f.as_str()).count() != 1) {
            return wrong(&r, format!("the new profile is {now:?}"));
        }
        for (name, text) in &before {
            if dir.join(name) != dir.join(c.profile()) && std::fs::read(dir.join(name)).ok().as_ref() != Some(text) && !dir.join(name).is_dir() {
                return wrong(&r, format!("{name} was changed"));
            }
        }
    } else {
        untouched(&r)?;
        for (i, name) in want.iter().enumerate() {
            let row = shown.iter().find(|s| s.1 == *name).unwrap();
            let time = c.times.then(|| format!("{}.5s", i + 1));
            if (row.0 - 1.23 * (i + 1) as f64).abs() > 0.0051 || row.2 != time {
                return wrong(&r, format!("the row of {name} is {row:?}"));
            }
        }
    }
    r.key("q");
    r.wait("the question whether to quit", |a| a.screen.has("Ready to quit?"))?;
    r.key("\r");
    r.ends()?;
    Ok(if measured { "measured" } else { "shown" })
}

fn cases(ck: &Ck) -> Vec<Case> {
    let good = Clang::Says("clang version 18.1.3\n", true);
    let base = Case { db: Db::Good, files: 2, clang: good, prof: Prof::Age(5), times: false, given: None, answer: Answer::First, tui: false };
    let mut out = vec![];
    let clangs = [
        Clang::Says("Ubuntu clang version 18.1.3 (1ubuntu1)\nTarget: x86_64-pc-linux-gnu\nThread model: posix\n", true),
        Clang::Says("clang version 9.0.0 (tags/RELEASE_900/final)\n", true),
        Clang::Says("clang version 9.0", true),
        Clang::Says("Debian clang version 11.0.1-2\n", true),
        Clang::Says("Apple clang version 14.0.3 (clang-1403.0.22.14.1)\n", true),
        Clang::Says("clang version 10.0.0-4ubuntu1 \n", true),
        Clang::Says("clang version 100.0.0\n", true),
        Clang::Says("clang version 8.0.1-9 (tags/RELEASE_801/final)\n", false),
        Clang::Says("clang version 3.8.1\n", false),
        Clang::Says("clang version 0.9\n", false),
        Clang::Says("g++ (Ubuntu 13.3.0-6ubuntu2) 13.3.0\n", false),
        Clang::Says("clang version unknown\n", false),
        Clang::Says("clang version 99999999999999999999999.0\n", false),
        Clang::Says("\n", false),
        Clang::Says("", false),
        Clang::Missing,
        Clang::NotExecutable,
        Clang::Fails(1),
        Clang::Fails(255),
        Clang::Dies,
        Clang::Binary,
        Clang::OnlyStderr,
    ];
    let bad_dbs = [Db::Missing, Db::Directory, Db::NoJson, Db::NoList, Db::BadEntry, Db::NotUtf8];
    for clang in clangs {
        for prof in [Prof::Age(5), Prof::Missing] {
            out.push(Case { clang, prof, ..base.clone() });
        }
        if ck.thorough() {
            for db in bad_dbs {
                out.push(Case { clang, db, ..base.clone() });
            }
        }
    }
    for db in bad_dbs {
        for prof in [Prof::Age(5), Prof::Missing, Prof::Stale(0)] {
            out.push(Case { db, prof, ..base.clone() });
        }
        out.push(Case { db, clang: Clang::Missing, ..base.clone() });
        out.push(Case { db, given: Some("other.csv"), ..base.clone() });
    }
    let mut profs = vec![Prof::Missing, Prof::Age(2), Prof::Age(40), Prof::StaleDb, Prof::Stale(0), Prof::Stale(1), Prof::NoSource(0), Prof::NoSource(1), Prof::Future(500), Prof::Future(OLD)];
    profs.extend([62, 95, 125, 3570, 3610, 7170, 7210, 86370, 86410, 172770, 172810, OLD * 30].map(Prof::Age));
    profs.extend((0..BAD.len()).map(Prof::Bad));
    for prof in profs {
        let usual = matches!(prof, Prof::Missing | Prof::Age(2 | 62) | Prof::Stale(0) | Prof::Future(500) | Prof::Bad(0));
        let special = [Some("./cmakeperf.csv"), Some("cmakeperf.csv"), Some("sub/deep.csv"), Some("/")].into_iter().filter(|_| usual || ck.thorough());
        for given in [None, Some("other.csv")].into_iter().chain(special) {
            for answer in ANSWERS {
                let c = Case { prof, given, answer, ..base.clone() };
                let asked = c.asks().is_some_and(|a| a != Ask::Nothing);
                if !asked && answer != Answer::First {
                    continue;
                }
                // Ages only differ in how they are told
                let ages = matches!(prof, Prof::Age(s) if s > 62);
                if ages && answer != Answer::First && !ck.thorough() {
                    continue;
                }
                for files in ck.pick(vec![2], vec![1, 2, 3]) {
                    if matches!(prof, Prof::Stale(n) | Prof::NoSource(n) if n >= files) || files == 1 && matches!(prof, Prof::Bad(_)) {
                        continue;
                    }
                    for times in [false, true] {
                        if times && (answer != Answer::First || asked && prof != Prof::Age(62)) {
                            continue;
                        }
                        out.push(Case { files, times, tui: answer == Answer::Second, ..c.clone() });
                    }
                }
            }
        }
    }
    for (prof, answer) in [(Prof::Age(5), Answer::First), (Prof::Missing, Answer::First), (Prof::Missing, Answer::Second), (Prof::Age(100), Answer::First), (Prof::Age(100), Answer::Second), (Prof::StaleDb, Answer::Second)] {
        for times in [false, true] {
            out.push(Case { files: 0, prof, answer, times, ..base.clone() });
        }
    }
    for files in [1, 3, 5] {
        for answer in [Answer::First, Answer::Second] {
            for prof in [Prof::Missing, Prof::Age(100), Prof::Stale(files - 1), Prof::NoSource(files - 1)] {
                out.push(Case { files, prof, answer, ..base.clone() });
            }
        }
    }
    let mut seen = std::collections::HashSet::new();
    out.retain(|c| seen.insert(c.clone()));
    out
}

pub fn run() {
    let ck = Ck::new("C26");
    ck.case_timeout(900);
    let limit = ck.pick(600.0, 3000.0);
    let workers = std::env::var("MC_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(16);
    let all = cases(ck);
    let only = std::env::var("MC_ONLY").ok();
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for worker in 0..workers {
            let (all, next, only) = (&all, &next, &only);
            s.spawn(move || {
                let base = scratch().join(format!("w{worker}"));
                while let Some(c) = all.get(next.fetch_add(1, Ordering::Relaxed)) {
                    let name = format!("{c:?}");
                    if only.as_ref().is_some_and(|o| !name.contains(o.as_str())) {
                        continue;
                    }
                    if ck.elapsed() > limit {
                        return ck.not_exhaustive("time budget of the tier");
                    }
                    ck.traces(1);
                    ck.state(c);
                    match play(c, &base, worker) {
                        Ok(how) => {
                            ck.transitions(1);
                            ck.bump(how, 1);
                            ck.sample(|| json!({"case": name, "end": how}));
                        }
                        Err(e) => match play(c, &base, worker) {
                            Err(e) => ck.violation(&name, &e),
                            Ok(_) => {
                                ck.bump("not_reproduced", 1);
                                println!("not reproduced: {name}: {e}");
                            }
                        },
                    }
                }
            });
        }
    });
    crate::done(ck)
}
