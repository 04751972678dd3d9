//! C24: choosing a file in the table analyses that file.
//!
//! The real program shows a build profile; the driver enumerates databases,
//! sort orders, rows, the age of the existing trace, the answer of the user
//! and everything that clang may do, one after another in the same session.
use crate::{
    app::{App, Kind, Setup, State},
    json, scratch, Ck,
};
use std::{
    path::{Path, PathBuf},
    time::{Duration, SystemTime},
};

/// What is there before the file is chosen
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Before {
    NoTrace,
    /// Trace that was just measured
    Fresh,
    /// Unchanged sources, but not so recent (minutes)
    Old(u64),
    /// Seems to come from the future
    Future,
    /// Source file is more recent
    Stale,
    /// Compilation database is more recent
    StaleDb,
    /// Fresh, but not a trace
    Broken,
    NoSource,
    NoEntry,
    NoOutput,
}
/// How the user replies to the question, if there is one
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Reply {
    Measure,
    Keep,
    Escape,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Out {
    /// 0: stdout, 1: stderr
    Print(u8, usize),
    /// Bytes that are not text
    Binary(u8),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum End {
    Good,
    /// Claims success, but writes nothing
    Silent,
    Fails(u8),
    Dies(u8),
    /// The user aborts instead
    Abort,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Step {
    /// Column to click on and how often
    pub sort: Option<(usize, usize)>,
    pub row: usize,
    pub before: Before,
    pub reply: Reply,
    pub prints: Vec<Out>,
    pub end: End,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Session {
    pub db: usize,
    /// Other times for its files
    pub times: Option<[&'static str; 3]>,
    pub gran: Option<u64>,
    pub steps: Vec<Step>,
}

struct Unit {
    /// As the table shows it
    rel: &'static str,
    rss: u64,
    time: Option<f32>,
    /// Compiler arguments, as recorded and as they must arrive
    command: String,
    args: Vec<String>,
    cwd: PathBuf,
    /// Where the trace belongs
    trace: PathBuf,
    output: Option<String>,
}

fn units(db: usize, dir: &Path) -> Vec<Unit> {
    let s = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    let d = |p: &str| dir.join(p).to_str().unwrap().to_string();
    let mut out = vec![];
    let mut add = |rel, rss, time, args: Vec<String>, command: String, cwd: &str, trace: &str, output: Option<&str>| {
        let cwd = if cwd.is_empty() { dir.to_path_buf() } else { dir.join(cwd) };
        let command = command.replace('@', dir.to_str().unwrap());
        out.push(Unit { rel, rss, time: Some(time), command, args, cwd, trace: dir.join(trace), output: output.map(|o| o.to_string()) })
    };
    match db {
        // As CMake writes it, with ties
        0 => {
            for (rel, rss, t) in [("src/b.cpp", 300_000_000, 2.0), ("src/a.cpp", 700_000_000, 1.0), ("src/c.cpp", 300_000_000, 3.5)] {
                let o = format!("{}.o", rel);
                add(rel, rss, t, s(&["-o", &o, "-c", &d(rel)]), format!("@/c/bin/cc -o {o} -c @/{rel}"), "", &format!("{rel}.json"), None);
            }
        }
        // Quoting, other directories, other positions
        1 => {
            add(
                "src/b.cpp",
                100_000_000,
                9.0,
                s(&["-DX=a b", "-DY=\"q\"", "", "-I$HOME/*", "-c", &d("src/b.cpp"), "-o", "out/b.o", "-DÉ=1", "-w"]),
                r#"cc "-DX=a b" -DY=\"q\" '' '-I$HOME/*' -c @/src/b.cpp -o out/b.o -DÉ=1 -w"#.into(),
                "obj dir",
                "obj dir/out/b.json",
                None,
            );
            add(
                "src/a.cpp",
                200_000_000,
                1.0,
                s(&["-std=c++20", "-o", "x/../a.x.o", "-c", "--", "../src/a.cpp"]),
                "/usr/bin/c++ -std=c++20 -o x/../a.x.o -c -- ../src/a.cpp".into(),
                "obj dir",
                "obj dir/a.x.json",
                None,
            );
            add(
                "obj dir/gen.cpp",
                300_000_000,
                0.5,
                s(&["-O2", "-g", "-c", "gen.cpp", "-Wno-x", "-o", &d("src/gen.o")]),
                "c++ -O2 -g -c gen.cpp -Wno-x -o @/src/gen.o".into(),
                "obj dir",
                "src/gen.json",
                None,
            );
        }
        // CMake tells the output file
        _ => {
            for (rel, rss, t) in [("a.cpp", 1u64, 1.0), ("src/a.cpp", 2, 1.0), ("src/deep/er/a.cpp", 1, 2.0)] {
                let o = format!("obj/{}.o", rel.replace('/', "_"));
                add(rel, rss * 1_000_000_000, t, s(&["-c", &d(rel), "-o", &o]), format!("cc -c @/{rel} -o {o}"), "", &format!("obj/{}.json", rel.replace('/', "_")), Some(&o));
            }
        }
    }
    out
}

pub fn trace_text(tag: &str) -> String {
    format!(
        r#"{{"traceEvents":[{{"ph":"X","pid":7,"tid":7,"ts":1000,"dur":1000,"name":"ExecuteCompiler"}},{{"ph":"X","pid":7,"tid":7,"ts":3000,"dur":500,"name":"ParseClass","args":{{"detail":"{tag}"}}}},{{"cat":"","pid":7,"tid":7,"ts":0,"ph":"M","name":"process_name","args":{{"name":"clang"}}}}],"beginningOfTime":1}}"#
    )
}

pub struct Found {
    pub log: Vec<String>,
    pub states: u64,
    pub violation: Option<String>,
}

/// What a text of this many bytes looks like
fn printed(stream: u8, n: usize) -> String {
    let mut s = String::new();
    let mut i = 0;
    while s.len() < n {
        s += &format!("{}{i:05} message text\n", if stream == 0 { 'o' } else { 'e' });
        i += 1;
    }
    s.truncate(n);
    s
}

pub fn run_session(ss: &Session, worker: usize, base: &Path) -> Found {
    let mut found = Found { log: vec![], states: 0, violation: None };
    if let Err(e) = try_session(ss, worker, base, &mut found) {
        found.violation = Some(e);
    }
    found
}

fn try_session(ss: &Session, worker: usize, base: &Path, found: &mut Found) -> Result<(), String> {
    let _ = std::fs::remove_dir_all(base);
    let dir = base.join("d");
    let ctl = base.join("c");
    for sub in ["src/deep/er", "obj", "obj dir/out", "obj dir/x"] {
        std::fs::create_dir_all(dir.join(sub)).unwrap();
    }
    std::fs::create_dir_all(ctl.join("bin")).unwrap();
    let me = std::env::current_exe().unwrap();
    std::os::unix::fs::symlink(&me, ctl.join("bin/clang++")).unwrap();
    let mut units = units(ss.db, &dir);
    for (u, t) in units.iter_mut().zip(ss.times.iter().flatten()) {
        u.time = t.parse().ok();
    }
    let units = units;
    let now = SystemTime::now();
    let age = |p: &Path, mins: u64| {
        let f = std::fs::File::open(p).unwrap();
        f.set_modified(now - Duration::from_secs(60 * mins)).unwrap();
    };
    let mut csv = "file,max_rss,time\n".to_string();
    for (i, u) in units.iter().enumerate() {
        let time = ss.times.map_or_else(|| u.time.unwrap().to_string(), |t| t[i].to_string());
        csv += &format!("{},{},{}\n", u.rel, u.rss, time);
        std::fs::write(dir.join(u.rel), "int x;\n").unwrap();
        age(&dir.join(u.rel), 600);
    }
    std::fs::write(dir.join("cmakeperf.csv"), &csv).unwrap();
    age(&dir.join("cmakeperf.csv"), 0);
    // The database is loaded once, when the program starts
    let mut db = vec![];
    for (i, u) in units.iter().enumerate() {
        // Every file is chosen in one way or another
        let before: Vec<Before> = ss.steps.iter().filter(|s| s.before == Before::NoEntry || s.before == Before::NoOutput).map(|s| s.before).collect();
        let special = ss.steps.iter().position(|s| s.before == Before::NoEntry || s.before == Before::NoOutput).map(|k| ss.steps[k].row);
        let here = special.is_some_and(|r| order(&units, ss, 0, ss.steps.len()).get(r) == Some(&i));
        if here && before[0] == Before::NoEntry {
            continue;
        }
        let mut e = json!({
            "directory": u.cwd.to_str().unwrap(),
            "command": if here { format!("cc -c {}", u.rel) } else { u.command.clone() },
            "file": dir.join(u.rel).to_str().unwrap(),
        });
        if let (Some(o), false) = (&u.output, here) {
            e["output"] = json!(o);
        }
        db.push(e);
    }
    std::fs::write(dir.join("compile_commands.json"), json!(db).to_string()).unwrap();
    age(&dir.join("compile_commands.json"), 600);
    let gran = ss.gran.map(|g| g.to_string());
    let mut args = vec![];
    if let Some(g) = &gran {
        args.extend(["-g", g]);
    }
    let mut app = App::start(&Setup { dir: &dir, ctl: &ctl, args: &args, cols: 100, rows: 30, hold: false, reads: None, cpu: worker });
    let crash = |app: &App| -> Result<(), String> {
        match app.ended() {
            true => Err(format!("the program ended ({}): {}", app.status.unwrap(), app.stderr().trim())),
            false => Ok(()),
        }
    };
    let table = |a: &App| a.screen.has("Source file") && !a.screen.has("<") && !a.screen.has("Self");
    app.wait_until(Duration::from_secs(20), |a| a.ended() || table(a));
    app.settle();
    crash(&app)?;
    if !table(&app) {
        return Err(format!("the build profile is not shown:\n{}", app.screen.text()));
    }
    let mut col = 0;
    for (n, st) in ss.steps.iter().enumerate() {
        // Sort
        if let Some((c, times)) = st.sort {
            for _ in 0..times {
                let mut keys = String::from("\x1b[C");
                for _ in 0..3 {
                    keys += "\x1b[D";
                }
                for _ in 0..c {
                    keys += "\x1b[C";
                }
                app.key(&keys);
                app.key("\r");
            }
            col = c;
            found.log.push(format!("sort {c} x{times}"));
            app.settle();
            crash(&app)?;
        }
        let _ = col;
        // Choose the row
        app.key("\x1b[B\x1b[A\x1b[A\x1b[A\x1b[A");
        for _ in 0..st.row {
            app.key("\x1b[B");
        }
        app.settle();
        crash(&app)?;
        // The table: every file once, in order, with its figures
        let rows: Vec<String> = app.screen.lines().iter().filter(|l| l.contains(".cpp")).cloned().collect();
        if rows.len() != units.len() {
            return Err(format!("the table has {} rows for {} files:\n{}", rows.len(), units.len(), app.screen.text()));
        }
        let mut shown = vec![];
        for r in &rows {
            let file = r.split('┆').next_back().unwrap().trim().trim_end_matches(['█', '░', '│', '▒', '║', '┃', ' ']);
            let Some(k) = units.iter().position(|u| u.rel == file) else {
                return Err(format!("the table shows {file:?}, which is not a file of the profile:\n{}", app.screen.text()));
            };
            let u = &units[k];
            let time = u.time.map_or(String::new(), |t| format!("{t:.1}s"));
            for want in [format!("{:.2} GB", u.rss as f32 / 1e9), time] {
                // At least what fits into the column
                if !r.contains(&want[..want.len().min(7)]) {
                    return Err(format!("the table does not show {want} for {file}:\n{}", app.screen.text()));
                }
            }
            shown.push(k);
        }
        let mut uniq = shown.clone();
        uniq.sort();
        uniq.dedup();
        if uniq.len() != units.len() {
            return Err(format!("the table does not show every file once:\n{}", app.screen.text()));
        }
        // In which order?
        let (c, up) = sorting(ss, n);
        let key = |k: usize| -> (f64, String) {
            match c {
                0 => (units[k].rss as f64, String::new()),
                1 => (units[k].time.unwrap_or(f32::NAN) as f64, String::new()),
                _ => (0.0, units[k].rel.replace('/', "\0")),
            }
        };
        // (where there is no time, or none that is a number, any place will do)
        let shown_all = shown;
        let shown: Vec<usize> = shown_all.iter().copied().filter(|&k| !key(k).0.is_nan()).collect();
        let sorted = shown.windows(2).all(|w| match up {
            Some(true) => key(w[0]) <= key(w[1]),
            Some(false) => key(w[0]) >= key(w[1]),
            None => true,
        });
        let either = shown.windows(2).all(|w| key(w[0]) <= key(w[1])) || shown.windows(2).all(|w| key(w[0]) >= key(w[1]));
        if !sorted || !either {
            return Err(format!("the table is not sorted by column {c} ({up:?}):\n{}", app.screen.text()));
        }
        // Which row is highlighted?
        let ys: Vec<usize> = (0..app.screen.rows).filter(|&y| app.screen.row(y).iter().collect::<String>().contains(".cpp")).collect();
        let plain = app.screen.marks[ys[ys.len() - 1] + 1][1];
        let lit: Vec<usize> = ys.iter().enumerate().filter(|(_, &y)| app.screen.marks[y][1] != plain).map(|(i, _)| i).collect();
        let [lit] = lit[..] else {
            return Err(format!("{} rows are highlighted:\n{}", lit.len(), app.screen.text()));
        };
        if lit != st.row {
            return Err(format!("row {lit} is highlighted instead of row {}:\n{}", st.row, app.screen.text()));
        }
        let u = &units[shown_all[lit]];
        let src = dir.join(u.rel);
        found.log.push(format!("{} {:?} {:?} {:?} {:?}", u.rel, st.before, st.reply, st.prints, st.end));
        // What is there?
        let old_tag = format!("Old{n}x");
        let new_tag = format!("New{n}x");
        let _ = std::fs::remove_file(&u.trace);
        let old = if let Before::Old(m) = st.before { m } else { 90 };
        age(&src, old + 600);
        age(&dir.join("compile_commands.json"), old + 600);
        match st.before {
            Before::NoTrace => {}
            Before::Broken => std::fs::write(&u.trace, "{\"traceEvents\":[").unwrap(),
            _ => {
                std::fs::write(&u.trace, trace_text(&old_tag)).unwrap();
                if st.before != Before::Fresh {
                    age(&u.trace, old);
                }
                if st.before == Before::Future {
                    let f = std::fs::File::open(&u.trace).unwrap();
                    f.set_modified(now + Duration::from_secs(86400)).unwrap();
                }
            }
        }
        // The other files have just been edited, which must not matter
        for o in units.iter().filter(|o| o.rel != u.rel) {
            if dir.join(o.rel).exists() {
                let f = std::fs::File::open(dir.join(o.rel)).unwrap();
                f.set_modified(SystemTime::now()).unwrap();
            }
        }
        match st.before {
            Before::Stale => age(&src, 30),
            Before::StaleDb => age(&dir.join("compile_commands.json"), 30),
            Before::NoSource => std::fs::rename(&src, dir.join("away")).unwrap(),
            _ => {}
        }
        let conns = app.conns.len();
        app.key("\r");
        let view = |a: &App| a.screen.has("Activity") && a.screen.has("Self") && !a.screen.has("Processing time trace");
        let settled = |a: &App| a.ended() || a.screen.has("<Ok>") || a.screen.has("<Yes>") || a.screen.has("<Reuse>") || view(a) || a.conns.len() > conns;
        let wait = |app: &mut App, what: &str| -> Result<(), String> {
            let ok = app.wait_until(Duration::from_secs(20), &settled);
            app.settle();
            crash(app)?;
            if !ok {
                return Err(format!("{what}: nothing happens any more; the screen shows:\n{}", app.screen.text()));
            }
            Ok(())
        };
        wait(&mut app, "after choosing the file")?;
        found.states += 1;
        let asked = app.screen.has("<Yes>") || app.screen.has("<Reuse>");
        let must_ask = matches!(st.before, Before::NoTrace | Before::Old(_) | Before::Future | Before::Stale | Before::StaleDb);
        if asked != must_ask {
            return Err(format!(
                "{} ({:?}) the user is {} whether to measure:\n{}",
                u.rel,
                st.before,
                if asked { "asked" } else { "not asked" },
                app.screen.text()
            ));
        }
        let words = app.screen.text().split(|c: char| c.is_whitespace() || c == '│').filter(|w| !w.is_empty()).collect::<Vec<_>>().join(" ");
        let outdated = matches!(st.before, Before::Stale | Before::StaleDb);
        if asked && outdated != words.contains("not up to date") {
            return Err(format!("{} ({:?}) the question is the wrong one:\n{}", u.rel, st.before, app.screen.text()));
        }
        if asked {
            let age = crate::c26::age(&words);
            let told = match (st.before, age) {
                (Before::Old(m), Some((n, unit))) => {
                    let s = m * 60;
                    let next = if unit == 60 { s >= 3600 } else { unit == 3600 && s >= 86400 };
                    n == s / unit && n > 0 && !next && !(n != 1 && words.contains(" day ago") || n == 1 && words.contains(" days ago"))
                }
                (Before::Old(_), None) => false,
                _ => !words.contains(" ago"),
            };
            if !told {
                return Err(format!("{} ({:?}) the question tells the wrong age:\n{}", u.rel, st.before, app.screen.text()));
            }
        }
        let mut expect_view: Option<&str> = None;
        let mut measure = false;
        match st.before {
            Before::Fresh => expect_view = Some(&old_tag),
            Before::Broken | Before::NoSource | Before::NoEntry | Before::NoOutput => {
                if !app.screen.has("<Ok>") {
                    return Err(format!("{:?} is not reported:\n{}", st.before, app.screen.text()));
                }
            }
            _ => {
                let yes = app.screen.has("<Yes>");
                match (st.reply, yes) {
                    (Reply::Escape, _) => app.key("\x1b"),
                    (Reply::Measure, true) | (Reply::Keep, false) => app.key("\r"),
                    _ => app.key("\x1b[C\r"),
                }
                if st.reply == Reply::Keep && st.before != Before::NoTrace {
                    expect_view = Some(&old_tag);
                    wait(&mut app, "after answering")?;
                } else if st.reply == Reply::Measure {
                    measure = true;
                } else {
                    app.wait_until(Duration::from_secs(10), |a| a.ended() || table(a));
                    app.settle();
                    crash(&app)?;
                    if !table(&app) {
                        return Err(format!("declining does not lead back to the table:\n{}", app.screen.text()));
                    }
                }
            }
        }
        if !measure && app.conns.len() > conns {
            return Err(format!("{:?}/{:?}: clang is run although nobody asked for it", st.before, st.reply));
        }
        if measure {
            app.wait_until(Duration::from_secs(20), |a| a.ended() || a.screen.has("<Ok>") || a.conns.get(conns).is_some_and(|c| c.state == State::Parked));
            app.settle();
            crash(&app)?;
            let Some(Kind::Proc { name, cwd, args, .. }) = app.conns.get(conns).map(|c| c.kind.clone()) else {
                return Err(format!("clang is not run:\n{}", app.screen.text()));
            };
            // The command: the one of this file, and nothing but time-trace
            // options (ahead of anything that is not an option)
            let mut rest = args.clone();
            let end_of_options = rest.iter().position(|a| a == "--").unwrap_or(rest.len());
            let mut remove = |what: String| -> bool {
                match rest.iter().position(|a| *a == what) {
                    Some(k) if k < end_of_options => {
                        rest.remove(k);
                        true
                    }
                    _ => false,
                }
            };
            let mut ok = remove("-ftime-trace".into());
            if let Some(g) = &gran {
                ok &= remove(format!("-ftime-trace-granularity={g}"));
            }
            if name != "clang++" || !ok || rest != u.args {
                return Err(format!("for {}, {name} is run with {args:?} instead of {:?} and the time-trace options", u.rel, u.args));
            }
            if Path::new(&cwd) != u.cwd {
                return Err(format!("for {}, clang is run in {cwd} instead of {}", u.rel, u.cwd.display()));
            }
            if !app.screen.has("minimize system activity") {
                return Err(format!("the screen does not tell about the measurement:\n{}", app.screen.text()));
            }
            // What clang does
            let (mut so, mut se) = (String::new(), String::new());
            let mut binary = false;
            for p in &st.prints {
                let cmd = match *p {
                    Out::Print(s, len) => {
                        let t = printed(s, len);
                        if s == 0 { so += &t } else { se += &t }
                        t.into_bytes()
                    }
                    Out::Binary(s) => {
                        binary = true;
                        if s == 0 { so += "bin" } else { se += "bin" }
                        b"bin\x1b[31m\xff\xfe\x00\t\x08\r\xc3".to_vec()
                    }
                };
                let s = match *p {
                    Out::Print(s, _) | Out::Binary(s) => s,
                };
                let f = ctl.join("text");
                std::fs::write(&f, &cmd).unwrap();
                app.tell(conns, &format!("copy\t{}\t{}", s + 1, f.display()));
                let ok = app.wait_until(Duration::from_secs(10), |a| a.ended() || a.conns[conns].state != State::Running);
                crash(&app)?;
                if !ok && st.end != End::Abort {
                    return Err(format!("clang cannot go on after printing {} bytes", so.len() + se.len()));
                }
                found.states += 1;
            }
            match st.end {
                End::Good => {
                    app.tell(conns, &format!("write\t{}\t{}", u.trace.display(), trace_text(&new_tag)));
                    app.wait_until(Duration::from_secs(10), |a| a.conns[conns].state != State::Running);
                    app.tell(conns, "exit\t0");
                    expect_view = Some(&new_tag);
                }
                End::Silent => app.tell(conns, "exit\t0"),
                End::Fails(c) => app.tell(conns, &format!("exit\t{c}")),
                End::Dies(s) => app.tell(conns, &format!("signal\t{s}")),
                End::Abort => app.key("\r"),
            }
            let over = |a: &App| a.ended() || !a.screen.has("minimize system activity") && a.conns[conns].state == State::Closed && (table(a) || view(a) || a.screen.has("<Ok>"));
            let ok = app.wait_until(Duration::from_secs(20), over);
            app.settle();
            crash(&app)?;
            if !ok {
                return Err(format!("the measurement does not end after {:?} {:?}:\n{}", st.prints, st.end, app.screen.text()));
            }
            if app.conns.len() > conns + 1 {
                return Err(format!("clang is run {} times", app.conns.len() - conns));
            }
            if st.end == End::Silent && !app.screen.has("<Ok>") {
                return Err(format!("it is not reported that there is no trace:\n{}", app.screen.text()));
            }
            let status = match st.end {
                End::Fails(c) => Some(format!("exit status: {c}")),
                End::Dies(s) => Some(format!("signal: {s}")),
                _ => None,
            };
            if let Some(s) = status {
                let text = app.screen.text();
                if !text.contains(&s) || !text.contains("<Ok>") {
                    return Err(format!("clang's failure ({s}) is not reported:\n{text}"));
                }
                // All of a short message, and the beginning of a long one
                let first = if so.is_empty() { &se } else { &so };
                let fits = so.len() + se.len() < 200;
                let words: Vec<&str> = if fits {
                    so.split_whitespace().chain(se.split_whitespace()).collect()
                } else if binary {
                    vec![]
                } else {
                    first.split_whitespace().take(3).collect()
                };
                for w in words {
                    let w = if binary { "bin" } else { w };
                    if !text.contains(w) {
                        return Err(format!("what clang said ({w:?}) is not shown:\n{text}"));
                    }
                }
            }
            if st.end == End::Abort && !table(&app) {
                return Err(format!("Abort does not lead back to the table:\n{}", app.screen.text()));
            }
        }
        if let Some(tag) = expect_view {
            app.wait_until(Duration::from_secs(20), |a| a.ended() || view(a) || a.screen.has("<Ok>"));
            app.settle();
            crash(&app)?;
            if !view(&app) || !app.screen.has(tag) {
                return Err(format!("the trace {tag} of {} is not shown:\n{}", u.rel, app.screen.text()));
            }
            app.key("\x1b");
        } else if app.screen.has("<Ok>") {
            app.key("\r");
        }
        found.states += 1;
        let ok = app.wait_until(Duration::from_secs(10), |a| a.ended() || table(a));
        app.settle();
        crash(&app)?;
        if !ok {
            return Err(format!("there is no way back to the table:\n{}", app.screen.text()));
        }
        if st.before == Before::NoSource {
            std::fs::rename(dir.join("away"), &src).unwrap();
        }
    }
    // Leave
    app.key("q");
    app.wait_until(Duration::from_secs(10), |a| a.ended() || a.screen.has("Ready to quit?"));
    app.settle_for(Duration::from_millis(40), Duration::from_secs(2));
    app.key("\r");
    if !app.wait_until(Duration::from_secs(15), |a| a.ended()) {
        return Err(format!("the program does not end:\n{}", app.screen.text()));
    }
    let err = app.stderr();
    if !app.status.unwrap().success() || err.contains("panicked") {
        return Err(format!("the program crashed ({}): {}", app.status.unwrap(), err.trim()));
    }
    Ok(())
}

/// Sort column and direction (true: ascending) at a step
fn sorting(ss: &Session, step: usize) -> (usize, Option<bool>) {
    let mut cur = (0, Some(false));
    for s in &ss.steps[..=step.min(ss.steps.len() - 1)] {
        if let Some((c, times)) = s.sort {
            for _ in 0..times {
                cur = if cur.0 == c { (c, cur.1.map(|u| !u)) } else { (c, Some(c == 2)) };
            }
        }
    }
    cur
}

/// Order of the files at a step, the first ones of equals first
fn order(units: &[Unit], ss: &Session, _: usize, _: usize) -> Vec<usize> {
    // Only used without sorting
    let _ = ss;
    let mut v: Vec<usize> = (0..units.len()).collect();
    v.sort_by(|a, b| units[*b].rss.cmp(&units[*a].rss));
    v
}

fn plain(row: usize, before: Before, reply: Reply) -> Step {
    Step { sort: None, row, before, reply, prints: vec![], end: End::Good }
}

pub fn sessions(ck: &Ck) -> Vec<Session> {
    use Before::*;
    let mut out = vec![];
    let befores = [NoTrace, Fresh, Old(90), Future, Stale, StaleDb, Broken, NoSource, NoEntry, NoOutput];
    let replies = |b: Before| -> Vec<Reply> {
        match b {
            NoTrace | Old(_) | Future | Stale | StaleDb => vec![Reply::Measure, Reply::Keep, Reply::Escape],
            _ => vec![Reply::Keep],
        }
    };
    // 1. Every database, granularity, sort order: all files one after another
    let sorts: &[Option<(usize, usize)>] = &[None, Some((0, 1)), Some((1, 1)), Some((1, 2)), Some((2, 1)), Some((2, 2))];
    for db in 0..3 {
        for gran in [None, Some(0), Some(u64::MAX)] {
            for sort in sorts {
                let orders: &[[usize; 3]] =
                    if ck.thorough() { &[[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]] } else { &[[2, 0, 1]] };
                for o in orders {
                    let mut steps: Vec<Step> = o.iter().map(|&r| plain(r, NoTrace, Reply::Measure)).collect();
                    steps[0].sort = *sort;
                    out.push(Session { db, times: None, gran, steps });
                }
            }
        }
        // Profiles with times that are missing, or unusual
        if db == 0 {
            let values = ["", "1.5", "NaN", "-1", "0", "inf", "1e20", "-inf", "-NaN"];
            let n = ck.pick(5, values.len());
            for i in 0..n * n * n {
                let times = [values[i / n / n], values[i / n % n], values[i % n]];
                if times == ["", "", ""] {
                    continue;
                }
                let mut steps: Vec<Step> = (0..3).map(|r| plain(r, Fresh, Reply::Keep)).collect();
                steps[0].sort = Some((1, 1));
                steps[1].sort = Some((1, 1));
                steps[2].sort = Some((2, 1));
                out.push(Session { db, times: Some(times), gran: None, steps });
            }
        }
        // Sort again in between
        for (a, b) in (0..3).flat_map(|a| (0..3).map(move |b| (a, b))) {
            for c in 0..if ck.thorough() { 3 } else { 1 } {
                let mut steps: Vec<Step> = (0..3).map(|r| plain(r, Fresh, Reply::Keep)).collect();
                steps[0].sort = Some((a, 1));
                steps[1].sort = Some((b, 1));
                steps[2].sort = Some((c, 1));
                out.push(Session { db, times: None, gran: None, steps });
            }
        }
    }
    // 2. What is there before, and the reply, twice in a row
    let firsts: Vec<(Before, Reply)> = befores.iter().flat_map(|b| replies(*b).into_iter().map(move |r| (*b, r))).collect();
    for (i, a) in firsts.iter().enumerate() {
        for (j, b) in firsts.iter().enumerate() {
            if !ck.thorough() && (i + 2 * j) % 7 != 0 && i != j {
                continue;
            }
            // These two are part of the database
            let fixed = |x: Before| x == NoEntry || x == NoOutput;
            for same in [false, true] {
                if (fixed(a.0) || fixed(b.0)) && (same || fixed(a.0) == fixed(b.0)) {
                    if same || a.0 != b.0 {
                        continue;
                    }
                }
                if same && !ck.thorough() && i != j {
                    continue;
                }
                let mut steps = vec![plain(1, a.0, a.1), plain(if same { 1 } else { 2 }, b.0, b.1)];
                if fixed(a.0) && fixed(b.0) {
                    steps[1].row = 1;
                }
                for db in 0..ck.pick(1, 3) {
                    out.push(Session { db, times: None, gran: None, steps: steps.clone() });
                }
            }
        }
    }
    // ... and how the question tells the age
    for (i, m) in [1, 2, 59, 60, 61, 119, 120, 1439, 1440, 1441, 2879, 2880, 4321, 14400].into_iter().enumerate() {
        let mut steps = vec![plain(i % 3, Old(m), Reply::Escape), plain((i + 1) % 3, Old(m), Reply::Keep)];
        steps.push(steps[0].clone());
        steps[2].reply = Reply::Measure;
        out.push(Session { db: i % 3, times: None, gran: None, steps });
    }
    // Success without a trace, with and without an earlier one
    for (i, b) in [NoTrace, Old(90), Stale, Future].into_iter().enumerate() {
        let mut steps = vec![plain(1, b, Reply::Measure); 2];
        steps[0].end = End::Silent;
        out.push(Session { db: i % 3, times: None, gran: None, steps });
    }
    // 3. What clang prints, and how it ends
    let mut alphabet = vec![Out::Binary(0), Out::Binary(1)];
    for s in 0..2 {
        for n in [30, 65536, 65537, 200_000] {
            alphabet.push(Out::Print(s, n));
        }
    }
    let mut prints: Vec<Vec<Out>> = vec![vec![]];
    for a in &alphabet {
        prints.push(vec![*a]);
        for b in &alphabet {
            prints.push(vec![*a, *b]);
        }
    }
    if ck.thorough() {
        let big = [Out::Print(0, 30), Out::Print(1, 30), Out::Print(0, 200_000), Out::Print(1, 200_000)];
        for a in big {
            for b in big {
                for c in big {
                    prints.push(vec![a, b, c]);
                }
            }
        }
    }
    for (i, p) in prints.iter().enumerate() {
        let ends = [End::Good, End::Fails(1), End::Dies(11), End::Abort];
        // Four in a row, the order rotates
        let mut steps = vec![];
        for k in 0..4 {
            let mut s = plain(1, NoTrace, Reply::Measure);
            s.prints = p.clone();
            s.end = ends[(i + k) % 4];
            steps.push(s);
        }
        if ck.thorough() {
            let mut codes = steps.clone();
            for (k, c) in [2u8, 127, 255].iter().enumerate() {
                codes[k].end = End::Fails(*c);
            }
            codes[3].end = End::Dies(9);
            out.push(Session { db: 0, times: None, gran: None, steps: codes });
        }
        out.push(Session { db: 0, times: None, gran: None, steps });
    }
    out
}

pub fn run() {
    let ck = Ck::new("C24");
    ck.case_timeout(600);
    let verbose = std::env::var("MC_VERBOSE").is_ok();
    let only = std::env::var("MC_ONLY").ok();
    let all: Vec<Session> = sessions(ck).into_iter().filter(|s| only.as_ref().map_or(true, |o| format!("{s:?}").contains(o.as_str()))).collect();
    let limit = ck.pick(600.0, 3000.0);
    let next = std::sync::atomic::AtomicUsize::new(0);
    let workers = std::env::var("MC_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(24);
    std::thread::scope(|s| {
        for w in 0..workers {
            let (all, next, ck) = (&all, &next, &ck);
            s.spawn(move || {
                let base = scratch().join(format!("w{w}"));
                loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    let Some(ss) = all.get(i) else { return };
                    if ck.elapsed() > limit {
                        ck.not_exhaustive("time budget of the tier");
                        return;
                    }
                    let mut f = run_session(ss, w, &base);
                    if let Some(v) = &f.violation {
                        // Only what happens again counts: the machine may be busy
                        let again = run_session(ss, w, &base);
                        if again.violation.is_none() {
                            ck.bump("not_reproduced", 1);
                            println!("not reproduced: {ss:?}: {v}");
                        }
                        f = again;
                    }
                    ck.traces(1);
                    ck.transitions(f.states);
                    for n in 0..f.log.len() {
                        ck.state(&(ss.db, ss.times, ss.gran, &f.log[..=n]));
                    }
                    if verbose {
                        println!("{:.1}s {ss:?}: {:?}", ck.elapsed(), f.log);
                    }
                    ck.sample(|| json!({"session": format!("{ss:?}"), "log": f.log}));
                    if let Some(v) = &f.violation {
                        ck.violation(&format!("{ss:?}: {}", f.log.join(" | ")), v);
                    }
                }
            });
        }
    });
    ck.note("sessions", all.len() as u64);
    crate::c24t::run(ck, workers, only.as_deref(), limit);
    crate::done(ck)
}
