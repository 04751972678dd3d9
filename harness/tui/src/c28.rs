//! C28: the command line chooses interface, input and settings as documented.
use crate::{
    app::{App, Setup},
    json, scratch, Ck,
};
use std::{
    collections::HashMap,
    fs::File,
    io::{Read, Write},
    os::fd::{AsRawFd, FromRawFd, RawFd},
    os::unix::process::ExitStatusExt,
    path::{Path, PathBuf},
    process::{Command, Stdio},
    sync::{atomic::*, Mutex},
    time::{Duration, Instant},
};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Stdin {
    Null,
    Tty,
    /// Something is piped in
    Pipe,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Stdout {
    Pipe,
    File,
    /// A terminal of so many columns, zero meaning that it does not tell
    Tty(u16),
}

/// Ended normally with this status, or -1
#[derive(Clone, Debug, PartialEq)]
struct Got {
    code: i32,
    out: String,
    err: String,
}

fn tty(cols: u16, rows: u16) -> (File, File) {
    let (mut m, mut sl): (RawFd, RawFd) = (0, 0);
    let size = libc::winsize { ws_row: rows, ws_col: cols, ws_xpixel: 0, ws_ypixel: 0 };
    unsafe {
        assert_eq!(libc::openpty(&mut m, &mut sl, std::ptr::null_mut(), std::ptr::null_mut(), &size as *const _ as *mut _), 0, "openpty");
        libc::fcntl(m, libc::F_SETFD, libc::FD_CLOEXEC);
        libc::fcntl(sl, libc::F_SETFD, libc::FD_CLOEXEC);
        (File::from_raw_fd(m), File::from_raw_fd(sl))
    }
}

/// Run the program until it ends
fn run_app(dir: &Path, args: &[String], stdin: Stdin, stdout: Stdout, base: &Path) -> Got {
    let mut cmd = Command::new(std::env::var_os("VERIF_APP").expect("VERIF_APP"));
    cmd.args(args).current_dir(dir).env_clear().env("PATH", base).env("TERM", "xterm").env("HOME", base).env("RUST_BACKTRACE", "0").env("RUST_LOG", "off");
    let errs = base.join("stderr");
    cmd.stderr(File::create(&errs).unwrap());
    let mut keep = vec![];
    match stdin {
        Stdin::Null => cmd.stdin(Stdio::null()),
        Stdin::Tty => {
            let (m, s) = tty(77, 20);
            keep.push(m);
            cmd.stdin(s)
        }
        Stdin::Pipe => cmd.stdin(Stdio::piped()),
    };
    let outs = base.join("stdout");
    let mut master = None;
    match stdout {
        Stdout::Pipe => {
            cmd.stdout(Stdio::piped());
        }
        Stdout::File => {
            cmd.stdout(File::create(&outs).unwrap());
        }
        Stdout::Tty(cols) => {
            let (m, s) = tty(cols, if cols == 0 { 0 } else { 20 });
            master = Some(m);
            cmd.stdout(s);
        }
    }
    let mut child = cmd.spawn().expect("starting crofiler");
    drop(cmd);
    if let Some(mut i) = child.stdin.take() {
        let _ = i.write_all(b"{\"traceEvents\":[]}\nq\n");
    }
    let pid = child.id() as i32;
    let mut out = vec![];
    let mut reader: Option<File> = master.or_else(|| child.stdout.take().map(|o| unsafe { File::from_raw_fd(std::os::fd::IntoRawFd::into_raw_fd(o)) }));
    let end = Instant::now() + Duration::from_secs(20);
    let mut killed = false;
    let status = loop {
        if let Some(r) = &mut reader {
            let mut p = libc::pollfd { fd: r.as_raw_fd(), events: libc::POLLIN, revents: 0 };
            if unsafe { libc::poll(&mut p, 1, 100) } > 0 {
                let mut buf = [0; 65536];
                match r.read(&mut buf) {
                    Ok(n) if n > 0 => out.extend(&buf[..n]),
                    _ => reader = None,
                }
            }
        } else if let Some(s) = child.try_wait().unwrap() {
            break s;
        } else {
            std::thread::sleep(Duration::from_millis(1));
        }
        if Instant::now() > end && !killed {
            killed = true;
            unsafe { libc::kill(pid, libc::SIGKILL) };
        }
    };
    if stdout == Stdout::File {
        out = std::fs::read(&outs).unwrap();
    }
    let text = String::from_utf8_lossy(&out).into_owned();
    Got {
        code: if killed { -9 } else { status.code().unwrap_or_else(|| -status.signal().unwrap_or(1)) },
        out: if matches!(stdout, Stdout::Tty(_)) { text.replace("\r\n", "\n") } else { text },
        err: std::fs::read_to_string(&errs).unwrap_or_default(),
    }
}

/// Shares between 2 % and 0.1 %, on both sides of usual thresholds, nested so
/// that flat and hierarchical shares differ
fn trace() -> String {
    let mut ev = vec![json!({"cat":"","pid":7,"tid":7,"ts":0,"ph":"M","name":"process_name","args":{"name":"/usr/lib/llvm/bin/clang-of-some-version"}})];
    let mut at = 1000;
    let mut add = |name: &str, detail: &str, ts: u64, dur: u64| ev.push(json!({"ph":"X","pid":7,"tid":7,"ts":ts,"dur":dur,"name":name,"args":{"detail":detail}}));
    let names = ["std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >", "std::map<std::pair<int, long>, std::vector<unsigned long, std::allocator<unsigned long> > >::node_type", "short"];
    for (i, dur) in [97u64, 30, 20, 13, 11, 9, 8, 6, 5, 4, 3, 2, 1].into_iter().enumerate() {
        let dur = dur * 1000;
        let name = names[i % 3].replace("int", ["int", "float", "char"][i % 2]);
        // Half of it is spent in children
        add("InstantiateClass", &format!("inner{i}::{name}"), at + 10, dur / 3);
        add("Source", &format!("/usr/include/c++/13/some/where/deep{i}/header.hpp"), at + 20 + dur / 3, dur / 5);
        add("ParseClass", &name, at, dur);
        at += dur;
    }
    ev.push(json!({"ph":"X","pid":7,"tid":7,"ts":1000,"dur":1_000_000,"name":"ExecuteCompiler"}));
    json!({"traceEvents": ev, "beginningOfTime": 1}).to_string()
}

/// Heading of the hierarchical part of the report
fn parts(report: &str) -> Result<(String, String), String> {
    let at = report.find("\nHierarchical profile").ok_or_else(|| format!("there is no hierarchical profile in {report:?}"))?;
    Ok((report[..at].into(), report[at..].into()))
}

#[derive(Clone, Debug)]
struct Case {
    args: Vec<String>,
    stdin: Stdin,
    stdout: Stdout,
    want: Want,
}
#[derive(Clone, Debug, PartialEq)]
enum Want {
    /// The report, for a width and thresholds for self and total times
    Report(u16, &'static str, &'static str),
    /// A message, without any report
    Error,
    /// A message and a failure status
    Usage,
    /// Something on standard output
    Text(&'static str),
    /// The text interface, showing this
    Tui(&'static str),
}

struct World {
    dir: PathBuf,
    reports: Mutex<HashMap<(u16, String, String), Result<(String, String), String>>>,
}
impl World {
    fn reference(&self, cols: u16, s: &str, i: &str, base: &Path) -> Result<(String, String), String> {
        let key = (cols, s.to_string(), i.to_string());
        if let Some(r) = self.reports.lock().unwrap().get(&key) {
            return r.clone();
        }
        let args: Vec<String> = ["--ui", "stdio", "-c", &cols.to_string(), "-s", s, "-i", i, "good.json"].iter().map(|s| s.to_string()).collect();
        let got = run_app(&self.dir, &args, Stdin::Null, Stdout::Pipe, base);
        let r = match got.code {
            0 => parts(&got.out),
            n => Err(format!("crofiler {args:?} ends with {n}: {}", got.err)),
        };
        self.reports.lock().unwrap().insert(key, r.clone());
        r
    }

    fn play(&self, c: &Case, base: &Path, worker: usize) -> Result<(), String> {
        let before = self.files();
        let r = match c.want {
            Want::Tui(text) => self.tui(c, text, base, worker),
            _ => self.plain(c, base),
        };
        if self.files() != before {
            return Err("files were changed".into());
        }
        r
    }
    fn files(&self) -> Vec<(String, u64)> {
        let mut v: Vec<_> = std::fs::read_dir(&self.dir).unwrap().flatten().map(|e| (e.file_name().to_string_lossy().into_owned(), e.metadata().map(|m| m.len()).unwrap_or(0))).collect();
        v.sort();
        v
    }
    fn plain(&self, c: &Case, base: &Path) -> Result<(), String> {
        let got = run_app(&self.dir, &c.args, c.stdin, c.stdout, base);
        let fail = |what: &str| Err(format!("{what}\nstatus {}\n{}\n--- errors\n{}", got.code, got.out, got.err));
        if got.code < 0 || got.code == 101 || got.err.contains("panicked") {
            return fail("the program crashes");
        }
        match &c.want {
            Want::Report(cols, s, i) => {
                if got.code != 0 {
                    return fail("the program fails");
                }
                let (flat, tree) = match parts(&got.out) {
                    Ok(p) => p,
                    Err(_) => return fail("this is not a report"),
                };
                // Either part has its own threshold
                let (want, _) = self.reference(*cols, s, "0", base)?;
                if flat != want {
                    return fail(&format!("for {cols} columns and self times above {s}%, the report should begin with\n{want}\n=== and not with"));
                }
                let (_, want) = self.reference(*cols, "0", i, base)?;
                if tree != want {
                    return fail(&format!("for {cols} columns and total times above {i}%, the report should end with\n{want}\n=== and not with"));
                }
                Ok(())
            }
            Want::Error if got.err.trim().is_empty() => fail("there is no message"),
            Want::Error if !got.out.trim().is_empty() => fail("there is a report although there is an error"),
            Want::Error => Ok(()),
            Want::Usage if got.code == 0 || got.err.trim().is_empty() || !got.out.trim().is_empty() => fail("the mistake on the command line is not reported"),
            Want::Usage => Ok(()),
            Want::Text(t) if got.code != 0 || !got.out.contains(t) => fail(&format!("{t:?} is not displayed")),
            Want::Text(_) => Ok(()),
            Want::Tui(_) => unreachable!(),
        }
    }
    fn tui(&self, c: &Case, text: &str, base: &Path, worker: usize) -> Result<(), String> {
        let args: Vec<&str> = c.args.iter().map(|s| s.as_str()).collect();
        let Stdout::Tty(cols) = c.stdout else { unreachable!() };
        let _ = std::fs::remove_dir_all(base);
        std::fs::create_dir_all(base.join("bin")).unwrap();
        let mut app = App::start(&Setup { dir: &self.dir, ctl: base, args: &args, cols, rows: 30, hold: false, reads: None, cpu: worker });
        let fail = |app: &App, what: &str| Err(format!("{what}\nstatus {:?}\n{}\n--- errors\n{}", app.status, app.screen.text(), app.stderr()));
        let flat = |app: &App| app.screen.text().split_whitespace().collect::<Vec<_>>().join(" ");
        app.wait_until(Duration::from_secs(20), |a| a.ended() || flat(a).contains(text));
        if app.ended() || !flat(&app).contains(text) {
            return fail(&app, &format!("the text interface does not show {text:?}"));
        }
        app.settle();
        app.key("q");
        app.wait_until(Duration::from_secs(20), |a| a.ended() || a.screen.has("Ready to quit?"));
        if app.ended() {
            return fail(&app, "the program ends without asking");
        }
        app.settle();
        app.key("\r");
        app.wait_until(Duration::from_secs(20), |a| a.ended());
        if !app.ended() || !app.status.unwrap().success() || app.stderr().contains("panicked") {
            return fail(&app, "the program does not end well");
        }
        Ok(())
    }
}

fn cases(ck: &Ck) -> Vec<Case> {
    let mut out = vec![];
    let v = |a: &[&str]| -> Vec<String> { a.iter().map(|s| s.to_string()).collect() };
    let stdins = [Stdin::Null, Stdin::Tty, Stdin::Pipe];
    let stdouts = [Stdout::Pipe, Stdout::File, Stdout::Tty(0), Stdout::Tty(90), Stdout::Tty(250)];
    let width = |stdout: Stdout, cols: u16| match stdout {
        Stdout::Tty(0) | Stdout::Pipe | Stdout::File => cols,
        Stdout::Tty(n) => n.min(cols),
    };
    // 1. Every way to choose an interface, on every kind of input and output
    for ui in [&[][..], &["--ui", "auto"], &["-u", "auto"], &["--ui=auto"], &["--ui", "stdio"], &["-u", "stdio"], &["-ustdio"], &["--ui", "tui"], &["-utui"]] {
        for stdin in stdins {
            for stdout in stdouts {
                for input in [None, Some("good.json"), Some("bad.json"), Some("absent.json"), Some(".")] {
                    for first in [false, true] {
                        let mut args = v(ui);
                        match input {
                            None if first => continue,
                            None => {}
                            Some(i) if first => args.insert(0, i.into()),
                            Some(i) => args.push(i.into()),
                        }
                        let asked = ui.concat();
                        let both = stdin == Stdin::Tty && matches!(stdout, Stdout::Tty(_));
                        let tui = asked.contains("tui") || !asked.contains("stdio") && both;
                        let want = match input {
                            // Only a terminal that can display it
                            _ if tui && (!both || stdout == Stdout::Tty(0)) => continue,
                            None if tui => Want::Tui("compilation database"),
                            Some("good.json") if tui => Want::Tui("ExecuteCompiler"),
                            Some(_) if tui => Want::Tui("Failed to process input"),
                            Some("good.json") => Want::Report(width(stdout, 200), "0.5", "0.5"),
                            _ => Want::Error,
                        };
                        out.push(Case { args, stdin, stdout, want });
                    }
                }
            }
        }
    }
    // 2. Every width of the terminal with every limit
    for cols in ck.pick(vec![1u16, 2, 3, 4, 5, 7, 10, 16, 25, 40, 41, 60, 79, 80, 81, 100, 150, 199, 200, 201, 300], (1..=210).chain([254, 255, 256, 300, 1000, 65535]).collect()) {
        for limit in [None, Some(1u16), Some(2), Some(20), Some(80), Some(200), Some(300), Some(65535)] {
            let mut args = v(&["--ui", "stdio", "good.json"]);
            if let Some(l) = limit {
                args.extend(v(&["-c", &l.to_string()]));
            }
            let want = Want::Report(cols.min(limit.unwrap_or(200)), "0.5", "0.5");
            out.push(Case { args, stdin: Stdin::Null, stdout: Stdout::Tty(cols), want });
        }
    }
    // 3. Every combination of settings, in every spelling and order
    let levels = ck.pick(vec!["0", "0.5", "1.25"], vec!["0", "0.5", "1.25", "3", "100"]);
    let mut spelled: Vec<(Vec<String>, &'static str, &'static str, u16)> = vec![];
    for s in std::iter::once(None).chain(levels.iter().copied().map(Some)) {
        for i in std::iter::once(None).chain(levels.iter().copied().map(Some)) {
            for c in [None, Some(33u16), Some(120)] {
                for style in 0..3 {
                    let opt = |long: &str, short: &str, value: String| match style {
                        0 => vec![format!("--{long}"), value],
                        1 => vec![format!("--{long}={value}")],
                        _ => vec![format!("-{short}"), value],
                    };
                    let mut groups = vec![vec!["good.json".to_string()]];
                    groups.extend(s.map(|s| opt("self-threshold", "s", s.into())));
                    groups.extend(i.map(|i| opt("hierarchical-threshold", "i", i.into())));
                    groups.extend(c.map(|c| opt("cols", "c", c.to_string())));
                    if style == 1 {
                        // Without any effect here
                        groups.push(v(&["--granularity=17", "--build-profile=absent.csv"]));
                    }
                    for turn in 0..groups.len() {
                        if turn > 0 && !ck.thorough() && style != 0 {
                            continue;
                        }
                        groups.rotate_left(1);
                        spelled.push((groups.concat(), s.unwrap_or("0.5"), i.unwrap_or("0.5"), c.unwrap_or(200)));
                    }
                }
            }
        }
    }
    for (args, s, i, c) in spelled {
        for (stdin, stdout) in [(Stdin::Null, Stdout::Pipe), (Stdin::Pipe, Stdout::File)] {
            out.push(Case { args: args.clone(), stdin, stdout, want: Want::Report(c, s, i) });
        }
    }
    // 4. Mistakes
    for bad in [
        &["--frob"][..], &["-x"], &["good.json", "bad.json"], &["--ui", "gui"], &["--ui"], &["--ui", "TUI "], &["-c", "0"], &["-c", "65536"], &["-c", "-1"], &["-c", "ten"], &["-c", ""], &["-c"], &["-s", "x"],
        &["-s"], &["-s", ""], &["-i", "half"], &["-i"], &["-g", "x"], &["-g", "-1"], &["-g", "1.5"], &["-g"], &["--build-profile"], &["--ui", "stdio", "--ui", "stdio"], &["-c", "5", "-c", "6"],
    ] {
        for rest in [&[][..], &["good.json"]] {
            for (stdin, stdout) in [(Stdin::Null, Stdout::Pipe), (Stdin::Tty, Stdout::Tty(90))] {
                for first in [false, true] {
                    // The file name would be taken for the missing value
                    if !first && rest.len() > 0 && !bad.last().unwrap().is_empty() && bad.len() == 1 && !matches!(bad[0], "--frob" | "-x") {
                        continue;
                    }
                    let args = if first { [rest, bad].concat() } else { [bad, rest].concat() };
                    out.push(Case { args: v(&args), stdin, stdout, want: Want::Usage });
                }
            }
        }
    }
    // 5. Asking for help
    for (args, text) in [(&["--help"][..], "--self-threshold"), (&["-h"], "--self-threshold"), (&["--version"], "crofiler"), (&["-V"], "crofiler"), (&["good.json", "--help"], "--ui")] {
        for (stdin, stdout) in [(Stdin::Null, Stdout::Pipe), (Stdin::Tty, Stdout::Tty(90))] {
            out.push(Case { args: v(args), stdin, stdout, want: Want::Text(text) });
        }
    }
    out
}

pub fn run() {
    let ck = Ck::new("C28");
    ck.case_timeout(900);
    let limit = ck.pick(600.0, 3000.0);
    let workers = std::env::var("MC_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(12);
    let dir = scratch().join("d");
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join("good.json"), trace()).unwrap();
    std::fs::write(dir.join("bad.json"), "{\"traceEvents\":[").unwrap();
    let world = World { dir, reports: Mutex::default() };
    let all = cases(ck);
    let only = std::env::var("MC_ONLY").ok();
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for worker in 0..workers {
            let (all, next, only, world) = (&all, &next, &only, &world);
            s.spawn(move || {
                let base = scratch().join(format!("w{worker}"));
                std::fs::create_dir_all(&base).unwrap();
                while let Some(c) = all.get(next.fetch_add(1, Ordering::Relaxed)) {
                    let name = format!("{} (stdin {:?}, stdout {:?})", c.args.join(" "), c.stdin, c.stdout);
                    if only.as_ref().is_some_and(|o| !name.contains(o.as_str())) {
                        continue;
                    }
                    if ck.elapsed() > limit {
                        return ck.not_exhaustive("time budget of the tier");
                    }
                    ck.traces(1);
                    ck.state(&name);
                    match world.play(c, &base, worker) {
                        Ok(()) => {
                            ck.transitions(1);
                            let kind = match c.want {
                                Want::Report(..) => "reports",
                                Want::Error => "errors",
                                Want::Usage => "mistakes",
                                Want::Text(_) => "help",
                                Want::Tui(_) => "text interface",
                            };
                            ck.bump(kind, 1);
                            ck.sample(|| json!({"command line": name, "result": kind}));
                        }
                        Err(e) => match world.play(c, &base, worker) {
                            Err(e) => ck.violation(&name, &e),
                            Ok(_) => {
                                ck.bump("not_reproduced", 1);
                                println!("not reproduced: {name}: {e}");
                            }
                        },
                    }
                }
            });
        }
    });
    crate::done(ck)
}
