//! C23: measuring never costs the user an earlier profile.
//!
//! The real program measures builds and traces. Every file operation it makes
//! and every step of every compiler it starts waits for the driver, which
//! explores all orders of these events and of the user's actions (Abort, quit,
//! measure again) with a bounded number of deviations from the plain order.
use crate::{
    app::{App, Kind, Setup, State},
    json, scratch, Ck,
};
use std::{
    collections::{BTreeSet, VecDeque},
    path::{Path, PathBuf},
    sync::{Condvar, Mutex, OnceLock},
    time::Duration,
};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mode {
    Build,
    Trace,
}
/// What becomes of the compiler of an attempt
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum End {
    Ok,
    /// Fails after it has written some output
    FailPartial,
    /// Fails without any output
    FailBare,
    /// Dies from a signal after it has written some output
    Signal,
    /// Claims success without any output
    NoOutput,
    /// Cannot be started
    NoStart,
}
#[derive(Clone, Debug)]
pub struct Scenario {
    pub mode: Mode,
    pub old: bool,
    pub leftover: bool,
    pub ends: Vec<End>,
    pub jobs: usize,
    /// Let file operations fail
    pub faults: bool,
    /// Profile to measure, when it is not the default one
    pub profile: Option<&'static str>,
}
impl Scenario {
    fn name(&self) -> String {
        let mut s = format!("{:?} {:?}", self.mode, self.ends);
        if self.old {
            s += " old-profile";
        }
        if self.leftover {
            s += " leftover-backup";
        }
        if self.jobs > 1 {
            s += &format!(" {}-jobs", self.jobs);
        }
        if self.faults {
            s += " faults";
        }
        if let Some(p) = self.profile {
            s += &format!(" --build-profile {p}");
        }
        s
    }
}

pub fn trace_json(name: &str) -> String {
    format!(
        r#"{{"traceEvents":[{{"ph":"X","pid":7,"tid":7,"ts":1000,"dur":1000,"name":"ExecuteCompiler"}},{{"cat":"","pid":7,"tid":7,"ts":0,"ph":"M","name":"process_name","args":{{"name":"{name}"}}}}],"beginningOfTime":1}}"#
    )
}
const OLD_CSV: &str = "file,max_rss,time\nsrc/old.cpp,123456789,\n";

/// How the backups are named: (profile, backup), observed on the program
static BACKUP: OnceLock<[Option<(String, String)>; 2]> = OnceLock::new();

struct Attempt {
    end: End,
    /// The user cancelled it
    cancelled: bool,
    /// Compilers that were allowed to succeed
    succeeded: usize,
    /// ... before the user cancelled
    succeeded_before: usize,
    procs: Vec<usize>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum Act {
    Step(usize),
    Fail(usize),
    /// Allow the step and press Abort at the same time
    StepAbort(usize),
    Abort,
    Quit,
    CtrlC,
    /// Esc, which must not do anything here
    Esc,
    Measure,
    Decline,
    Reuse,
    Enter,
    OpenTrace,
    Back,
    Wait,
}

pub struct RunResult {
    /// Options at each decision point, and the one that was taken
    points: Vec<(Vec<String>, usize)>,
    violation: Option<String>,
    log: Vec<String>,
    /// Where files were moved
    moves: Vec<(String, String)>,
    diverged: bool,
    notes: BTreeSet<&'static str>,
}

pub fn run_one(sc: &Scenario, choices: &[(usize, String)], worker: usize, base: &Path) -> RunResult {
    let _ = std::fs::remove_dir_all(base);
    let dir = base.join("d");
    let ctl = base.join("c");
    std::fs::create_dir_all(dir.join("src")).unwrap();
    std::fs::create_dir_all(ctl.join("bin")).unwrap();
    let me = std::env::current_exe().unwrap();
    for n in ["clang++", "cc"] {
        std::os::unix::fs::symlink(&me, ctl.join("bin").join(n)).unwrap();
    }
    let names: Vec<String> = (0..sc.jobs).map(|i| format!("src/{}.cpp", (b'a' + i as u8) as char)).collect();
    let mut db = vec![];
    for (i, n) in names.iter().enumerate() {
        std::fs::write(dir.join(n), "int x;\n").unwrap();
        let cc = if sc.mode == Mode::Build && i == sc.jobs - 1 && sc.ends[0] == End::NoStart {
            ctl.join("bin/missing")
        } else {
            ctl.join("bin/cc")
        };
        db.push(json!({
            "directory": dir.to_str().unwrap(),
            "command": format!("{} -o {n}.o -c {}", cc.display(), dir.join(n).display()),
            "file": dir.join(n).to_str().unwrap(),
        }));
    }
    std::fs::write(dir.join("compile_commands.json"), json!(db).to_string()).unwrap();
    let (target, old) = match sc.mode {
        Mode::Build => (dir.join(sc.profile.unwrap_or("cmakeperf.csv")), OLD_CSV.to_string()),
        Mode::Trace => {
            let mut csv = "file,max_rss,time\n".to_string();
            for n in &names {
                csv += &format!("{n},1000,\n");
            }
            std::fs::write(dir.join("cmakeperf.csv"), csv).unwrap();
            (dir.join("src/a.cpp.json"), trace_json("old"))
        }
    };
    let backup = match BACKUP.get().and_then(|b| b[sc.mode as usize].clone()) {
        Some(name) => target.with_file_name(target.file_name().unwrap().to_str().unwrap().replace(&name.0, &name.1)),
        None => target.with_extension("bak"),
    };
    let leftover_text = match sc.mode {
        Mode::Build => OLD_CSV.replace("old", "leftover"),
        Mode::Trace => trace_json("leftover"),
    };
    if sc.old {
        std::fs::write(&target, &old).unwrap();
    }
    if sc.leftover {
        std::fs::write(&backup, &leftover_text).unwrap();
    }
    let list = |d: &Path| -> BTreeSet<String> {
        let mut s = BTreeSet::new();
        for sub in [d.to_path_buf(), d.join("src")] {
            for e in sub.read_dir().unwrap().flatten() {
                s.insert(e.path().strip_prefix(d).unwrap().display().to_string());
            }
        }
        s
    };
    let before = list(&dir);

    let mut res = RunResult { points: vec![], violation: None, log: vec![], moves: vec![], diverged: false, notes: BTreeSet::new() };
    let mut attempts: Vec<Attempt> = vec![];
    let mut step_of: Vec<usize> = vec![];
    let mut assigned: BTreeSet<usize> = BTreeSet::new();
    let mut faults = 0;
    let mut quitting = false;
    let args: Vec<&str> = sc.profile.iter().flat_map(|p| ["--build-profile", p]).collect();
    let mut sessions = 0;
    let mut unstarted_clang = false;

    // The sources are older than the profile, and the profile is old enough
    // to be asked about
    let age = |p: &Path, mins: u64| {
        if let Ok(f) = std::fs::File::open(p) {
            let _ = f.set_modified(std::time::SystemTime::now() - Duration::from_secs(60 * mins));
        }
    };
    for n in &names {
        age(&dir.join(n), 60);
    }
    age(&dir.join("compile_commands.json"), 60);
    age(&dir.join("cmakeperf.csv"), 30);

    'session: loop {
        sessions += 1;
        age(&target, if sc.profile.is_some() { 90 } else { 30 });
        let mut app = App::start(&Setup { dir: &dir, ctl: &ctl, args: &args, cols: 100, rows: 30, hold: true, reads: None, cpu: worker });
        step_of.clear();
        assigned.clear();
        for a in &mut attempts {
            a.procs.clear();
        }
        let mut esc_done = false;
        app.wait_until(Duration::from_secs(20), |a| a.ended() || a.screen.has("<") || a.screen.has("Press H"));
        for _ in 0..400 {
            app.settle();
            step_of.resize(app.conns.len(), 0);
            // Which attempt does a compiler belong to?
            for c in &app.conns {
                if matches!(c.kind, Kind::Proc { .. }) && assigned.insert(c.id) {
                    if let Some(a) = attempts.last_mut() {
                        a.procs.push(c.id);
                    }
                }
            }
            if app.ended() {
                break;
            }
            let scr = &app.screen;
            let measuring = scr.has("minimize system activity");
            let quit_dialog = scr.has("Ready to quit?");
            let prompt = !quit_dialog && (scr.has("<Measure>") || scr.has("profiled yet"));
            let info = scr.has("<Ok>");
            let fatal = scr.has("<Quit>");
            let loading = scr.has("Processing time trace");
            let trace_view = scr.has("Activity") && scr.has("Self");
            let table = scr.has("Source file") && !trace_view;
            let more = attempts.len() < sc.ends.len();
            // Events that wait for the driver
            let mut events = vec![];
            let mut zombies = false;
            for c in &app.conns {
                if c.state != State::Parked {
                    continue;
                }
                if matches!(c.kind, Kind::Proc { .. }) && attempts.iter().any(|a| a.cancelled && a.procs.contains(&c.id)) {
                    zombies = true;
                    continue;
                }
                events.push(c.id);
            }
            let mut opts: Vec<Act> = vec![];
            for &e in &events {
                opts.push(Act::Step(e));
            }
            if sc.faults {
                for &e in &events {
                    if matches!(app.conns[e].kind, Kind::Op { .. }) {
                        opts.push(Act::Fail(e));
                    }
                }
            }
            // What the user does
            let mut user: Vec<Act> = vec![];
            if prompt && !events.is_empty() {
                // The interface is busy
            } else if quit_dialog {
                user.push(Act::Enter);
            } else if info || fatal {
                user.push(Act::Enter);
            } else if prompt {
                let at_start = !app.conns.iter().any(|_| true) && !table;
                if sc.mode == Mode::Trace && at_start && !table {
                    user.push(Act::Reuse);
                } else if more {
                    user.push(Act::Measure);
                    user.push(Act::Decline);
                } else {
                    user.push(Act::Decline);
                }
            } else if measuring {
                if events.is_empty() {
                    user.push(Act::Wait);
                }
                if !attempts.last().is_some_and(|a| a.cancelled) {
                    user.push(Act::Abort);
                    user.push(Act::Quit);
                    user.push(Act::CtrlC);
                    for &e in &events {
                        user.push(Act::StepAbort(e));
                    }
                    if !esc_done {
                        user.push(Act::Esc);
                    }
                }
            } else if loading {
                user.push(Act::Wait);
            } else if trace_view {
                if more {
                    user.push(Act::Back);
                    user.push(Act::Quit);
                } else {
                    user.push(Act::Quit);
                }
            } else if table {
                if more && sc.mode == Mode::Trace {
                    user.push(Act::OpenTrace);
                    user.push(Act::Quit);
                } else {
                    user.push(Act::Quit);
                }
            } else {
                user.push(Act::Wait);
            }
            let _ = zombies;
            // Wait is never a deviation
            if !events.is_empty() {
                user.retain(|a| *a != Act::Wait);
            }
            if quitting {
                // The user waits for the program to end
                user = if opts.is_empty() { vec![Act::Wait] } else { vec![] };
            }
            opts.extend(user);
            let label = |a: &Act, app: &App| -> String {
                match a {
                    Act::Step(e) | Act::Fail(e) | Act::StepAbort(e) => {
                        let what = match &app.conns[*e].kind {
                            Kind::Op { op, path, to } => {
                                let f = |p: &str| Path::new(p).file_name().map_or(String::new(), |n| n.to_string_lossy().into_owned());
                                format!("{op} {} {}", f(path), f(to)).trim().to_string()
                            }
                            Kind::Proc { name, args, .. } => {
                                let src = args.last().map_or("", |s| s.as_str());
                                format!("{name}#{} {}", step_of[*e], Path::new(src).file_name().map_or("".into(), |n| n.to_string_lossy()))
                            }
                            Kind::Unknown => "?".into(),
                        };
                        match a {
                            Act::Step(_) => format!("go[{what}]"),
                            Act::Fail(_) => format!("fail[{what}]"),
                            _ => format!("Abort+go[{what}]"),
                        }
                    }
                    other => format!("{other:?}"),
                }
            };
            let labels: Vec<String> = opts.iter().map(|a| label(a, &app)).collect();
            let at = res.points.len();
            let mut pick = 0;
            if let Some((n, want)) = choices.get(at) {
                if labels.get(*n) == Some(want) {
                    pick = *n;
                } else if let Some(k) = labels.iter().position(|l| l == want) {
                    pick = k;
                } else {
                    res.diverged = true;
                }
            }
            let act = opts[pick].clone();
            if std::env::var("MC_SCREEN").is_ok() {
                println!("{}\n=> {}", app.screen.text(), labels[pick]);
            }
            if act != Act::Wait {
                res.points.push((labels.clone(), pick));
            }
            res.log.push(labels[pick].clone());
            match act {
                Act::Step(e) | Act::StepAbort(e) => {
                    if let Act::StepAbort(_) = act {
                        app.key("\r");
                        if let Some(a) = attempts.last_mut() {
                            a.succeeded_before = a.succeeded;
                            a.cancelled = true;
                            // The step takes place along with the cancellation
                            a.succeeded_before += usize::from(matches!(app.conns[e].kind, Kind::Proc { .. }) && is_last_step(sc, a, &step_of, e));
                        }
                    }
                    if let Kind::Op { op, path, to } = &app.conns[e].kind {
                        let name = |p: &str| Path::new(p).file_name().map_or(String::new(), |n| n.to_string_lossy().into_owned());
                        if op == "rename" {
                            res.moves.push((name(path), name(to)));
                        }
                        app.tell(e, "go");
                    } else {
                        let i = attempts.iter().rposition(|a| a.procs.contains(&e)).unwrap_or(0);
                        step_proc(sc, &mut attempts, i, &mut step_of, e, &mut app, &target);
                    }
                }
                Act::Fail(e) => {
                    faults += 1;
                    app.tell(e, "fail 5");
                }
                Act::Abort | Act::Quit | Act::CtrlC => {
                    let in_attempt = measuring;
                    match act {
                        Act::Abort => app.key("\r"),
                        _ => {
                            app.key(if act == Act::Quit { "q" } else { "\x03" });
                            if app.wait_until(Duration::from_secs(10), |a| a.ended() || a.screen.has("Ready to quit?")) && !app.ended() {
                                app.settle_for(Duration::from_millis(40), Duration::from_secs(2));
                                app.key("\r");
                                if sc.mode == Mode::Trace || !in_attempt {
                                    quitting = true;
                                }
                            }
                        }
                    }
                    if in_attempt || act != Act::Abort {
                        if let Some(a) = attempts.last_mut() {
                            if in_attempt && !a.cancelled {
                                a.cancelled = true;
                                a.succeeded_before = a.succeeded;
                            }
                        }
                    }
                }
                Act::Esc => {
                    esc_done = true;
                    app.key("\x1b");
                    app.settle_for(Duration::from_millis(300), Duration::from_secs(2));
                }
                Act::Measure => {
                    let end = sc.ends[attempts.len()];
                    if end == End::NoStart && sc.mode == Mode::Trace {
                        let _ = std::fs::remove_file(ctl.join("bin/clang++"));
                        unstarted_clang = true;
                    } else if unstarted_clang {
                        let _ = std::os::unix::fs::symlink(&me, ctl.join("bin/clang++"));
                    }
                    attempts.push(Attempt { end, cancelled: false, succeeded: 0, succeeded_before: 0, procs: vec![] });
                    esc_done = false;
                    if app.screen.has("<Measure>") {
                        app.key("\x1b[C");
                        app.settle_for(Duration::from_millis(40), Duration::from_secs(2));
                    }
                    app.key("\r");
                }
                Act::Decline => {
                    // "No", or "Reuse"
                    if !app.screen.has("<Measure>") {
                        app.key("\x1b[C");
                        app.settle_for(Duration::from_millis(40), Duration::from_secs(2));
                    }
                    app.key("\r");
                    quitting |= false;
                }
                Act::Reuse | Act::Enter | Act::OpenTrace => {
                    if act == Act::OpenTrace {
                        age(&target, 30);
                    }
                    app.key("\r");
                }
                Act::Back => app.key("\x1b"),
                Act::Wait => {
                    // Nothing can happen unless the program does something
                    let before = app.screen.text();
                    let n = app.conns.len();
                    let closed = |a: &App| a.conns.iter().filter(|c| c.state == State::Closed).count();
                    let nclosed = closed(&app);
                    let changed = app.wait_until(Duration::from_secs(15), |a| {
                        a.ended() || a.conns.len() != n || closed(a) != nclosed || a.screen.text() != before
                    });
                    if !changed {
                        // A compiler that should have been stopped goes on
                        let alive: Vec<usize> = app
                            .conns
                            .iter()
                            .filter(|c| c.state == State::Parked && matches!(c.kind, Kind::Proc { .. }))
                            .map(|c| c.id)
                            .collect();
                        if alive.is_empty() {
                            res.violation = Some(format!("nothing happens any more; the screen shows:\n{}", app.screen.text()));
                            break 'session;
                        }
                        res.notes.insert("compiler survives its cancellation");
                        for e in alive {
                            let i = attempts.iter().rposition(|a| a.procs.contains(&e)).unwrap_or(0);
                            step_proc(sc, &mut attempts, i, &mut step_of, e, &mut app, &target);
                        }
                    }
                }
            }
        }
        // The program has ended; compilers may not go on
        if !app.ended() {
            res.violation = Some(format!("the program does not come to an end; the screen shows:\n{}", app.screen.text()));
            break;
        }
        let procs_over = |a: &App| a.conns.iter().all(|c| c.state == State::Closed || !matches!(c.kind, Kind::Proc { .. }));
        for _ in 0..20 {
            if app.wait_until(Duration::from_secs(2), procs_over) {
                break;
            }
            res.notes.insert("compiler survives the program");
            let alive: Vec<usize> =
                app.conns.iter().filter(|c| c.state == State::Parked && matches!(c.kind, Kind::Proc { .. })).map(|c| c.id).collect();
            for e in alive {
                step_of.resize(app.conns.len(), 0);
                let i = attempts.iter().rposition(|a| a.procs.contains(&e)).unwrap_or(0);
                step_proc(sc, &mut attempts, i, &mut step_of, e, &mut app, &target);
            }
        }
        let status = app.status.unwrap();
        let err = app.stderr();
        if err.contains("panicked") || std::os::unix::process::ExitStatusExt::signal(&status).is_some() {
            res.violation = Some(format!("the program crashed ({status}): {}", err.trim()));
            break;
        }
        drop(app);
        if attempts.len() >= sc.ends.len() || sessions > sc.ends.len() || sc.mode == Mode::Trace {
            break;
        }
        quitting = false;
    }
    if res.violation.is_some() || faults == 0 && attempts.is_empty() {
        return res;
    }

    // What may be there now? (rebuilt profiles look the same)
    let new = |j: usize| if sc.mode == Mode::Build { "NEW".to_string() } else { format!("NEW{j}") };
    let content = |p: &Path| std::fs::read_to_string(p).ok();
    let mut possible: Vec<(Option<String>, Option<String>)> = vec![(sc.old.then(|| old.clone()), sc.leftover.then(|| leftover_text.clone()))];
    let mut last_sure = false;
    for (j, a) in attempts.iter().enumerate() {
        let needed = match sc.mode {
            Mode::Build => sc.jobs,
            Mode::Trace => 1,
        };
        let may_succeed = a.end == End::Ok && a.succeeded >= needed && !(a.cancelled && a.succeeded_before < needed);
        let may_fail = !may_succeed || a.cancelled || faults > 0;
        last_sure = !may_fail;
        let mut next = vec![];
        for (o, b) in &possible {
            if may_succeed {
                next.push((Some(new(j)), None));
            }
            if may_fail {
                next.push((o.clone(), b.clone()));
                if o.is_none() && b.is_some() {
                    // The backup that a crashed session has left may be used
                    next.push((b.clone(), None));
                }
            }
        }
        possible = next;
    }
    let now = content(&target);
    let now_key = now.clone().map(|t| identify(sc, &t, attempts.len(), &names));
    let after = list(&dir);
    let extra: Vec<String> =
        after.difference(&before).filter(|f| !f.ends_with(".o") && dir.join(f) != target).cloned().collect();
    let describe = |t: &Option<String>| match t {
        None => "no profile".to_string(),
        Some(t) if *t == old => "the earlier profile".into(),
        Some(t) if *t == leftover_text => "the leftover backup".into(),
        Some(t) => format!("{t:?}"),
    };
    if faults > 0 {
        // With failing file operations, nothing may get lost for good
        if let Some(o) = &possible.iter().find(|p| p.0.is_some() && p.0 == Some(old.clone())).and_then(|p| p.0.clone()) {
            let somewhere = after.iter().any(|f| content(&dir.join(f)).as_ref() == Some(o));
            let replaced = possible.iter().any(|p| p.0.is_some() && p.0 == now_key);
            if !somewhere && !replaced {
                res.violation = Some("after a failed file operation, the earlier profile is nowhere to be found".into());
            }
        }
        return res;
    }
    if !possible.iter().any(|p| p.0 == now_key) {
        let mut want: Vec<String> = possible.iter().map(|p| describe(&p.0)).collect();
        want.dedup();
        res.violation = Some(format!("afterwards there is {}, not {}", describe(&now_key), want.join(" or ")));
    } else if !extra.is_empty() {
        let sure = if last_sure { "a successful" } else { "the" };
        res.violation = Some(format!("{sure} measurement left {extra:?} behind"));
    } else if last_sure && attempts.last().is_some() && backup.exists() && backup != target {
        res.violation = Some(format!(
            "a successful measurement left a backup behind: {}",
            describe(&content(&backup))
        ));
    }
    res
}

/// Which profile is this?
fn identify(sc: &Scenario, text: &str, attempts: usize, names: &[String]) -> String {
    match sc.mode {
        Mode::Trace => {
            for j in 0..attempts {
                if text == trace_json(&format!("new{j}")) {
                    return format!("NEW{j}");
                }
            }
        }
        Mode::Build => {
            let mut rows: Vec<&str> = text.lines().skip(1).map(|l| l.split(',').next().unwrap()).collect();
            rows.sort();
            let mut want: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
            want.sort();
            if rows == want && text.starts_with("file,") {
                return "NEW".into();
            }
        }
    }
    text.to_string()
}

fn script(sc: &Scenario, end: End, attempt: usize, target: &Path, first: bool) -> Vec<String> {
    let t = target.display();
    let new = trace_json(&format!("new{attempt}"));
    if sc.mode == Mode::Build {
        return match end {
            End::Ok | End::NoStart => vec!["exit\t0".into()],
            _ if !first => vec!["exit\t0".into()],
            End::Signal => vec!["signal\t9".into()],
            _ => vec!["stderr\t40\terror: no such thing ".into(), "exit\t1".into()],
        };
    }
    let partial = format!("write\t{t}\t{}", &new[..new.len() / 2]);
    match end {
        End::Ok => vec![partial, format!("write\t{t}\t{new}"), "exit\t0".into()],
        End::FailPartial => vec![partial, "exit\t1".into()],
        End::FailBare => vec!["stderr\t40\terror: no such thing ".into(), "exit\t1".into()],
        End::Signal => vec![partial, "signal\t11".into()],
        End::NoOutput | End::NoStart => vec!["exit\t0".into()],
    }
}

fn is_last_step(sc: &Scenario, a: &Attempt, step_of: &[usize], e: usize) -> bool {
    let first = a.procs.first() == Some(&e);
    let s = script(sc, a.end, 0, Path::new(""), first);
    step_of[e] + 1 == s.len() && s.last().unwrap() == "exit\t0"
}

fn step_proc(sc: &Scenario, attempts: &mut [Attempt], i: usize, step_of: &mut [usize], e: usize, app: &mut App, target: &PathBuf) {
    let Some(a) = attempts.get_mut(i) else {
        app.tell(e, "exit\t0");
        return;
    };
    let first = a.procs.first() == Some(&e);
    let s = script(sc, a.end, i, target, first);
    let step = s[step_of[e].min(s.len() - 1)].clone();
    step_of[e] += 1;
    if step == "exit\t0" {
        a.succeeded += 1;
    }
    app.tell(e, &step);
}

pub fn scenarios(ck: &Ck) -> Vec<(Scenario, usize)> {
    let mut out = vec![];
    let s = |mode, old, leftover, ends: &[End], jobs, faults| Scenario { mode, old, leftover, ends: ends.to_vec(), jobs, faults, profile: None };
    use End::*;
    use Mode::*;
    let deep = ck.pick(2, 3);
    for old in [true, false] {
        for leftover in [false, true] {
            for end in [Ok, FailPartial, FailBare, Signal, NoOutput, NoStart] {
                // Wherever there is something to lose
                let bound = if old && !leftover { deep } else { ck.pick(1, 2) };
                let bound = if end == Ok || end == FailPartial { bound } else { ck.pick(1, 2) };
                out.push((s(Trace, old, leftover, &[end], 1, false), bound));
                if !matches!(end, NoOutput | FailPartial) {
                    out.push((s(Build, old, leftover, &[end], 1, false), bound));
                }
            }
        }
        for ends in [[Ok, Ok], [FailPartial, Ok], [Ok, FailPartial], [FailPartial, FailPartial], [NoOutput, FailBare], [NoStart, FailPartial]] {
            out.push((s(Trace, old, false, &ends, 1, false), ck.pick(if old { 1 } else { 0 }, 2)));
            if ends[0] != NoOutput && ends[0] != NoStart {
                out.push((s(Build, old, false, &ends, 1, false), ck.pick(if old { 1 } else { 0 }, 2)));
            }
        }
        for end in [Ok, FailBare, NoStart] {
            out.push((s(Build, old, false, &[end], 2, false), ck.pick(1, 2)));
        }
        for mode in [Trace, Build] {
            for end in [Ok, FailBare, FailPartial] {
                out.push((s(mode, old, false, &[end], 1, true), ck.pick(1, 2)));
            }
        }
    }
    for end in [Ok, FailBare] {
        let mut x = s(Build, true, false, &[end], 1, false);
        x.profile = Some("profile.bak");
        out.push((x, 1));
    }
    out
}

pub fn run() {
    let ck = Ck::new("C23");
    ck.case_timeout(600);
    let only = std::env::var("MC_ONLY").ok();
    let verbose = std::env::var("MC_VERBOSE").is_ok();
    let mut jobs: VecDeque<(usize, Vec<(usize, String)>)> = VecDeque::new();
    let scs = scenarios(ck);
    for (i, (sc, _)) in scs.iter().enumerate() {
        if only.as_ref().map_or(true, |o| sc.name().contains(o.as_str())) {
            jobs.push_back((i, vec![]));
        }
    }
    let probe = |mode| {
        let sc = Scenario { mode, old: true, leftover: false, ends: vec![End::Ok], jobs: 1, faults: false, profile: None };
        run_one(&sc, &[], 0, &scratch().join("probe")).moves.into_iter().next()
    };
    let names = [probe(Mode::Build), probe(Mode::Trace)];
    ck.note("backup_names", json!(names));
    let _ = BACKUP.set(names);
    // Replay of one schedule: decisions separated by " | "
    if let Ok(r) = std::env::var("MC_REPLAY") {
        let (i, _) = jobs[0];
        let ch: Vec<(usize, String)> = r.split(" | ").filter(|s| !s.is_empty()).map(|s| (usize::MAX, s.to_string())).collect();
        let base = scratch().join("r");
        let res = run_one(&scs[i].0, &ch, 0, &base);
        println!("{}\n{:#?}\n{:?} {:?}", scs[i].0.name(), res.points, res.violation, res.notes);
        crate::done(ck)
    }
    let total = scs.len();
    let queue = Mutex::new((jobs, 0usize));
    let cond = Condvar::new();
    let limit = ck.pick(480.0, 3000.0);
    let workers = std::env::var("MC_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(28);
    std::thread::scope(|s| {
        for w in 0..workers {
            let (queue, cond, scs, ck) = (&queue, &cond, &scs, &ck);
            s.spawn(move || {
                let base = scratch().join(format!("w{w}"));
                loop {
                    let (i, prefix) = {
                        let mut q = queue.lock().unwrap();
                        loop {
                            if let Some(j) = q.0.pop_front() {
                                q.1 += 1;
                                break j;
                            }
                            if q.1 == 0 {
                                cond.notify_all();
                                return;
                            }
                            q = cond.wait(q).unwrap();
                        }
                    };
                    let (sc, bound) = &scs[i];
                    let mut todo = vec![];
                    if ck.elapsed() > limit {
                        ck.not_exhaustive("time budget of the tier");
                    } else {
                        let mut res = run_one(sc, &prefix, w, &base);
                        for _ in 0..2 {
                            if !res.diverged || res.violation.is_some() {
                                break;
                            }
                            ck.bump("replays_retried", 1);
                            res = run_one(sc, &prefix, w, &base);
                        }
                        if res.diverged {
                            ck.bump("schedules_not_reproduced", 1);
                        }
                        ck.traces(1);
                        ck.transitions(res.points.len() as u64);
                        ck.state(&(i, &res.log));
                        for n in &res.notes {
                            ck.bump(n, 1);
                        }
                        let schedule = res.log.join(" | ");
                        if verbose {
                            println!("{:.1}s {} : {schedule}{}", ck.elapsed(), sc.name(), if res.diverged { " (diverged)" } else { "" });
                        }
                        ck.sample(|| json!({"scenario": sc.name(), "schedule": schedule}));
                        if let Some(v) = &res.violation {
                            ck.violation(&format!("{}: {schedule}", sc.name()), v);
                        }
                        let devs = prefix.iter().filter(|c| c.0 != 0).count();
                        if devs < *bound && !res.diverged {
                            for p in prefix.len()..res.points.len() {
                                for alt in 1..res.points[p].0.len() {
                                    let mut next: Vec<(usize, String)> =
                                        res.points[..p].iter().map(|(l, k)| (*k, l[*k].clone())).collect();
                                    next.push((alt, res.points[p].0[alt].clone()));
                                    todo.push((i, next));
                                }
                            }
                        }
                    }
                    let mut q = queue.lock().unwrap();
                    q.0.extend(todo);
                    q.1 -= 1;
                    cond.notify_all();
                }
            });
        }
    });
    ck.note("scenarios", total as u64);
    crate::done(ck)
}
