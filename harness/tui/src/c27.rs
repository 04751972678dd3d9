//! C27: loading a trace can be abandoned at any moment.
//!
//! The driver holds every trace that is being read, so that it decides when
//! each load ends relative to what the user does. A model of the screens is
//! explored exhaustively; every transition is carried out by the real
//! program, and it is asked to quit in every state.
use crate::{
    app::{App, Kind, Setup, State},
    c25::{crash, read, tiny, touch, Tree, T},
    json, scratch, Ck,
};
use std::{
    collections::{HashMap, HashSet, VecDeque},
    path::Path,
    sync::Mutex,
    time::Duration,
};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Shown {
    Table,
    Loading,
    View,
    Error,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Dlg {
    None,
    Quit,
    Help,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct M {
    row: usize,
    shown: Shown,
    dlg: Dlg,
    /// Loads that were abandoned, but are not over
    old: Vec<usize>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Cmd {
    Key(&'static str),
    /// The load that is waited for ends
    Done,
    /// An abandoned one does
    Old(usize),
}
use Cmd::*;
const KEYS: [&str; 10] = ["Down", "Up", "Enter", "Esc", "q", "h", "u", "f", "b", "No"];

struct World {
    name: &'static str,
    /// Kinds of files: 0, 1: traces, 2: no trace, 3: no activity
    files: Vec<usize>,
    table: bool,
    /// How many loads may be abandoned at a time
    old: usize,
}
impl World {
    fn start(&self) -> M {
        M { row: 0, shown: if self.table { Shown::Table } else { Shown::Loading }, dlg: Dlg::None, old: vec![] }
    }
    fn cmds(&self) -> Vec<Cmd> {
        KEYS.into_iter().map(Key).chain([Done]).chain((0..self.old).map(Old)).collect()
    }
    /// What may happen; more than one if it is open. None: not tried; an
    /// empty list: the program ends.
    fn step(&self, m: &M, c: Cmd) -> Option<Vec<M>> {
        let mut n = m.clone();
        match c {
            Old(i) => {
                if i >= m.old.len() || m.old[..i].contains(&m.old[i]) {
                    return None;
                }
                n.old.remove(i);
                return Some(vec![n]);
            }
            Done => {
                if m.shown != Shown::Loading {
                    return None;
                }
                n.shown = if self.files[m.row] < 2 { Shown::View } else { Shown::Error };
                // A dialog above it may go away or not
                if m.dlg != Dlg::None {
                    return Some(vec![M { dlg: Dlg::None, ..n.clone() }, n]);
                }
                return Some(vec![n]);
            }
            Key(k) => {
                match m.dlg {
                    Dlg::Quit => {
                        match k {
                            "No" => n.dlg = Dlg::None,
                            // During a load, this does not close dialogs
                            "Esc" if m.shown == Shown::Loading => return Some(vec![n.clone(), M { dlg: Dlg::None, ..n }]),
                            "Esc" => n.dlg = Dlg::None,
                            "Enter" => return Some(vec![]),
                            "u" if m.shown == Shown::View => return None,
                            _ => {}
                        }
                        return Some(vec![n]);
                    }
                    Dlg::Help => {
                        match k {
                            "Enter" => n.dlg = Dlg::None,
                            "Esc" if m.shown == Shown::Loading => return Some(vec![n.clone(), M { dlg: Dlg::None, ..n }]),
                            "Esc" => n.dlg = Dlg::None,
                            "No" | "u" => return None,
                            _ => {}
                        }
                        return Some(vec![n]);
                    }
                    Dlg::None => {}
                }
                if k == "No" {
                    return None;
                }
                if k == "q" {
                    n.dlg = Dlg::Quit;
                    return Some(vec![n]);
                }
                if k == "h" {
                    // There is help on the views and on the table
                    if m.shown == Shown::View || m.shown == Shown::Table {
                        n.dlg = Dlg::Help;
                        return Some(vec![n]);
                    }
                    let mut two = vec![n.clone(), M { dlg: Dlg::Help, ..n }];
                    if self.table {
                        two.reverse();
                    }
                    return Some(two);
                }
                match (m.shown, k) {
                    (Shown::Table, "Down") => n.row = (m.row + 1).min(self.files.len() - 1),
                    (Shown::Table, "Up") => n.row = m.row.saturating_sub(1),
                    (Shown::Table, "Enter") => n.shown = Shown::Loading,
                    (Shown::Table, _) => {}
                    // The button says Abort
                    (Shown::Loading, "Enter") => {
                        if !self.table {
                            return Some(vec![]);
                        }
                        if m.old.len() >= self.old {
                            return None;
                        }
                        n.shown = Shown::Table;
                        n.old.push(m.row);
                        n.old.sort();
                    }
                    (Shown::Loading, _) => {}
                    (Shown::View, "Esc") => {
                        if self.table {
                            n.shown = Shown::Table;
                        }
                    }
                    // These are for C25
                    (Shown::View, _) => return None,
                    (Shown::Error, "Enter") if !self.table => return Some(vec![]),
                    (Shown::Error, "Enter" | "Esc") => {
                        if self.table {
                            n.shown = Shown::Table;
                        }
                    }
                    (Shown::Error, _) => {}
                }
                Some(vec![n])
            }
        }
    }
}

struct Run {
    app: App,
    /// Reads that are held, by file
    held: Vec<(usize, usize)>,
    base: std::path::PathBuf,
}
const SUFFIX: &str = ".cpp.json";
fn file_of(path: &str) -> Option<usize> {
    Path::new(path).file_name()?.to_str()?.strip_suffix(SUFFIX)?.parse().ok()
}
fn trees() -> [Tree; 2] {
    [tiny(), Tree::new(vec![T("Backend", 7000, vec![T("OptModule(b.cpp)", 1000, vec![])])])]
}
fn text(kind: usize, i: usize) -> String {
    match kind {
        0 | 1 => trees()[kind].json(&format!("clang{i}x")),
        2 => "{\"traceEvents\":[".into(),
        _ => r#"{"traceEvents":[{"cat":"","pid":7,"tid":7,"ts":0,"ph":"M","name":"process_name","args":{"name":"clang"}}],"beginningOfTime":1}"#.into(),
    }
}

impl Run {
    fn start(w: &World, base: &Path, worker: usize) -> Result<Run, String> {
        let _ = std::fs::remove_dir_all(base);
        let (dir, ctl) = (base.join("d"), base.join("c"));
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::create_dir_all(ctl.join("bin")).unwrap();
        std::os::unix::fs::symlink(std::env::current_exe().unwrap(), ctl.join("bin/clang++")).unwrap();
        let mut db = vec![];
        let mut csv = "file,max_rss,time\n".to_string();
        for (i, kind) in w.files.iter().enumerate() {
            let src = dir.join(format!("{i}.cpp"));
            std::fs::write(&src, "").unwrap();
            csv += &format!("{i}.cpp,{},\n", 1_000_000_000 - i * 100_000_000);
            db.push(json!({"directory": dir.to_str().unwrap(), "command": format!("cc -o {i}.cpp.o -c {i}.cpp"), "file": src.to_str().unwrap()}));
            std::fs::write(dir.join(format!("{i}{SUFFIX}")), text(*kind, i)).unwrap();
        }
        std::fs::write(dir.join("compile_commands.json"), json!(db).to_string()).unwrap();
        std::fs::write(dir.join("cmakeperf.csv"), csv).unwrap();
        touch(&dir.join("cmakeperf.csv"));
        let arg = format!("0{SUFFIX}");
        let args: &[&str] = if w.table { &[] } else { &[&arg] };
        let app = App::start(&Setup { dir: &dir, ctl: &ctl, args, cols: 90, rows: 30, hold: true, reads: Some(SUFFIX), cpu: worker });
        let mut r = Run { app, held: vec![], base: base.into() };
        r.app.wait_until(Duration::from_secs(20), |a| a.ended() || a.screen.has("Press H for help") || a.screen.has("Processing"));
        r.app.settle();
        r.take(w);
        crash(&r.app)?;
        Ok(r)
    }
    /// Note new reads; anything else may go on
    fn take(&mut self, w: &World) {
        let _ = w;
        let parked: Vec<(usize, Kind)> = self.app.conns.iter().filter(|c| c.state == State::Parked).map(|c| (c.id, c.kind.clone())).collect();
        for (id, kind) in parked {
            match kind {
                Kind::Op { op, path, .. } if op == "read" => {
                    if let (Some(f), false) = (file_of(&path), self.held.iter().any(|h| h.1 == id)) {
                        self.held.push((f, id));
                    }
                }
                Kind::Op { op, .. } if op == "exit" => {}
                _ => self.app.tell(id, "go"),
            }
        }
    }
    fn fresh(&self, w: &World) {
        for i in 0..w.files.len() {
            touch(&self.base.join(format!("d/{i}{SUFFIX}")));
        }
    }
    /// Which loads the program waits for agrees with the model
    fn check(&self, w: &World, m: &M) -> Result<(), String> {
        let mut want = m.old.clone();
        if m.shown == Shown::Loading {
            want.push(m.row);
        }
        want.sort();
        let mut got: Vec<usize> = self.held.iter().map(|h| h.0).collect();
        got.sort();
        if got != want {
            return Err(format!("traces {got:?} are being read instead of {want:?}"));
        }
        let s = &self.app.screen;
        let dlg = if s.has("Ready to quit?") {
            Dlg::Quit
        } else if s.has("Available commands") {
            Dlg::Help
        } else {
            Dlg::None
        };
        if dlg != m.dlg {
            return Err(format!("the dialog is {dlg:?} instead of {:?}", m.dlg));
        }
        if dlg != Dlg::None {
            return Ok(());
        }
        let loading = s.has("Processing time trace");
        let error = s.has("<Ok>");
        let lines = s.lines();
        match m.shown {
            Shown::Loading if loading && s.has("<Abort>") && !error => Ok(()),
            Shown::Error if error && !loading => Ok(()),
            Shown::Table => {
                if loading || error || !lines[0].contains("Source file") {
                    return Err("the table is not shown".into());
                }
                let ys: Vec<usize> = (2..s.rows).filter(|&y| lines[y].contains(".cpp")).collect();
                let lit: Vec<usize> = ys.iter().enumerate().filter(|(_, &y)| matches!(s.marks[y][0], 2 | 5)).map(|x| x.0).collect();
                match lit == [m.row] {
                    true => Ok(()),
                    false => Err(format!("file {lit:?} is highlighted instead of {}", m.row)),
                }
            }
            Shown::View if !loading && !error => {
                let v = read(&self.app)?;
                let t = &trees()[w.files[m.row]];
                let tag = format!("clang{}x", m.row);
                if !v.footer.contains(&tag) {
                    return Err(format!("the footer {:?} does not mention {tag}", v.footer));
                }
                let mut got: Vec<String> = v.rows.iter().map(|r| r.last().unwrap().trim_start_matches(['+', ' ']).to_string()).collect();
                let mut want: Vec<String> = t.roots.iter().map(|r| t.nodes[*r].name.clone()).collect();
                got.sort();
                want.sort();
                if got != want || !want.contains(&v.pane) {
                    return Err(format!("the activities are {got:?} instead of {want:?}"));
                }
                let total: f64 = v.rows.iter().filter_map(|r| r[0].strip_suffix('%').and_then(|p| p.trim().parse::<f64>().ok())).sum();
                if (total - 100.0).abs() > 0.1 {
                    return Err(format!("the shares add up to {total}%"));
                }
                Ok(())
            }
            s => Err(format!("{s:?} is not shown")),
        }
    }
    fn release(&mut self, file: usize) {
        let at = self.held.iter().position(|h| h.0 == file).unwrap();
        let (_, id) = self.held.remove(at);
        self.app.tell(id, "go");
    }
    /// None: the program ends
    fn carry_out(&mut self, w: &World, m: &M, c: Cmd) -> Result<Option<M>, String> {
        let next = w.step(m, c).ok_or("not applicable")?;
        let before = self.app.screen.text();
        match c {
            Key(k) => {
                if k == "Enter" {
                    self.fresh(w);
                }
                self.app.key(match k {
                    "Down" => "\x1b[B",
                    "Up" => "\x1b[A",
                    "Enter" => "\r",
                    "Esc" => "\x1b",
                    "No" => "\x1b[C\r",
                    k => k,
                });
            }
            // Of several reads of one file, the oldest is the abandoned one
            Old(i) => self.release(m.old[i]),
            Done => {
                let at = self.held.iter().rposition(|h| h.0 == m.row).ok_or("there is no read to let go")?;
                let (_, id) = self.held.remove(at);
                self.app.tell(id, "go");
            }
        }
        if next.is_empty() {
            return Ok(None);
        }
        let fails = |r: &Run, e: String| Err(format!("{e}\nbefore:\n{before}\nafter {c:?}:\n{}", r.app.screen.text()));
        let same = next.iter().any(|n| self.check(w, n).is_ok());
        self.app.settle_for(Duration::from_millis(if same { 110 } else { 30 }), Duration::from_secs(2));
        let end = std::time::Instant::now() + Duration::from_secs(8);
        loop {
            self.take(w);
            if self.app.ended() || self.exiting().is_some() {
                return fails(self, format!("the program ends: {}", self.app.stderr()));
            }
            if self.app.stderr().contains("panicked") {
                return fails(self, format!("a thread crashed: {}", self.app.stderr()));
            }
            if let Some(n) = next.iter().find(|n| self.check(w, n).is_ok()) {
                return Ok(Some(n.clone()));
            }
            if std::time::Instant::now() > end {
                let e = self.check(w, &next[0]).err().unwrap();
                return fails(self, e);
            }
            self.app.settle_for(Duration::from_millis(30), Duration::from_secs(1));
        }
    }
    fn exiting(&self) -> Option<usize> {
        self.app.conns.iter().find(|c| c.state == State::Parked && matches!(&c.kind, Kind::Op { op, .. } if op == "exit")).map(|c| c.id)
    }
    /// The program was told to quit: it does, although traces are still being
    /// read, and even if those come to an end in the meantime
    fn ends(&mut self, w: &World, finish: bool) -> Result<(), String> {
        let end = std::time::Instant::now() + Duration::from_secs(10);
        while !self.app.ended() && self.exiting().is_none() {
            self.app.settle_for(Duration::from_millis(20), Duration::from_secs(1));
            self.take(w);
            if std::time::Instant::now() > end {
                return Err(format!("the program does not end:\n{}", self.app.screen.text()));
            }
        }
        if finish {
            for (_, id) in std::mem::take(&mut self.held) {
                self.app.tell(id, "go");
            }
            self.app.settle_for(Duration::from_millis(150), Duration::from_secs(2));
        }
        if let Some(id) = self.exiting() {
            self.app.tell(id, "go");
        }
        if !self.app.wait_until(Duration::from_secs(10), |a| a.ended()) {
            return Err("the program does not end".into());
        }
        let err = self.app.stderr();
        if !self.app.status.unwrap().success() || err.contains("panicked") || err.contains("crashed") {
            return Err(format!("the program does not end well ({}): {err}", self.app.status.unwrap()));
        }
        Ok(())
    }
}

struct Plan {
    done: HashSet<(M, Cmd)>,
    states: HashSet<M>,
    /// How often something could not be reached
    missed: HashMap<(M, Cmd), usize>,
    /// States in which quitting was tried
    quit: HashSet<(M, bool)>,
}

/// Shortest way to something that nobody has tried yet
fn next(w: &World, plan: &Plan, from: &M) -> Option<Vec<Cmd>> {
    let mut seen: HashMap<M, (M, Cmd)> = HashMap::new();
    let mut queue = VecDeque::from([from.clone()]);
    while let Some(m) = queue.pop_front() {
        for c in w.cmds() {
            let Some(ns) = w.step(&m, c) else { continue };
            // These have sessions of their own
            let Some(n) = ns.into_iter().next() else { continue };
            if !plan.done.contains(&(m.clone(), c)) {
                let mut path = vec![c];
                let mut at = m.clone();
                while at != *from {
                    let (p, c) = &seen[&at];
                    path.push(*c);
                    at = p.clone();
                }
                path.reverse();
                return Some(path);
            }
            if n != *from && !seen.contains_key(&n) {
                seen.insert(n.clone(), (m.clone(), c));
                queue.push_back(n);
            }
        }
    }
    None
}

fn play(w: &World, cmds: &[Cmd], base: &Path, worker: usize, finish: Option<bool>) -> Result<usize, (Vec<Cmd>, String)> {
    let mut r = Run::start(w, base, worker).map_err(|e| (vec![], e))?;
    let mut m = w.start();
    let mut log = vec![];
    r.check(w, &m).map_err(|e| (vec![], format!("{e}\n{}", r.app.screen.text())))?;
    for c in cmds {
        if w.step(&m, *c).is_none() {
            continue;
        }
        log.push(*c);
        match r.carry_out(w, &m, *c) {
            Ok(Some(n)) => m = n,
            Ok(None) => return r.ends(w, finish.unwrap_or(false)).map(|_| log.len()).map_err(|e| (log.clone(), e)),
            Err(e) => return Err((log, e)),
        }
    }
    Ok(log.len())
}

fn tour(w: &World, ck: &Ck, plan: &Mutex<Plan>, worker: usize, limit: f64) {
    let base = scratch().join(format!("w{worker}"));
    'session: loop {
        let mut m = w.start();
        if next(w, &plan.lock().unwrap(), &m).is_none() {
            return;
        }
        let mut log: Vec<Cmd> = vec![];
        let mut r = match Run::start(w, &base, worker) {
            Ok(r) => r,
            Err(e) => return ck.violation(&format!("{}: start", w.name), &e),
        };
        if let Err(e) = r.check(w, &m) {
            return ck.violation(&format!("{}: first screen", w.name), &format!("{e}\n{}", r.app.screen.text()));
        }
        ck.traces(1);
        while log.len() < 60 {
            if ck.elapsed() > limit {
                return ck.not_exhaustive("time budget of the tier");
            }
            if ck.has_violations() {
                return;
            }
            let goal;
            let path = {
                let mut p = plan.lock().unwrap();
                p.states.insert(m.clone());
                let Some(path) = next(w, &p, &m) else { break };
                let mut at = m.clone();
                for c in &path[..path.len() - 1] {
                    at = w.step(&at, *c).unwrap()[0].clone();
                }
                goal = (at, path[path.len() - 1]);
                p.done.insert(goal.clone());
                path
            };
            for c in path {
                let reached = (&m, &c) == (&goal.0, &goal.1);
                log.push(c);
                match r.carry_out(w, &m, c) {
                    Ok(n) => {
                        let n = n.unwrap();
                        ck.transitions(1);
                        ck.state(&(w.name, &n));
                        let predicted = w.step(&m, c).unwrap()[0].clone();
                        m = n;
                        if m != predicted {
                            if !reached {
                                let mut p = plan.lock().unwrap();
                                let n = p.missed.entry(goal.clone()).or_default();
                                *n += 1;
                                // What is predicted there need not exist
                                if *n < 3 {
                                    p.done.remove(&goal);
                                }
                            }
                            break;
                        }
                    }
                    Err(e) => {
                        drop(r);
                        let mut tries: Vec<&[Cmd]> = (2..=6.min(log.len())).map(|k| &log[log.len() - k..]).collect();
                        tries.push(&log);
                        match tries.into_iter().find_map(|t| play(w, t, &base, worker, None).err()) {
                            Some((log, e)) => ck.violation(&format!("{}: {log:?}", w.name), &e),
                            None => {
                                ck.bump("not_reproduced", 1);
                                println!("not reproduced: {}: {log:?}: {e}", w.name);
                            }
                        }
                        continue 'session;
                    }
                }
            }
        }
        ck.sample(|| json!({"world": w.name, "commands": format!("{log:?}")}));
    }
}

/// Shortest ways to all states of the model
fn ways(w: &World) -> Vec<(M, Vec<Cmd>)> {
    let mut out = vec![(w.start(), vec![])];
    let mut seen = HashSet::from([w.start()]);
    let mut i = 0;
    while i < out.len() {
        let (m, way) = out[i].clone();
        for c in w.cmds() {
            if let Some(n) = w.step(&m, c).and_then(|ns| ns.into_iter().next()) {
                if seen.insert(n.clone()) {
                    let mut way = way.clone();
                    way.push(c);
                    out.push((n, way));
                }
            }
        }
        i += 1;
    }
    out
}

pub fn run() {
    let ck = Ck::new("C27");
    ck.case_timeout(900);
    let limit = ck.pick(600.0, 3000.0);
    let workers = std::env::var("MC_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(16);
    let mut worlds = vec![
        World { name: "given trace", files: vec![0], table: false, old: 0 },
        World { name: "given file that is no trace", files: vec![2], table: false, old: 0 },
        World { name: "given trace without activities", files: vec![3], table: false, old: 0 },
        World { name: "two traces", files: vec![0, 1], table: true, old: ck.pick(2, 3) },
        World { name: "trace and others", files: vec![1, 2], table: true, old: ck.pick(1, 2) },
    ];
    if ck.thorough() {
        worlds.push(World { name: "everything", files: vec![0, 1, 2, 3], table: true, old: 2 });
    }
    for w in &worlds {
        let all = ways(w);
        if std::env::var("MC_COUNT").is_ok() {
            println!("{}: {} states", w.name, all.len());
            continue;
        }
        if std::env::var("MC_ONLY").is_ok_and(|o| !w.name.contains(&o)) {
            continue;
        }
        let plan = Mutex::new(Plan { done: HashSet::new(), states: HashSet::new(), missed: HashMap::new(), quit: HashSet::new() });
        std::thread::scope(|s| {
            for worker in 0..workers {
                let plan = &plan;
                s.spawn(move || tour(w, ck, plan, worker, limit));
            }
        });
        // Quitting, from everywhere
        let mut jobs: Vec<(M, Vec<Cmd>, bool)> = vec![];
        for (m, way) in &all {
            for finish in [false, true] {
                for last in [&[Key("Enter")] as &[Cmd], &[Key("q"), Key("Enter")]] {
                    let mut at = m.clone();
                    let mut cmds = way.clone();
                    let mut ends = false;
                    for c in last {
                        match w.step(&at, *c) {
                            None => break,
                            Some(ns) if ns.is_empty() => {
                                cmds.push(*c);
                                ends = true;
                                break;
                            }
                            Some(ns) => {
                                cmds.push(*c);
                                at = ns[0].clone();
                            }
                        }
                    }
                    let waiting = m.shown == Shown::Loading || !m.old.is_empty();
                    if ends && (waiting || !finish) && (last.len() == 1 || m.dlg == Dlg::None) && !jobs.iter().any(|j| j.1 == cmds && j.2 == finish) {
                        jobs.push((m.clone(), cmds, finish));
                    }
                }
            }
        }
        let at = std::sync::atomic::AtomicUsize::new(0);
        std::thread::scope(|s| {
            for worker in 0..workers {
                let (jobs, at, plan) = (&jobs, &at, &plan);
                s.spawn(move || {
                    let base = scratch().join(format!("w{worker}"));
                    while let Some((m, cmds, finish)) = jobs.get(at.fetch_add(1, std::sync::atomic::Ordering::Relaxed)) {
                        if ck.elapsed() > limit {
                            return ck.not_exhaustive("time budget of the tier");
                        }
                        if ck.has_violations() {
                            return;
                        }
                        ck.traces(1);
                        match play(w, cmds, &base, worker, Some(*finish)) {
                            Ok(n) => {
                                ck.transitions(n as u64);
                                plan.lock().unwrap().quit.insert((m.clone(), *finish));
                            }
                            Err((_, e)) => match play(w, cmds, &base, worker, Some(*finish)) {
                                Err((log, e)) => ck.violation(&format!("{}: {log:?} and the end{}", w.name, if *finish { ", the traces being read by then" } else { "" }), &e),
                                Ok(_) => {
                                    ck.bump("not_reproduced", 1);
                                    println!("not reproduced: {}: {cmds:?}: {e}", w.name);
                                }
                            },
                        }
                    }
                });
            }
        });
        let p = plan.lock().unwrap();
        ck.note(
            w.name,
            json!({"states": all.len(), "states_visited": p.states.len(), "commands_in_states": p.done.len(), "ends_in_states": p.quit.len(), "until_s": ck.elapsed()}),
        );
        println!("{:.1}s {}: {} of {} states, {} commands in them, {} endings", ck.elapsed(), w.name, p.states.len(), all.len(), p.done.len(), p.quit.len());
    }
    crate::done(ck)
}
