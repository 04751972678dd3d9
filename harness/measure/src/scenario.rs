//! The builds that are measured, and what must be true afterwards
use mcsim::{Config, Event, Execution, PState, Program, Step, Step::*, T0};
use std::{collections::BTreeMap, path::Path};
use vc::{ensure, Outcome};

pub const MB: u64 = 1 << 20;

#[derive(Clone, Debug)]
pub struct Job {
    pub name: String,
    pub dir: String,
    pub file: String,
    pub argv: Vec<String>,
    /// Raw command line
    pub command: String,
    /// Acceptable figures of each run (the last one is repeated): memory (bytes)
    pub rss: Vec<(u64, u64)>,
    /// Duration (ms)
    pub dur: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    File,
    MissingDir,
    Full,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Expect {
    /// Everything must work out
    Success,
    /// Memory runs low now and then
    Memory { may_finish: bool },
    /// Cancelled at some point
    Cancel,
    /// A job (or the output file) fails
    Failure { kind: Vec<&'static str>, log: Vec<String> },
    /// Either of them
    Unusable { kind: Vec<&'static str> },
}

#[derive(Clone, Debug)]
pub struct Scenario {
    pub name: String,
    pub cfg: Config,
    pub jobs: Vec<Job>,
    pub conc: Option<usize>,
    pub measure_time: bool,
    pub out: Out,
    pub expect: Expect,
    /// Deviation bound
    pub depth: usize,
    /// Time limit (ms) if there is no cancellation
    pub base_horizon: Option<u64>,
}

/// What the measurement told its owner
#[derive(Default, Debug)]
pub struct Rec {
    pub steps: Vec<u64>,
    pub done: Vec<(u64, Result<(), (String, String)>)>,
    pub logs: Vec<(log::Level, String)>,
    pub panics: Vec<String>,
}

pub struct Builder {
    cfg: Config,
    jobs: Vec<Job>,
    /// Memory consumption that lasts that long (ms) must be noticed
    hold: u64,
}

impl Builder {
    pub fn new() -> Self {
        Builder {
            cfg: Config {
                memory: vec![8_000_000_000],
                horizon_ms: 30_000,
                max_steps: 200_000,
                ..Config::default()
            },
            jobs: vec![],
            hold: 150,
        }
    }

    /// Allow for stalling threads
    pub fn slow() -> Self {
        Builder { hold: 410, ..Builder::new() }
    }

    /// Add a job whose runs do the given things
    pub fn job(mut self, runs: Vec<Vec<Step>>, rss: Vec<(u64, u64)>, dur: u64, threads: usize) -> Self {
        let i = self.jobs.len();
        let dir = format!("/b/d{}", i % 3);
        let prog = format!("/b/bin/cc{i}");
        let file = format!("/b/src/unit {i}.cpp");
        let command = format!("{prog} -DN={i} \"-DS=a b\" -o u{i}.o -c 'unit {i}.cpp'");
        let argv = vec![prog.clone(), format!("-DN={i}"), "-DS=a b".into(), "-o".into(), format!("u{i}.o"), "-c".into(), format!("unit {i}.cpp")];
        self.cfg.programs.insert(prog, Program { runs, threads, error: None });
        if !self.cfg.dirs.contains(&dir) {
            self.cfg.dirs.push(dir.clone());
        }
        self.jobs.push(Job { name: format!("unit {i}"), dir, file, argv, command, rss, dur });
        self
    }

    /// A job of constant memory consumption (MB) and given duration (ms)
    pub fn plain(self, mb: u64, ms: u64) -> Self {
        let b = mb * MB;
        let lo = if ms >= self.hold { b } else { 0 };
        self.job(vec![vec![Rss(b), Wait(ms), Exit(0)]], vec![(lo, b)], ms, 1)
    }

    /// Same, with distinguishable runs
    pub fn runs(self, mb: u64, ms: u64, n: u64) -> Self {
        let at = |k: u64| (mb + k) * MB;
        let hold = self.hold;
        let lo = |k: u64| if ms >= hold { at(k) } else { 0 };
        self.job((0..n).map(|k| vec![Rss(at(k)), Wait(ms), Exit(0)]).collect(), (0..n).map(|k| (lo(k), at(k))).collect(), ms, 1)
    }

    pub fn tweak(mut self, f: impl FnOnce(&mut Config, &mut Vec<Job>)) -> Self {
        f(&mut self.cfg, &mut self.jobs);
        self
    }

    pub fn build(self, name: &str, conc: usize, depth: usize, expect: Expect) -> Scenario {
        Scenario {
            name: name.into(),
            cfg: self.cfg,
            jobs: self.jobs,
            conc: (conc > 0).then_some(conc),
            measure_time: false,
            out: Out::File,
            expect,
            depth,
            base_horizon: None,
        }
    }
}

struct Run {
    job: usize,
    run: usize,
    start: u64,
    end: Option<u64>,
    /// Exit status, if the command ended by itself
    status: Option<i32>,
}

fn ms(t: u64) -> f64 {
    (t - T0) as f64 / 1e6
}

/// Command runs in order of start
fn runs(sc: &Scenario, ex: &Execution) -> Result<Vec<Run>, String> {
    let mut runs: BTreeMap<i32, Run> = BTreeMap::new();
    for (t, e) in &ex.events {
        match e {
            Event::Spawn { pid, argv, cwd, run } => {
                let Some(job) = sc.jobs.iter().position(|j| j.argv[0] == argv[0]) else {
                    return Err(format!("unexpected command {argv:?}"));
                };
                let j = &sc.jobs[job];
                ensure!(*argv == j.argv, "{}: ran {argv:?} instead of {:?}", j.name, j.argv);
                ensure!(*cwd == j.dir, "{}: ran in {cwd} instead of {}", j.name, j.dir);
                runs.insert(*pid, Run { job, run: *run, start: *t, end: None, status: None });
            }
            Event::Exit { pid, status } => {
                if let Some(r) = runs.get_mut(pid) {
                    r.end = Some(*t);
                    r.status = Some(*status);
                }
            }
            Event::Killed { pid, .. } => {
                if let Some(r) = runs.get_mut(pid) {
                    r.end = Some(*t);
                }
            }
            _ => {}
        }
    }
    let mut runs: Vec<Run> = runs.into_values().collect();
    runs.sort_by_key(|r| r.start);
    Ok(runs)
}

/// At no time do more commands run than requested
fn concurrency(sc: &Scenario, runs: &[Run]) -> Outcome {
    let max = sc.conc.unwrap_or(if sc.measure_time { 1 } else { std::thread::available_parallelism().unwrap().get() });
    for r in runs {
        let n = runs.iter().filter(|o| o.start <= r.start && o.end.map_or(true, |e| e > r.start)).count();
        ensure!(n <= max, "{n} commands run at once at {} ms, more than {max}", ms(r.start));
    }
    Ok(())
}

fn normalize(p: &Path) -> String {
    let mut out: Vec<String> = vec![];
    for c in p.components() {
        match c {
            std::path::Component::ParentDir => drop(out.pop()),
            std::path::Component::Normal(s) => out.push(s.to_string_lossy().into()),
            _ => {}
        }
    }
    format!("/{}", out.join("/"))
}

/// The profile has exactly one proper row per job
fn profile(sc: &Scenario, runs: &[Run], csv: &str) -> Outcome {
    let mut lines = csv.lines();
    if sc.jobs.is_empty() && csv.is_empty() {
        return Ok(());
    }
    ensure!(lines.next() == Some("file,max_rss,time"), "profile header is missing: {csv:?}");
    let mut seen = vec![0; sc.jobs.len()];
    for l in lines {
        let f: Vec<&str> = l.split(',').collect();
        ensure!(f.len() == 3, "bad profile row {l:?}");
        let path = normalize(&std::env::current_dir().unwrap().join(f[0]));
        let Some(j) = sc.jobs.iter().position(|j| j.file == path) else {
            return Err(format!("profile has a row for {:?}, which is no source file of the build", f[0]));
        };
        seen[j] += 1;
        let job = &sc.jobs[j];
        let rss: u64 = f[1].parse().map_err(|_| format!("bad memory consumption in row {l:?}"))?;
        // The row must come from a run that ended well
        let ok = |r: &&Run| r.job == j && r.status == Some(0);
        let good: Vec<_> = runs.iter().filter(ok).map(|r| job.rss[r.run.min(job.rss.len() - 1)]).collect();
        ensure!(!good.is_empty(), "{} has a row, but no run of its command ever completed", job.name);
        ensure!(
            good.iter().any(|(lo, hi)| (*lo..=*hi).contains(&rss)),
            "{} has a max-RSS of {rss} bytes, its complete runs use {good:?}",
            job.name
        );
        if sc.measure_time {
            let t: f64 = f[2].parse().map_err(|_| format!("bad time in row {l:?}"))?;
            let d = job.dur as f64 / 1e3;
            ensure!(t >= d - 0.001 && t <= d + 0.1 + sc.slack() as f64 / 1e9, "{} took {d} s, profile says {t} s", job.name);
        } else {
            ensure!(f[2].is_empty(), "row {l:?} has a time, which was not requested");
        }
    }
    for (j, n) in seen.iter().enumerate() {
        ensure!(*n == 1, "profile has {n} rows for {}", sc.jobs[j].name);
    }
    Ok(())
}

fn everything_ended(ex: &Execution) -> Outcome {
    for p in &ex.procs {
        ensure!(p.state != PState::Running, "process {} of {} still runs when everything is over", p.pid, p.program);
    }
    ensure!(ex.alive_threads == 0, "{} threads are left behind", ex.alive_threads);
    Ok(())
}

fn mark<'a>(ex: &'a Execution, name: &str) -> Option<(u64, &'a [i32], usize)> {
    ex.events.iter().find_map(|(t, e)| match e {
        Event::Mark { what, running, threads } if *what == name => Some((*t, &running[..], *threads)),
        _ => None,
    })
}

fn full_success(sc: &Scenario, runs: &[Run], rec: &Rec, csv: &str) -> Outcome {
    profile(sc, runs, csv)?;
    ensure!(rec.steps.len() == sc.jobs.len(), "{} steps of progress for {} jobs", rec.steps.len(), sc.jobs.len());
    Ok(())
}

pub fn check(sc: &Scenario, ex: &Execution, rec: &Rec, csv: &str) -> Outcome {
    let runs = runs(sc, ex)?;
    if let Some(f) = &ex.failure {
        return Err(format!("{f}{}", rec.panics.first().map(|p| format!(" (after panic: {p})")).unwrap_or_default()));
    }
    ensure!(rec.panics.is_empty(), "panic: {}", rec.panics[0]);
    ensure!(rec.done.len() <= 1, "completion was announced {} times: {:?}", rec.done.len(), rec.done);
    ensure!(rec.steps.len() <= sc.jobs.len(), "{} steps of progress for {} jobs", rec.steps.len(), sc.jobs.len());
    concurrency(sc, &runs)?;
    everything_ended(ex)?;
    let Some((done_at, done)) = rec.done.first() else {
        return Err("completion was never announced".into());
    };
    for (t, e) in &ex.events {
        ensure!(!matches!(e, Event::Spawn { .. }) || t <= done_at, "a command was started after completion was announced");
    }
    match &sc.expect {
        Expect::Success => {
            if let Err(e) = done {
                return Err(format!("measurement failed: {e:?}"));
            }
            full_success(sc, &runs, rec, csv)?;
            for (j, job) in sc.jobs.iter().enumerate() {
                let n = runs.iter().filter(|r| r.job == j).count();
                ensure!(n == 1, "{} was run {n} times", job.name);
            }
            ensure!(runs.iter().all(|r| r.status.is_some()), "a command was killed");
        }
        Expect::Memory { may_finish } => {
            let low = ex.events.iter().any(|(_, e)| matches!(e, Event::Refresh { available, .. } if *available < sc.oom_margin()));
            match done {
                Ok(()) => {
                    ensure!(*may_finish, "success reported although memory is exhausted");
                    full_success(sc, &runs, rec, csv)?;
                }
                Err((kind, msg)) => {
                    ensure!(kind == "OutOfMemory", "reported {msg:?} instead of running out of memory");
                    ensure!(low, "ran out of memory although there was enough of it all the time");
                    // A single command has to make do with its own margin and
                    // that of the system, unless memory vanishes more quickly
                    let levels: Vec<u64> = ex.events.iter().filter_map(|(_, e)| if let Event::Refresh { available, .. } = e { Some(*available) } else { None }).collect();
                    let drop = levels.windows(2).map(|w| w[0].saturating_sub(w[1])).max().unwrap_or(0);
                    let enough = 200_000_000.max(drop + 10);
                    ensure!(levels.iter().any(|l| *l < enough), "ran out of memory although there was enough of it for a single command");
                }
            }
            if !low {
                for (j, job) in sc.jobs.iter().enumerate() {
                    let n = runs.iter().filter(|r| r.job == j).count();
                    ensure!(n == 1, "{} was run {n} times although memory was never low", job.name);
                }
            }
        }
        Expect::Cancel => {
            let (cancel, _, _) = mark(ex, "cancel").ok_or("never cancelled")?;
            let (dropped, running, threads) = mark(ex, "dropped").ok_or("cancellation did not return")?;
            ensure!(running.is_empty(), "commands still run after cancellation has returned: {running:?}");
            ensure!(threads <= 1, "{} threads still run after cancellation has returned", threads - 1);
            ensure!(dropped - cancel <= 250_000_000 + sc.slack(), "cancellation took {} ms", (dropped - cancel) / 1_000_000);
            for r in &runs {
                ensure!(r.start <= cancel + 200_000_000 + sc.slack(), "{} was started {} ms after cancellation", sc.jobs[r.job].name, (r.start - cancel) / 1_000_000);
            }
            match done {
                Ok(()) => full_success(sc, &runs, rec, csv)?,
                Err((kind, msg)) => ensure!(kind == "Killed", "reported {msg:?} instead of cancellation"),
            }
        }
        Expect::Failure { kind, log } => {
            let Err((k, msg)) = done else {
                return Err("success reported although something failed".into());
            };
            ensure!(kind.iter().any(|e| k.starts_with(e)), "reported {k} ({msg}), expected {kind:?}");
            ensure!(!msg.is_empty(), "no error message");
            let all: String = rec.logs.iter().filter(|l| l.0 <= log::Level::Warn).map(|l| l.1.clone() + "\n").collect::<String>() + msg;
            for want in log {
                ensure!(all.contains(want.as_str()), "the diagnostics of the failing command ({:?}...) were not reported", &want[..want.len().min(40)]);
            }
            // The failure happens at the first unsuccessful end of a command,
            // or at once if it could not be started
            let failed = runs.iter().filter(|r| matches!(r.status, Some(s) if s != 0)).filter_map(|r| r.end).min();
            let failed = failed.unwrap_or(T0);
            if kind.iter().any(|k| k.starts_with("Job(JobFailed")) {
                for r in &runs {
                    ensure!(
                        r.start <= failed + 200_000_000 + sc.slack(),
                        "{} was started {} ms after the failure",
                        sc.jobs[r.job].name,
                        (r.start - failed) / 1_000_000
                    );
                }
                ensure!(*done_at <= failed + 400_000_000 + sc.slack(), "the failure was only reported {} ms later", (done_at - failed) / 1_000_000);
            }
        }
        Expect::Unusable { kind } => match done {
            Ok(()) => full_success(sc, &runs, rec, csv)?,
            Err((k, msg)) => ensure!(kind.iter().any(|e| k.starts_with(e)), "reported {k} ({msg}), expected {kind:?}"),
        },
    }
    Ok(())
}

impl Scenario {
    /// Below this, memory is low
    pub fn oom_margin(&self) -> u64 {
        100_000_000 * (self.conc.unwrap_or(1) as u64 + 1)
    }

    fn time(mut self) -> Self {
        self.measure_time = true;
        self
    }
    fn memory(mut self, levels: &[u64]) -> Self {
        self.cfg.memory = levels.iter().map(|m| m * 1_000_000).collect();
        self
    }
    fn script(mut self, levels: &[u64]) -> Self {
        self.cfg.memory_script = levels.iter().map(|m| m * 1_000_000).collect();
        self
    }
    fn out(mut self, o: Out) -> Self {
        self.out = o;
        self
    }
    fn spurious(mut self) -> Self {
        self.cfg.spurious = true;
        self
    }
    /// Threads may stall
    fn slow(mut self) -> Self {
        self.cfg.slow = true;
        self.name += ", slow threads";
        self
    }
    /// Extra time (ns) that stalling threads may take
    fn slack(&self) -> u64 {
        if self.cfg.slow { 130_000_000 * self.depth as u64 } else { 0 }
    }
}

pub fn scenarios(id: &str, thorough: bool) -> Vec<Scenario> {
    let d = |quick: usize, deep: usize| if thorough { deep } else { quick };
    let ok = Expect::Success;
    let mut v = vec![];
    match id {
        "C12" => {
            v.push(Builder::new().build("no jobs, 1 worker", 1, 2, ok.clone()));
            v.push(Builder::new().build("no jobs, 2 workers", 2, 2, ok.clone()));
            v.push(Builder::new().plain(30, 0).build("one instant job, 1 worker", 1, d(2, 3), ok.clone()));
            v.push(Builder::new().plain(30, 170).build("one job, 2 workers", 2, d(2, 3), ok.clone()));
            v.push(Builder::new().plain(30, 0).plain(40, 0).build("two instant jobs, 2 workers", 2, d(2, 3), ok.clone()).spurious());
            v.push(Builder::new().plain(30, 160).plain(40, 210).build("two jobs, 1 worker", 1, d(1, 2), ok.clone()).time());
            v.push(Builder::new().plain(30, 160).plain(40, 160).plain(50, 190).build("three jobs, 2 workers", 2, d(2, 2), ok.clone()).time());
            v.push(Builder::new().plain(30, 10).plain(40, 0).plain(50, 230).plain(60, 10).build("four jobs, 3 workers", 3, d(1, 2), ok.clone()));
            v.push(Builder::new().plain(30, 160).plain(40, 20).build("two jobs, default workers with times", 0, d(1, 1), ok.clone()).time());
            v.push(Builder::new().plain(30, 160).plain(40, 20).build("two jobs, default workers", 0, d(0, 1), ok.clone()));
            let mut b = Builder::new();
            for i in 0..70 {
                b = b.plain(30 + i, 10 * (i % 23));
            }
            v.push(b.build("70 jobs, 65 workers", 65, 0, ok.clone()));
            let mut b = Builder::new();
            for i in 0..40 {
                b = b.plain(30 + i, 10 * (i % 23));
            }
            v.push(b.build("40 jobs, 2 workers", 2, d(0, 0), ok.clone()));
            // More than memory and time to look at
            let phases = |s: &[(u64, u64)]| s.iter().flat_map(|&(mb, ms)| [Rss(mb * MB), Wait(ms)]).chain([Exit(0)]).collect::<Vec<_>>();
            v.push(
                Builder::new()
                    .job(vec![phases(&[(10, 160), (90, 160), (20, 160)])], vec![(90 * MB, 90 * MB)], 480, 1)
                    .job(vec![phases(&[(50, 160), (70, 10), (20, 160)])], vec![(50 * MB, 70 * MB)], 330, 1)
                    .build("memory that varies", 2, d(1, 2), ok.clone())
                    .time(),
            );
            let kid = vec![Rss(25 * MB), Wait(165), Exit(0)];
            let mid = vec![Rss(7 * MB), Fork(kid.clone()), Wait(165), Exit(0)];
            v.push(
                Builder::new()
                    .job(vec![vec![Rss(5 * MB), Fork(mid), Fork(kid), Wait(165), Rss(11 * MB), Wait(160), Exit(0)]], vec![(62 * MB, 68 * MB)], 325, 1)
                    .plain(33, 170)
                    .build("a command with descendants", 2, d(1, 1), ok.clone()),
            );
            v.push(
                Builder::new()
                    .job(vec![vec![Rss(64 * MB), Wait(200), Exit(0)]], vec![(64 * MB, 64 * MB)], 200, 4)
                    .plain(10, 30)
                    .build("a command with several threads", 1, d(1, 1), ok.clone()),
            );
            // Output
            let chatty = |n: usize| Out(1, vec![b'w'; n]);
            v.push(
                Builder::new()
                    .job(vec![vec![Rss(64 * MB), chatty(100), Wait(170), Out(0, b"hello\n".to_vec()), Exit(0)]], vec![(64 * MB, 64 * MB)], 170, 1)
                    .job(vec![vec![Rss(32 * MB), chatty(200_000), Wait(170), chatty(70_000), Exit(0)]], vec![(32 * MB, 32 * MB)], 170, 1)
                    .build("commands with a lot of warnings", 2, d(1, 1), ok.clone()),
            );
            v.push(Builder::slow().plain(30, 20).plain(40, 460).build("two jobs, 2 workers", 2, d(1, 2), ok.clone()).time().slow());
            v.push(Builder::slow().plain(30, 0).plain(40, 70).plain(50, 0).build("three jobs, 2 workers", 2, d(1, 2), ok.clone()).slow());
            if thorough {
                v.push(Builder::new().plain(30, 0).plain(40, 0).plain(50, 0).build("three instant jobs, 3 workers", 3, 2, ok.clone()).spurious());
                v.push(Builder::new().plain(30, 0).plain(40, 60).plain(50, 110).plain(60, 0).plain(70, 20).build("five jobs, 4 workers", 4, 2, ok.clone()));
            }
        }
        "C13" => {
            let mem = |may_finish| Expect::Memory { may_finish };
            v.push(Builder::new().runs(10, 170, 5).build("one job, 1 worker", 1, d(2, 3), mem(true)).memory(&[400, 150]));
            v.push(Builder::new().runs(10, 170, 5).runs(30, 220, 5).build("two jobs, 2 workers", 2, d(2, 3), mem(true)).memory(&[500, 250, 50]));
            v.push(Builder::new().runs(10, 60, 5).runs(30, 60, 5).runs(50, 120, 5).build("three short jobs, 2 workers", 2, d(2, 2), mem(true)).memory(&[500, 260]).spurious());
            v.push(Builder::new().runs(10, 170, 5).runs(30, 120, 5).runs(50, 320, 5).runs(70, 60, 5).build("four jobs, 3 workers", 3, d(1, 2), mem(true)).memory(&[600, 350, 250, 50]));
            v.push(Builder::new().runs(10, 170, 5).runs(30, 120, 5).runs(50, 320, 5).build("three jobs, 3 workers, kill one then another", 3, d(1, 2), mem(true)).script(&[600, 600, 600, 350, 500, 260, 500]));
            v.push(Builder::new().runs(10, 170, 5).runs(30, 120, 5).build("idle worker is stopped", 3, d(1, 2), mem(true)).script(&[600, 600, 600, 350, 500]));
            // Two jobs are stopped while one worker is idle and another one is
            // both idle and stopped
            let mut b = Builder::new();
            for _ in 0..6 {
                b = b.job(vec![vec![Exit(0)]], vec![(0, 1 << 30)], 0, 1);
            }
            let b = b.tweak(|c, _| c.by_start = [110, 260, 90, 90, 400, 400, 20].map(|ms| vec![Rss(MB), Wait(ms), Exit(0)]).to_vec());
            v.push(b.build("six jobs, 4 workers, all but an idle one are stopped", 4, d(1, 1), mem(true)).script(&[700, 700, 700, 700, 700, 700, 700, 240]));
            v.push(Builder::new().runs(10, 170, 5).runs(30, 120, 5).build("never enough memory", 2, d(1, 2), mem(false)).script(&[50]));
            v.push(Builder::new().runs(10, 170, 5).runs(30, 120, 5).build("memory vanishes", 2, d(1, 2), mem(false)).script(&[600, 600, 600, 10]));
            v.push(Builder::new().runs(10, 170, 5).build("memory vanishes with one job left", 1, d(1, 2), mem(false)).script(&[600, 600, 600, 10]));
            v.push(Builder::slow().runs(10, 170, 5).runs(30, 120, 5).runs(50, 120, 5).build("three jobs, 2 workers", 2, d(1, 2), mem(true)).memory(&[500, 250]).slow());
            for n in [64, 65, 128] {
                let mut b = Builder::new();
                for i in 0..n {
                    b = b.runs(30 + 4 * i, 210, 3);
                }
                // All workers but one have to go
                let full = 100 * (n + 1) + 100;
                v.push(b.build(&format!("{n} workers, all but one are stopped"), n as usize, 0, mem(true)).script(&[full, full, full, 250, full]));
            }
        }
        "C14" => {
            let c = Expect::Cancel;
            v.push(Builder::new().plain(30, 120).build("one job, 1 worker", 1, d(1, 2), c.clone()));
            v.push(Builder::new().plain(30, 30).plain(40, 60).build("two jobs, 2 workers", 2, d(1, 2), c.clone()));
            v.push(Builder::new().plain(30, 60).plain(40, 110).plain(50, 60).build("three jobs, 2 workers", 2, d(0, 1), c.clone()));
            let hang = vec![Rss(5 * MB), Hang];
            let tree = vec![Rss(5 * MB), Fork(vec![Rss(7 * MB), Fork(hang.clone()), Hang]), Wait(63), Fork(hang.clone()), Hang];
            v.push(
                Builder::new()
                    .job(vec![tree.clone()], vec![(0, 1 << 40)], 0, 1)
                    .job(vec![hang.clone()], vec![(0, 1 << 40)], 0, 2)
                    .build("commands that do not end", 2, d(1, 1), c.clone())
                    .bounded(),
            );
            let mut b = Builder::new();
            for _ in 0..12 {
                b = b.plain(10, 4);
            }
            b = b.job(vec![tree], vec![(0, 1 << 40)], 0, 1);
            v.push(b.build("many short jobs and one that does not end", 2, d(0, 0), c.clone()).bounded());
            v.push(Builder::new().build("no jobs", 1, d(1, 2), c.clone()));
            for (conc, n) in [(1, 30), (2, 40)] {
                let mut b = Builder::new();
                for _ in 0..n {
                    b = b.plain(10, 30);
                }
                v.push(b.build(&format!("{n} short jobs"), conc, 0, c.clone()));
            }
            // Some children end earlier
            let mut busy = vec![Rss(5 * MB)];
            for k in 0..8 {
                busy.extend([Fork(hang.clone()), Fork(vec![Rss(2 * MB), Wait(13 * (k + 1)), Exit(0)])]);
            }
            busy.push(Hang);
            v.push(Builder::new().job(vec![busy], vec![(0, 1 << 40)], 0, 1).build("a command whose children end one by one", 1, d(1, 2), c.clone()).bounded().slow());
            v.push(Builder::new().plain(30, 30).plain(40, 60).build("two jobs, 2 workers", 2, d(1, 1), c.clone()).slow());
            v.push(
                Builder::new()
                    .job(vec![hang.clone()], vec![(0, 1 << 40)], 0, 1)
                    .plain(30, 30)
                    .plain(30, 30)
                    .build("a command that does not end and two that do", 2, d(1, 1), c.clone())
                    .bounded()
                    .slow(),
            );
            if thorough {
                v.push(Builder::new().plain(30, 60).plain(40, 110).plain(50, 60).plain(60, 10).build("four jobs, 3 workers", 3, 1, c.clone()));
            }
        }
        "C15" => {
            let f = |kind: &[&'static str], log: &[&str]| Expect::Failure { kind: kind.to_vec(), log: log.iter().map(|s| s.to_string()).collect() };
            let diag = "unit.cpp:1:2: error: expected thing, got something else";
            let say = |s: &str| Out(1, s.as_bytes().to_vec());
            let bad: Vec<(&str, Vec<Step>, Vec<&str>)> = vec![
                ("exits with 1", vec![Rss(20 * MB), Wait(70), say(diag), Exit(1)], vec![diag]),
                ("exits with 255 at once", vec![say(diag), Exit(255)], vec![diag]),
                ("prints its diagnostics to stdout", vec![Wait(20), Out(0, diag.as_bytes().to_vec()), say("see above"), Exit(2)], vec![diag, "see above"]),
                ("crashes", vec![Wait(20), say(diag), Crash(11)], vec![diag]),
                ("is killed", vec![Wait(160), Crash(9)], vec!["9"]),
            ];
            for which in 0..2 {
                for (name, steps, log) in &bad {
                    let mut b = Builder::new();
                    for i in 0..2 {
                        b = if i == which { b.job(vec![steps.clone()], vec![(0, 0)], 0, 1) } else { b.plain(30, 110) };
                    }
                    let deep = *name == "exits with 1" || *name == "exits with 255 at once";
                    v.push(b.build(&format!("job {which} of 2 {name}, 2 workers"), 2, if deep { d(2, 3) } else { d(2, 2) }, f(&["Job(JobFailed"], log)));
                }
            }
            let steps = bad[0].1.clone();
            for which in 0..4 {
                let mut b = Builder::new();
                for i in 0..4 {
                    b = if i == which { b.job(vec![steps.clone()], vec![(0, 0)], 0, 1) } else { b.plain(30, 310) };
                }
                v.push(b.build(&format!("job {which} of 4 exits with 1, 2 workers"), 2, d(1, 2), f(&["Job(JobFailed"], &[diag])));
            }
            // More work is queued
            let mut b = Builder::new();
            for i in 0..12 {
                b = if i == 5 { b.job(vec![steps.clone()], vec![(0, 0)], 0, 1) } else { b.plain(30, 300) };
            }
            v.push(b.build("job 5 of 12 exits with 1, 3 workers", 3, d(0, 1), f(&["Job(JobFailed"], &[diag])));
            v.push(
                Builder::new()
                    .job(vec![steps.clone()], vec![(0, 0)], 0, 1)
                    .job(vec![vec![Rss(MB), Fork(vec![Rss(MB), Hang]), Hang]], vec![(0, 0)], 0, 1)
                    .build("a job fails while another one hangs", 2, d(2, 3), f(&["Job(JobFailed"], &[diag])),
            );
            v.push(
                Builder::new()
                    .job(vec![steps.clone()], vec![(0, 0)], 0, 1)
                    .job(vec![vec![Wait(70), say("other diagnostics"), Exit(1)]], vec![(0, 0)], 0, 1)
                    .build("both jobs fail at the same time", 2, d(2, 3), f(&["Job(JobFailed"], &[])),
            );
            v.push(
                Builder::new()
                    .job(vec![steps.clone()], vec![(0, 0)], 0, 1)
                    .plain(30, 110)
                    .plain(30, 310)
                    .build("a job of 3 fails", 2, d(1, 2), f(&["Job(JobFailed"], &[diag]))
                    .slow(),
            );
            // Commands that cannot be started
            for which in 0..2 {
                let two = || Builder::new().plain(30, 110).plain(40, 60);
                v.push(
                    two()
                        .tweak(|c, j| drop(c.programs.remove(&j[which].argv[0])))
                        .build(&format!("program {which} does not exist"), 2, d(2, 3), f(&["Job(SpawnFailed"], &[])),
                );
                v.push(
                    two()
                        .tweak(|_, j| j[which].dir = "/b/gone".into())
                        .build(&format!("working directory {which} does not exist"), 2, d(1, 2), f(&["Job(SpawnFailed"], &[])),
                );
                v.push(two().tweak(|_, j| j[which].command = " ".into()).build(&format!("command {which} is empty"), 2, d(1, 2), f(&["Job(NoProgram"], &[])));
            }
            for (name, e) in [
                ("may not be executed", libc::EACCES),
                ("is no executable file", libc::ENOEXEC),
                ("has too many arguments", libc::E2BIG),
                ("is being written to", libc::ETXTBSY),
                ("cannot be forked", libc::EAGAIN),
                ("does not fit into memory", libc::ENOMEM),
                ("is on a broken disk", libc::EIO),
            ] {
                for (conc, which) in [(1, 0), (2, 0), (2, 1)] {
                    v.push(
                        Builder::new()
                            .plain(30, 110)
                            .plain(40, 60)
                            .tweak(|c, j| c.programs.get_mut(&j[which].argv[0]).unwrap().error = Some(e))
                            .build(&format!("program {which} {name}, {conc} workers"), conc, d(0, 2), f(&["Job(SpawnFailed"], &[])),
                    );
                }
            }
            // Output that is hard to use
            let garbage = [&b"caf\xe9 diagnostics \xff\xfe"[..], b" end of garbage\n"].concat();
            v.push(
                Builder::new()
                    .job(vec![vec![Wait(20), Out(1, garbage.clone()), Exit(1)]], vec![(0, 0)], 0, 1)
                    .plain(30, 110)
                    .build("a failing job prints Latin-1 text", 2, d(1, 1), f(&["Job(JobFailed"], &["diagnostics", "end of garbage"])),
            );
            v.push(
                Builder::new()
                    .job(vec![vec![Wait(20), Out(0, garbage), Exit(0)]], vec![(0, 0)], 0, 1)
                    .plain(30, 110)
                    .build("a job prints Latin-1 text", 2, d(1, 1), Expect::Unusable { kind: vec!["Job("] }),
            );
            let mut long = b"first line of diagnostics\n".to_vec();
            while long.len() < 300_000 {
                long.extend(b"note: candidate template ignored: substitution failure\n");
            }
            long.extend(b"last line of diagnostics");
            for fd in 0..2 {
                v.push(
                    Builder::new()
                        .job(vec![vec![Rss(20 * MB), Wait(20), Out(fd, long.clone()), Wait(20), Exit(1)]], vec![(0, 0)], 0, 1)
                        .plain(30, 110)
                        .build(
                            &format!("a failing job prints 300 kB to {}", ["stdout", "stderr"][fd]),
                            2,
                            d(0, 1),
                            f(&["Job(JobFailed"], &["first line of diagnostics", "last line of diagnostics"]),
                        ),
                );
            }
            // Output file
            let two = || Builder::new().plain(30, 0).plain(40, 60);
            v.push(two().build("output directory does not exist", 2, d(1, 1), f(&["Io("], &[])).out(self::Out::MissingDir));
            v.push(two().build("output device is full", 2, d(1, 1), f(&["Io(", "Csv("], &[])).out(self::Out::Full));
            let mut b = Builder::new();
            for _ in 0..400 {
                b = b.plain(30, 0);
            }
            v.push(b.build("output device is full, 400 jobs", 2, 0, f(&["Io(", "Csv("], &[])).out(self::Out::Full));
        }
        _ => panic!("unknown property {id}"),
    }
    v
}

impl Scenario {
    /// The commands never end, so the measurement without cancellation does
    /// not end either
    fn bounded(mut self) -> Self {
        self.base_horizon = Some(400);
        self
    }
}
