//! C12-C15: exhaustive exploration of schedules of the build measurement code
//!
//! The parent process enumerates scenarios; worker processes (same program)
//! run the real code under the controlled scheduler of `mcsim`.
mod scenario;
use cmakeperf::{
    commands::{CompilationDatabase, DatabaseEntry},
    measure::PollClock,
};
use scenario::*;
use serde_json::{json, Value};
use std::{
    collections::{HashSet, VecDeque},
    io::{BufRead, BufReader, Write},
    num::NonZeroUsize,
    path::{Path, PathBuf},
    process::{Child, ChildStdin, Command, Stdio},
    sync::{mpsc, Mutex},
    time::{Duration, Instant},
};
use vc::Ck;

static REC: Mutex<Rec> = Mutex::new(Rec { steps: vec![], done: vec![], logs: vec![], panics: vec![] });

struct Logger;
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        mcsim::real(|| REC.lock().unwrap().logs.push((r.level(), r.args().to_string())))
    }
    fn flush(&self) {}
}

type Devs = Vec<(usize, u32)>;

fn execute(sc: &Scenario, cancel: Option<u64>, devs: &Devs, dir: &Path) -> (mcsim::Execution, Rec, String) {
    PollClock::set_polling_interval(Duration::from_millis(50));
    *REC.lock().unwrap() = Rec::default();
    let mut cfg = sc.cfg.clone();
    cfg.cancel_at = cancel;
    if let (Some(h), None) = (sc.base_horizon, cancel) {
        cfg.horizon_ms = h;
    }
    let out = match sc.out {
        Out::File => dir.join("profile.csv"),
        Out::MissingDir => dir.join("missing/profile.csv"),
        Out::Full => "/dev/full".into(),
    };
    if sc.out == Out::File {
        let _ = std::fs::remove_file(&out);
    }
    let entries: Vec<_> = sc
        .jobs
        .iter()
        .map(|j| DatabaseEntry::new(PathBuf::from(&j.dir), j.command.clone(), PathBuf::from(&j.file), None))
        .collect();
    let (time, conc, path) = (sc.measure_time, sc.conc.map(|c| NonZeroUsize::new(c).unwrap()), out.clone());
    let ex = mcsim::execute(
        &cfg,
        devs,
        dir.join("proc"),
        Box::new(move || {
            let db = CompilationDatabase::from_entries(entries);
            let m = mcdrive::start(
                path,
                &db,
                time,
                conc,
                mcdrive::Step(Box::new(|| {
                    let t = mcsim::now();
                    mcsim::real(|| REC.lock().unwrap().steps.push(t))
                })),
                Box::new(|r| {
                    let t = mcsim::now();
                    mcsim::real(|| {
                        let r = r.map_err(|e| (format!("{e:?}"), e.to_string()));
                        REC.lock().unwrap().done.push((t, r))
                    });
                    mcsim::user_done();
                }),
            );
            mcsim::user_wait();
            mcsim::mark("cancel");
            drop(m);
            mcsim::mark("dropped");
        }),
    );
    let rec = std::mem::take(&mut *REC.lock().unwrap());
    let csv = match sc.out {
        Out::File => std::fs::read_to_string(&out).unwrap_or_default(),
        _ => String::new(),
    };
    (ex, rec, csv)
}

fn devs_str(d: &Devs) -> String {
    d.iter().map(|(i, a)| format!("{i}:{a}")).collect::<Vec<_>>().join(",")
}
fn devs_parse(s: &str) -> Devs {
    s.split(',').filter(|s| !s.is_empty()).map(|s| s.split_once(':').unwrap()).map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap())).collect()
}

// === Worker process ===

struct Stats {
    execs: u64,
    steps: u64,
    hashes: HashSet<u64>,
    beat: Instant,
}

struct Found {
    devs: Devs,
    msg: String,
    /// Threads were left hanging
    dirty: bool,
}

fn explore(sc: &Scenario, cancel: Option<u64>, devs: &Devs, depth: usize, dir: &Path, st: &mut Stats) -> Result<(Vec<u32>, u64), Found> {
    std::fs::write(dir.join("current"), devs_str(devs)).unwrap();
    if st.beat.elapsed() > Duration::from_millis(500) {
        st.beat = Instant::now();
        println!("{}", json!({"beat": st.execs}));
    }
    let (ex, rec, csv) = execute(sc, cancel, devs, dir);
    st.execs += 1;
    st.steps += ex.steps;
    st.hashes.insert(vc::h(&format!("{:?}", ex.events)));
    if let Err(msg) = check(sc, &ex, &rec, &csv) {
        return Err(Found { devs: devs.clone(), msg, dirty: ex.failure.is_some() });
    }
    let points: Vec<u32> = ex.points.iter().map(|p| p.n).collect();
    if depth > 0 {
        let first = devs.last().map_or(0, |d| d.0 + 1);
        for i in first..points.len() {
            for alt in 1..points[i] {
                let mut devs = devs.clone();
                devs.push((i, alt));
                explore(sc, cancel, &devs, depth - 1, dir, st)?;
            }
        }
    }
    Ok((points, ex.steps))
}

fn worker(id: &str, thorough: bool, warm_up: bool) -> ! {
    let dir = std::env::current_dir().unwrap();
    log::set_logger(Box::leak(Box::new(Logger))).unwrap();
    log::set_max_level(log::LevelFilter::Info);
    std::panic::set_hook(Box::new(|p| {
        if mcsim::active() {
            let msg = p.to_string().replace('\n', " ");
            if std::env::var_os("MC_VERBOSE").is_some() {
                eprintln!("{msg}");
            }
            mcsim::real(|| REC.lock().unwrap().panics.push(msg));
        } else {
            eprintln!("{p}");
        }
    }));
    let scs = scenarios(id, thorough);
    // Some things are only initialized once per process
    for _ in 0..2 {
        let sc = Builder::new().plain(10, 170).plain(10, 0).build("warm-up", 2, 0, Expect::Success);
        if !warm_up {
            break;
        }
        if execute(&sc, None, &vec![], &dir).0.failure.is_some() {
            println!("{}", json!({"ready": false}));
            std::process::exit(0);
        }
    }
    println!("{}", json!({"ready": true}));
    for line in std::io::stdin().lines() {
        let line = line.unwrap();
        let t: Value = serde_json::from_str(&line).unwrap();
        let sc = &scs[t["sc"].as_u64().unwrap() as usize];
        let mut st = Stats { execs: 0, steps: 0, hashes: HashSet::new(), beat: Instant::now() };
        let devs = devs_parse(t["devs"].as_str().unwrap());
        if std::env::var_os("MC_TRACE").is_some() {
            let (ex, rec, csv) = execute(sc, t["cancel"].as_u64(), &devs, &dir);
            let text = format!("{}\n{:#?}\n{rec:#?}\n{csv}\n{:?}\n{:?}\n", ex.trace.join("\n"), ex.events, ex.failure, check(sc, &ex, &rec, &csv));
            std::fs::write(std::env::var("MC_TRACE").unwrap(), text).unwrap();
        }
        let r = if t["base"] == true && sc.expect == Expect::Cancel {
            // Only to learn how many steps there are
            let (ex, _, _) = execute(sc, None, &devs, &dir);
            let dirty = ex.failure.is_some();
            println!("{}", json!({"points": ex.points.iter().map(|p| p.n).collect::<Vec<_>>(), "nsteps": ex.steps, "execs": 0, "steps": 0, "hashes": [], "dirty": dirty}));
            if dirty {
                std::process::exit(0);
            }
            continue;
        } else {
            explore(sc, t["cancel"].as_u64(), &devs, t["depth"].as_u64().unwrap() as usize, &dir, &mut st)
        };
        let hashes: Vec<u64> = st.hashes.into_iter().collect();
        match r {
            Ok((points, nsteps)) => println!("{}", json!({"points": points, "nsteps": nsteps, "execs": st.execs, "steps": st.steps, "hashes": hashes})),
            Err(f) => {
                println!("{}", json!({"found": f.msg, "devs": devs_str(&f.devs), "execs": st.execs, "steps": st.steps, "hashes": hashes, "dirty": f.dirty}));
                if f.dirty {
                    std::process::exit(0);
                }
            }
        }
    }
    std::process::exit(0)
}

// === Parent process ===

struct Worker {
    child: Child,
    stdin: ChildStdin,
    lines: mpsc::Receiver<String>,
    dir: PathBuf,
}

impl Worker {
    fn start(id: &str, scratch: &Path, n: usize) -> Worker {
        Self::start_with(id, scratch, n, "worker").or_else(|| Self::start_with(id, scratch, n, "worker-cold")).unwrap_or_else(|| {
            eprintln!("engine error: cannot start worker process");
            let _ = std::fs::remove_dir_all(scratch);
            std::process::exit(2)
        })
    }

    fn start_with(id: &str, scratch: &Path, n: usize, role: &str) -> Option<Worker> {
        let dir = scratch.join(format!("w{n}"));
        std::fs::create_dir_all(&dir).unwrap();
        let mut cmd = Command::new(std::env::current_exe().unwrap());
        unsafe {
            use std::os::unix::process::CommandExt;
            cmd.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::personality(libc::ADDR_NO_RANDOMIZE as _);
                Ok(())
            });
        }
        let mut child = cmd
            .args([id, role])
            .current_dir(&dir)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .expect("starting worker");
        let stdin = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        let (tx, lines) = mpsc::channel();
        std::thread::spawn(move || {
            for l in out.lines() {
                let Ok(l) = l else { break };
                if tx.send(l).is_err() {
                    break;
                }
            }
        });
        let mut w = Worker { child, stdin, lines, dir };
        let r = w.lines.recv_timeout(Duration::from_secs(40)).unwrap_or_default();
        match r.contains("\"ready\":true") {
            true => Some(w),
            false => {
                let _ = w.child.kill();
                None
            }
        }
    }

    fn run(&mut self, task: &Task) -> Value {
        let msg = json!({"sc": task.sc, "cancel": task.cancel, "devs": devs_str(&task.devs), "depth": task.depth, "base": task.base});
        let _ = std::fs::remove_file(self.dir.join("current"));
        if writeln!(self.stdin, "{msg}").is_err() {
            return json!({"engine": "worker process is gone"});
        }
        loop {
            match self.lines.recv_timeout(Duration::from_secs(40)) {
                Ok(l) => {
                    let v: Value = match serde_json::from_str(&l) {
                        Ok(v) => v,
                        Err(_) => continue,
                    };
                    if v.get("beat").is_none() {
                        return v;
                    }
                }
                Err(e) => {
                    let cur = std::fs::read_to_string(self.dir.join("current")).unwrap_or_default();
                    let what = match e {
                        mpsc::RecvTimeoutError::Timeout => "a thread computes forever without reaching a scheduling point".to_string(),
                        _ => match self.child.wait() {
                            Ok(s) if s.code() == Some(77) => "DIVERGED: simulator failed".to_string(),
                            s => format!("the process died: {s:?}"),
                        },
                    };
                    let _ = self.child.kill();
                    return json!({"found": what, "devs": cur, "dirty": true, "execs": 0, "steps": 0, "hashes": []});
                }
            }
        }
    }
}

impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

#[derive(Clone)]
struct Task {
    sc: usize,
    cancel: Option<u64>,
    devs: Devs,
    depth: usize,
    base: bool,
}

struct Queue {
    tasks: VecDeque<Task>,
    busy: usize,
    stop: bool,
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id: &'static str = ["C12", "C13", "C14", "C15"].into_iter().find(|i| *i == args[1]).expect("usage: mc-measure ID");
    let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
    if args.get(2).map_or(false, |s| s.starts_with("worker")) {
        worker(id, thorough, args[2] == "worker");
    }
    let ck = Ck::new(id);
    let shm = Path::new("/dev/shm");
    let base = if shm.is_dir() { shm.to_path_buf() } else { std::env::temp_dir() };
    let scratch = base.join(format!("mc-measure-{}", std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let mut scs = scenarios(id, thorough);
    if let Ok(only) = std::env::var("MC_ONLY") {
        for s in &mut scs {
            if !s.name.contains(&only) {
                s.depth = usize::MAX;
            }
        }
    }
    if let Some(d) = args.get(2) {
        // Replay: ID scenario cancel devs
        let sc = scs.iter().position(|s| s.name == *d).expect("no such scenario");
        let mut w = Worker::start(id, &scratch, 0);
        let t = Task { sc, cancel: args[3].parse().ok(), devs: devs_parse(&args[4]), depth: 0, base: false };
        println!("{}", w.run(&t));
        std::fs::remove_dir_all(&scratch).unwrap();
        return;
    }
    let budget = ck.pick(600.0, 3000.0);
    let q = Mutex::new(Queue { tasks: VecDeque::new(), busy: 0, stop: false });
    for (sc, s) in scs.iter().enumerate() {
        if s.depth != usize::MAX {
            q.lock().unwrap().tasks.push_back(Task { sc, cancel: None, devs: vec![], depth: 0, base: true });
        }
    }
    let per_sc: Mutex<Vec<(u64, u64, usize, u64)>> = Mutex::new(vec![(0, 0, 0, 0); scs.len()]);
    let engine: Mutex<Option<String>> = Mutex::new(None);
    let diverged = Mutex::new(0usize);
    let found: Mutex<Vec<(String, String)>> = Mutex::new(vec![]);
    let violated: Mutex<HashSet<(usize, String)>> = Mutex::new(HashSet::new());
    std::thread::scope(|s| {
        for n in 0..8 {
            let (q, scs, per_sc, scratch, engine, violated, found, diverged) = (&q, &scs, &per_sc, &scratch, &engine, &violated, &found, &diverged);
            s.spawn(move || {
                let mut w = Worker::start(id, scratch, n);
                loop {
                    let task = {
                        let mut g = q.lock().unwrap();
                        match g.tasks.pop_front() {
                            Some(t) => {
                                g.busy += 1;
                                t
                            }
                            None if g.busy == 0 => break,
                            None => {
                                drop(g);
                                std::thread::sleep(Duration::from_millis(3));
                                continue;
                            }
                        }
                    };
                    if ck.elapsed() > budget {
                        ck.not_exhaustive("time budget exceeded");
                        q.lock().unwrap().busy -= 1;
                        continue;
                    }
                    let sc = &scs[task.sc];
                    let skip = violated.lock().unwrap().iter().any(|v| v.0 == task.sc);
                    let mut r = if skip { json!({}) } else { w.run(&task) };
                    if r["found"].as_str().map_or(false, |f| f.starts_with("DIVERGED")) {
                        // State of the process (of libraries) made a difference
                        w = Worker::start(id, scratch, n);
                        r = w.run(&task);
                    }
                    let mut more = vec![];
                    if let Some(e) = r["engine"].as_str() {
                        *engine.lock().unwrap() = Some(e.into());
                    } else if !skip {
                        let execs = r["execs"].as_u64().unwrap();
                        let steps = r["steps"].as_u64().unwrap();
                        ck.transitions(steps);
                        ck.traces(execs);
                        ck.distinct_states(0);
                        for h in r["hashes"].as_array().unwrap() {
                            ck.state(&(task.sc, h.as_u64().unwrap()));
                        }
                        {
                            let mut g = per_sc.lock().unwrap();
                            g[task.sc].0 += execs;
                            g[task.sc].1 += steps;
                            if task.base {
                                g[task.sc].2 = r["points"].as_array().map_or(0, |p| p.len());
                                g[task.sc].3 = r["nsteps"].as_u64().unwrap_or(0);
                            }
                        }
                        if r["dirty"] == true {
                            w = Worker::start(id, scratch, n);
                        }
                        if let Some(msg) = r["found"].as_str() {
                            let devs = r["devs"].as_str().unwrap();
                            if msg.starts_with("DIVERGED") {
                                *diverged.lock().unwrap() += 1;
                                if std::env::var_os("MC_VERBOSE").is_some() {
                                    println!("diverged: {} {:?} {devs}", sc.name, task.cancel);
                                }
                            } else if msg.starts_with("UNSUPPORTED") {
                                *engine.lock().unwrap() = Some(format!("{}: {msg} ({devs})", sc.name));
                            } else {
                                // The same schedule must fail again
                                let again = Task { devs: devs_parse(devs), depth: 0, base: false, ..task.clone() };
                                let mut times = 0;
                                for _ in 0..3 {
                                    let r = w.run(&again);
                                    if r["dirty"] == true {
                                        w = Worker::start(id, scratch, n);
                                    }
                                    times += r["found"].as_str().map_or(0, |m| !m.starts_with("DIVERGED") as usize);
                                }
                                if times < 2 {
                                    *diverged.lock().unwrap() += 1;
                                    println!("not reproducible, ignored: {}: {msg} ({devs})", sc.name);
                                } else if violated.lock().unwrap().insert((task.sc, String::new())) {
                                    let c = task.cancel.map_or(String::new(), |c| format!(", cancelled at step {c}"));
                                    let mut v = found.lock().unwrap();
                                    v.push((format!("{}{c}, schedule [{devs}]", sc.name), msg.to_string()));
                                    if v.len() >= 5 {
                                        q.lock().unwrap().stop = true;
                                    }
                                }
                            }
                        } else if task.base {
                            let points: Vec<u64> = r["points"].as_array().unwrap().iter().map(|p| p.as_u64().unwrap()).collect();
                            if sc.expect == Expect::Cancel {
                                for at in 1..=r["nsteps"].as_u64().unwrap() + 1 {
                                    more.push(Task { sc: task.sc, cancel: Some(at), devs: vec![], depth: sc.depth, base: false });
                                }
                            } else if sc.depth > 0 {
                                for (i, n) in points.iter().enumerate() {
                                    for alt in 1..*n as u32 {
                                        more.push(Task { sc: task.sc, cancel: None, devs: vec![(i, alt)], depth: sc.depth - 1, base: false });
                                    }
                                }
                            }
                        }
                    }
                    let mut g = q.lock().unwrap();
                    g.tasks.extend(more);
                    g.busy -= 1;
                    if engine.lock().unwrap().is_some() || g.stop {
                        g.tasks.clear();
                    }
                }
            });
        }
    });
    let _ = std::fs::remove_dir_all(&scratch);
    if let Some(e) = engine.into_inner().unwrap() {
        eprintln!("engine error: {e}");
        std::process::exit(2);
    }
    let diverged = diverged.into_inner().unwrap();
    ck.note("tasks_cut_short_because_replay_diverged", diverged);
    if diverged > 0 {
        ck.not_exhaustive("some schedules could not be replayed");
    }
    let list: Vec<Value> = scs
        .iter()
        .zip(per_sc.lock().unwrap().iter())
        .map(|(s, (e, st, p, n))| json!({"scenario": s.name, "deviations": s.depth, "schedules": e, "transitions": st, "decision_points_of_default_schedule": p, "steps_of_default_schedule": n}))
        .collect();
    if std::env::var("MC_VERBOSE").is_ok() {
        for l in list.iter().filter(|l| l["schedules"] != 0) {
            println!("{} d={} schedules={} transitions={} points={} steps={}", l["scenario"], l["deviations"], l["schedules"], l["transitions"], l["decision_points_of_default_schedule"], l["steps_of_default_schedule"]);
        }
    }
    ck.note("scenarios", list);
    for (key, msg) in found.into_inner().unwrap() {
        ck.violation(&key, &msg);
    }
    ck.sample(|| json!({"scenario": scs[0].name, "jobs": scs[0].jobs.len()}));
    ck.finish()
}
