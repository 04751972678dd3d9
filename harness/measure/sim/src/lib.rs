//! A simulated kernel and a controlled scheduler
//!
//! The functions below replace libc functions and the ThreadSanitizer runtime
//! entry points at link time. Threads that take part in a simulated execution
//! ("logical threads") run one at a time; at every synchronization operation
//! the explorer decides who runs next. Processes, signals, memory statistics
//! and time are simulated. All other threads use the real thing.
#![allow(static_mut_refs, clippy::missing_safety_doc, clippy::all)]
mod ffi;
mod symbols;
pub mod tsan;
use std::{
    cell::Cell,
    collections::{BTreeMap, HashMap},
    ffi::{c_int, c_void, CStr},
    path::PathBuf,
    sync::atomic::{AtomicU32, Ordering::SeqCst},
};

pub const FIRST_PID: i32 = 5_000_000;
pub const T0: u64 = 1_000_000_000_000;
const MS: u64 = 1_000_000;

#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    /// Change memory consumption (bytes, a multiple of 4096)
    Rss(u64),
    /// Let time pass (ms)
    Wait(u64),
    /// Write to stdout (0) or stderr (1)
    Out(usize, Vec<u8>),
    /// Start a child process
    Fork(Vec<Step>),
    /// Exit normally
    Exit(i32),
    /// Die from a signal
    Crash(i32),
    /// Never finish
    Hang,
}

/// How a program behaves
#[derive(Clone, Debug, Default)]
pub struct Program {
    /// Steps of each run; the last one is repeated
    pub runs: Vec<Vec<Step>>,
    /// Threads per process
    pub threads: usize,
    /// It cannot be started
    pub error: Option<i32>,
}

#[derive(Clone, Debug, Default)]
pub struct Config {
    /// Programs by path
    pub programs: BTreeMap<String, Program>,
    /// What the n-th command to be started does, whatever the program (the
    /// last one is repeated)
    pub by_start: Vec<Vec<Step>>,
    /// Directories that commands can run in
    pub dirs: Vec<String>,
    /// Available memory (bytes) by refresh: choice set offered at each refresh
    pub memory: Vec<u64>,
    /// Available memory at given refresh indices (overrides the choice)
    pub memory_script: Vec<u64>,
    /// Wake the user thread at this step at the latest
    pub cancel_at: Option<u64>,
    /// Let blocked threads wake up spuriously
    pub spurious: bool,
    /// Let threads stall until the next timer expires
    pub slow: bool,
    /// Virtual time limit (ms)
    pub horizon_ms: u64,
    /// Interrupting the user thread's wait ends here
    pub max_steps: u64,
}

#[derive(Clone, Debug, Hash)]
pub enum Event {
    Spawn { pid: i32, argv: Vec<String>, cwd: String, run: usize },
    Fork { pid: i32, parent: i32 },
    /// Process ended by itself (Ok(code) or Err(signal))
    Exit { pid: i32, status: i32 },
    Killed { pid: i32, sig: i32 },
    Refresh { available: u64, trees: Vec<(i32, u64)> },
    /// Something the user thread did, with running processes and live threads
    Mark { what: &'static str, running: Vec<i32>, threads: usize },
}

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum PState {
    Running,
    Zombie(i32),
    Gone,
}

pub struct Proc {
    pub pid: i32,
    pub parent: i32,
    pub group: i32,
    pub program: String,
    steps: Vec<Step>,
    next: usize,
    at: u64,
    rss: u64,
    threads: usize,
    pub state: PState,
    out: [i32; 2],
    pos: usize,
    pub root: i32,
    pub spawned: u64,
    pub ended: u64,
}

enum Block {
    No,
    Futex { addr: usize, mask: u32, woken: bool, deadline: Option<u64> },
    Poll { fds: *mut libc::pollfd, n: usize, deadline: Option<u64> },
    Sleep(u64),
    Join(usize),
    WaitPid(i32),
    User,
    Done,
}

struct Thread {
    block: Block,
    go: Box<AtomicU32>,
    pthread: libc::pthread_t,
    last_op: (usize, usize),
    spurious: bool,
}

/// A decision point with more than one option
#[derive(Clone, Debug, PartialEq)]
pub struct Point {
    pub n: u32,
    pub step: u64,
}

pub struct Sim {
    pub cfg: Config,
    devs: Vec<(usize, u32)>,
    pub points: Vec<Point>,
    threads: Vec<Thread>,
    current: usize,
    streak: u64,
    pub now: u64,
    pub steps: u64,
    pub procs: Vec<Proc>,
    runs: HashMap<String, usize>,
    pub events: Vec<(u64, Event)>,
    refreshes: usize,
    started: usize,
    pub failure: Option<String>,
    proc_root: PathBuf,
    sigchld: usize,
    user_released: bool,
    done_flag: bool,
    actions: HashMap<usize, Actions>,
    attrs: HashMap<usize, i32>,
    mem_choice: u64,
    trace: Option<Vec<String>>,
}

#[derive(Default, Clone)]
pub struct Actions {
    dups: Vec<(c_int, c_int)>,
    cwd: Option<String>,
}

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static INSIDE: Cell<u32> = const { Cell::new(0) };
}
static mut SIM: Option<Box<Sim>> = None;
static FINISHED: AtomicU32 = AtomicU32::new(0);
/// Signal handler registered for SIGCHLD
static mut SIGCHLD: usize = 0;

fn sim() -> &'static mut Sim {
    match unsafe { SIM.as_mut() } {
        Some(s) => s,
        None => {
            eprintln!("UNSUPPORTED: no simulation is running {}", unsafe { symbols::backtrace() });
            unsafe { libc::_exit(77) }
        }
    }
}

/// Whether the calling thread is simulated (and not inside the simulator)
pub fn active() -> bool {
    ME.with(|m| m.get()) != usize::MAX && INSIDE.with(|i| i.get()) == 0
}

/// Code that must run for real
pub struct Real;
impl Real {
    pub fn new() -> Self {
        INSIDE.with(|i| i.set(i.get() + 1));
        Real
    }
}
impl Drop for Real {
    fn drop(&mut self) {
        INSIDE.with(|i| i.set(i.get() - 1));
    }
}

fn futex_block(word: &AtomicU32) {
    while word.swap(0, SeqCst) == 0 {
        unsafe { ffi::raw_futex(word.as_ptr(), libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG, 0) };
    }
}
fn futex_go(word: &AtomicU32) {
    word.store(1, SeqCst);
    unsafe { ffi::raw_futex(word.as_ptr(), libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG, 1) };
}

/// What one execution did
pub struct Execution {
    pub points: Vec<Point>,
    pub events: Vec<(u64, Event)>,
    pub procs: Vec<Proc>,
    pub failure: Option<String>,
    pub steps: u64,
    pub end: u64,
    pub threads: usize,
    pub alive_threads: usize,
    pub trace: Vec<String>,
}

/// Run one execution: `body` is the user thread
pub fn execute(cfg: &Config, devs: &[(usize, u32)], proc_root: PathBuf, body: Box<dyn FnOnce() + Send>) -> Execution {
    symbols::init();
    reset_proc_root(&proc_root);
    drain();
    FINISHED.store(0, SeqCst);
    unsafe {
        SIM = Some(Box::new(Sim {
            cfg: cfg.clone(),
            devs: devs.to_vec(),
            points: vec![],
            threads: vec![],
            current: 0,
            streak: 0,
            now: T0,
            steps: 0,
            procs: vec![],
            runs: HashMap::new(),
            events: vec![],
            refreshes: 0,
            started: 0,
            failure: None,
            proc_root,
            sigchld: 0,
            user_released: false,
            done_flag: false,
            actions: HashMap::new(),
            attrs: HashMap::new(),
            mem_choice: 0,
            trace: std::env::var_os("MC_TRACE").map(|_| vec![]),
        }));
    }
    // Start the user thread
    let boxed: Box<Box<dyn FnOnce() + Send>> = Box::new(body);
    extern "C" fn user(arg: *mut c_void) -> *mut c_void {
        let f = unsafe { Box::from_raw(arg as *mut Box<dyn FnOnce() + Send>) };
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f())).is_err() {
            let _r = Real::new();
            sim().fail("the user thread panicked");
        }
        std::ptr::null_mut()
    }
    let id = sim().new_thread();
    let mut handle: libc::pthread_t = 0;
    let rc = unsafe { ffi::start_thread(&mut handle, std::ptr::null(), id, user, Box::into_raw(boxed) as *mut c_void) };
    assert_eq!(rc, 0);
    futex_go(&sim().threads[0].go);
    futex_block(&FINISHED);
    let s = unsafe { SIM.take().unwrap() };
    let alive = s.threads.iter().filter(|t| !matches!(t.block, Block::Done)).count();
    for p in &s.procs {
        for fd in p.out {
            if fd >= 0 {
                unsafe { libc::close(fd) };
            }
        }
    }
    if s.failure.is_none() {
        for t in &s.threads {
            unsafe { ffi::real_join(t.pthread) };
        }
    }
    Execution {
        points: s.points,
        events: s.events,
        procs: s.procs,
        failure: s.failure,
        steps: s.steps,
        end: s.now,
        threads: s.threads.len(),
        alive_threads: alive,
        trace: s.trace.unwrap_or_default(),
    }
}

/// Forget notifications of an earlier execution that nobody was interested in
fn drain() {
    for fd in 3..200 {
        unsafe {
            let mut st: libc::stat = std::mem::zeroed();
            let fl = libc::fcntl(fd, libc::F_GETFL);
            if fl < 0 || libc::fstat(fd, &mut st) != 0 {
                continue;
            }
            if [libc::S_IFIFO, libc::S_IFSOCK].contains(&(st.st_mode & libc::S_IFMT)) && fl & libc::O_NONBLOCK != 0 {
                let mut buf = [0u8; 4096];
                while libc::read(fd, buf.as_mut_ptr() as _, buf.len()) > 0 {}
            }
        }
    }
}

fn reset_proc_root(root: &PathBuf) {
    if !root.exists() {
        std::fs::create_dir_all(root).unwrap();
        std::fs::write(root.join("uptime"), "1000.00 1000.00\n").unwrap();
        std::fs::write(root.join("stat"), "cpu 0 0 0 0\nbtime 1700000000\n").unwrap();
    }
    for e in std::fs::read_dir(root).unwrap() {
        let p = e.unwrap().path();
        if p.is_dir() {
            std::fs::remove_dir_all(p).unwrap();
        }
    }
}

/// Called by the user thread: wait until released by `user_done` or by the
/// cancellation step
pub fn user_wait() {
    assert!(active());
    let _r = Real::new();
    let s = sim();
    let me = ME.with(|m| m.get());
    s.threads[me].block = Block::User;
    s.reschedule(false, false);
}
/// Called by the completion callback
pub fn user_done() {
    let _r = Real::new();
    sim().done_flag = true;
}
pub fn mark(what: &'static str) {
    let _r = Real::new();
    let s = sim();
    let running = s.procs.iter().filter(|p| p.state == PState::Running).map(|p| p.pid).collect();
    let threads = s.threads.iter().filter(|t| !matches!(t.block, Block::Done)).count();
    s.events.push((s.now, Event::Mark { what, running, threads }));
}
/// Run something of no concern to the simulation
pub fn real<T>(f: impl FnOnce() -> T) -> T {
    let _r = Real::new();
    f()
}
pub fn now() -> u64 {
    sim().now
}

impl Sim {
    fn new_thread(&mut self) -> usize {
        self.threads.push(Thread {
            block: Block::No,
            go: Box::new(AtomicU32::new(0)),
            pthread: 0,
            last_op: (0, 0),
            spurious: false,
        });
        self.threads.len() - 1
    }

    pub fn fail(&mut self, msg: &str) {
        if self.failure.is_none() {
            self.failure = Some(msg.into());
        }
    }

    /// End the execution right here, whatever still runs
    fn abort(&mut self, msg: &str) -> ! {
        self.fail(msg);
        futex_go(&FINISHED);
        loop {
            unsafe { libc::pause() };
        }
    }

    fn decide(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let i = self.points.len();
        self.points.push(Point { n: n as u32, step: self.steps });
        match self.devs.iter().find(|d| d.0 == i) {
            Some(&(_, alt)) => {
                if alt as usize >= n {
                    self.abort("DIVERGED: replayed choice is out of range");
                }
                alt as usize
            }
            None => 0,
        }
    }

    fn ready(&self, t: usize) -> bool {
        match &self.threads[t].block {
            Block::No => true,
            Block::Futex { woken, deadline, .. } => *woken || deadline.map_or(false, |d| d <= self.now),
            Block::Poll { fds, n, deadline } => {
                deadline.map_or(false, |d| d <= self.now) || unsafe { ffi::real_poll(*fds, *n as _, 0) } != 0
            }
            Block::Sleep(until) => *until <= self.now,
            Block::Join(other) => matches!(self.threads[*other].block, Block::Done),
            Block::WaitPid(pid) => self.procs.iter().any(|p| {
                (p.pid == *pid || (*pid == -1 && p.root == p.pid)) && matches!(p.state, PState::Zombie(_))
            }),
            Block::User => self.done_flag || self.user_released,
            Block::Done => false,
        }
    }

    fn deadline(&self, t: usize) -> Option<u64> {
        match &self.threads[t].block {
            Block::Futex { deadline, .. } | Block::Poll { deadline, .. } => *deadline,
            Block::Sleep(until) => Some(*until),
            _ => None,
        }
    }

    /// When something happens next
    fn next_time(&self) -> Option<u64> {
        (0..self.threads.len())
            .filter_map(|t| self.deadline(t))
            .chain(
                self.procs
                    .iter()
                    .filter(|p| p.state == PState::Running && p.next < p.steps.len())
                    .map(|p| p.at)
                    .filter(|t| *t > self.now),
            )
            .min()
    }

    /// Hand over control; `runnable`: the current thread could continue
    fn reschedule(&mut self, runnable: bool, yielding: bool) {
        let me = self.current;
        self.steps += 1;
        if self.steps > self.cfg.max_steps {
            self.abort("no end in sight: too many steps (livelock)");
        }
        if let (Some(at), false) = (self.cfg.cancel_at, self.user_released) {
            if self.steps >= at {
                self.user_released = true;
                if me != 0 && matches!(self.threads[0].block, Block::User) {
                    return self.switch_to(0);
                }
            }
        }
        self.streak += 1;
        let mut rotate = yielding || self.streak > 400;
        loop {
            #[derive(Debug)]
            enum Opt {
                Thread(usize),
                Spurious(usize),
                Proc(usize),
                Time(u64),
            }
            let mut opts = vec![];
            if runnable && !rotate {
                opts.push(Opt::Thread(me));
            }
            let n = self.threads.len();
            for k in 1..n {
                let t = (me + k) % n;
                if self.ready(t) {
                    opts.push(Opt::Thread(t));
                }
            }
            if runnable && rotate {
                opts.push(Opt::Thread(me));
            }
            if !runnable && self.ready(me) {
                opts.push(Opt::Thread(me));
            }
            for p in 0..self.procs.len() {
                if self.proc_due(p) {
                    opts.push(Opt::Proc(p));
                }
            }
            if opts.is_empty() {
                if self.threads.iter().all(|t| matches!(t.block, Block::Done)) {
                    futex_go(&FINISHED);
                    return;
                }
                // Let time pass
                match self.next_time() {
                    None => self.abort("deadlock: no thread can ever continue"),
                    Some(t) => {
                        self.now = self.now.max(t);
                        if self.now - T0 > self.cfg.horizon_ms * MS {
                            self.abort("no end in sight: the measurement still runs at the time limit");
                        }
                        continue;
                    }
                }
            }
            if self.cfg.spurious {
                for t in 0..n {
                    if matches!(self.threads[t].block, Block::Futex { woken: false, .. }) && !self.threads[t].spurious && !self.ready(t) {
                        opts.push(Opt::Spurious(t));
                    }
                }
            }
            if self.cfg.slow {
                if let Some(t) = self.next_time() {
                    if t > self.now && t <= self.now + 60 * MS && (0..n).any(|t| self.ready(t) && t != 0) {
                        opts.push(Opt::Time(t));
                    }
                }
            }
            let pick = self.decide(opts.len());
            if self.trace.is_some() {
                let mut bt = unsafe { symbols::backtrace() };
                bt.truncate(400);
                let line = format!("step {} point {} t={} thread {me} runnable={runnable} streak={} pick {pick} of {opts:?} {bt}", self.steps, self.points.len() as isize - 1, (self.now - T0) / 1000, self.streak);
                self.trace.as_mut().unwrap().push(line);
            }
            match opts[pick] {
                Opt::Proc(p) => {
                    self.step_proc(p);
                    continue;
                }
                Opt::Time(t) => {
                    // Whatever happens at that time comes first
                    self.now = t;
                    for p in 0..self.procs.len() {
                        if self.proc_due(p) {
                            self.step_proc(p);
                        }
                    }
                    rotate = true;
                    continue;
                }
                Opt::Spurious(t) => {
                    self.threads[t].spurious = true;
                    if let Block::Futex { woken, .. } = &mut self.threads[t].block {
                        *woken = true;
                    }
                    return self.switch_to(t);
                }
                Opt::Thread(t) => return self.switch_to(t),
            }
        }
    }

    fn switch_to(&mut self, t: usize) {
        let me = self.current;
        if t == me {
            if self.streak > 400 {
                self.streak = 0;
            }
            return;
        }
        self.streak = 0;
        self.current = t;
        let finished = matches!(self.threads[me].block, Block::Done);
        // The boxed word does not move when the thread table grows
        let mine: *const AtomicU32 = &*self.threads[me].go;
        futex_go(&self.threads[t].go);
        if !finished {
            futex_block(unsafe { &*mine });
        }
    }

    fn tree_memory(&self, root: i32) -> u64 {
        self.procs.iter().filter(|p| p.root == root && p.state == PState::Running).map(|p| p.rss).sum()
    }

    fn proc_due(&self, i: usize) -> bool {
        let p = &self.procs[i];
        if p.state != PState::Running || p.at > self.now {
            return false;
        }
        match p.steps.get(p.next) {
            None => true,
            Some(Step::Hang) => false,
            Some(Step::Out(fd, _)) => {
                if p.out[*fd] < 0 {
                    return true;
                }
                let mut pfd = libc::pollfd { fd: p.out[*fd], events: libc::POLLOUT, revents: 0 };
                unsafe { ffi::real_poll(&mut pfd, 1, 0) > 0 }
            }
            _ => true,
        }
    }

    /// Run a process up to the next time step
    fn step_proc(&mut self, i: usize) {
        loop {
            let p = &mut self.procs[i];
            match p.steps.get(p.next).cloned().unwrap_or(Step::Exit(0)) {
                Step::Rss(b) => {
                    p.rss = b;
                    p.next += 1;
                    self.write_proc(i);
                }
                Step::Wait(ms) => {
                    p.at = self.now + ms * MS;
                    p.next += 1;
                    if ms > 0 {
                        return;
                    }
                }
                Step::Out(fd, data) => {
                    let f = p.out[fd];
                    if f >= 0 {
                        while p.pos < data.len() {
                            let n = unsafe { libc::write(f, data[p.pos..].as_ptr() as _, data.len() - p.pos) };
                            if n < 0 {
                                if std::io::Error::last_os_error().kind() == std::io::ErrorKind::WouldBlock {
                                    return;
                                }
                                break; // broken pipe
                            }
                            p.pos += n as usize;
                        }
                    }
                    p.pos = 0;
                    p.next += 1;
                }
                Step::Fork(steps) => {
                    p.next += 1;
                    let (parent, group, root, out, threads, program) = (p.pid, p.group, p.root, p.out, p.threads, p.program.clone());
                    let out = out.map(|f| if f >= 0 { unsafe { libc::fcntl(f, libc::F_DUPFD_CLOEXEC, 0) } } else { -1 });
                    let pid = self.new_pid();
                    self.procs.push(Proc {
                        pid,
                        parent,
                        group,
                        program,
                        steps,
                        next: 0,
                        at: self.now,
                        rss: 0,
                        threads,
                        state: PState::Running,
                        out,
                        pos: 0,
                        root,
                        spawned: self.now,
                        ended: 0,
                    });
                    self.events.push((self.now, Event::Fork { pid, parent }));
                    let j = self.procs.len() - 1;
                    self.write_proc(j);
                    self.step_proc(j);
                }
                Step::Exit(code) => {
                    let pid = p.pid;
                    self.events.push((self.now, Event::Exit { pid, status: code }));
                    return self.end_proc(i, (code & 0xff) << 8);
                }
                Step::Crash(sig) => {
                    let pid = p.pid;
                    self.events.push((self.now, Event::Exit { pid, status: -sig }));
                    return self.end_proc(i, sig);
                }
                Step::Hang => return,
            }
        }
    }

    fn end_proc(&mut self, i: usize, status: i32) {
        let now = self.now;
        let p = &mut self.procs[i];
        let pid = p.pid;
        let is_root = p.root == pid;
        p.ended = now;
        p.rss = 0;
        for fd in &mut p.out {
            if *fd >= 0 {
                unsafe { libc::close(*fd) };
                *fd = -1;
            }
        }
        p.state = if is_root { PState::Zombie(status) } else { PState::Gone };
        self.write_proc(i);
        // Orphans are adopted by init
        for j in 0..self.procs.len() {
            if self.procs[j].parent == pid {
                self.procs[j].parent = 1;
                self.write_proc(j);
            }
        }
        if is_root && unsafe { SIGCHLD } != 0 {
            type Handler = extern "C" fn(c_int, *mut libc::siginfo_t, *mut c_void);
            let h: Handler = unsafe { std::mem::transmute(SIGCHLD) };
            h(libc::SIGCHLD, std::ptr::null_mut(), std::ptr::null_mut());
        }
    }

    fn write_proc(&self, i: usize) {
        let p = &self.procs[i];
        let dir = self.proc_root.join(p.pid.to_string());
        if p.state == PState::Gone {
            let _ = std::fs::remove_dir_all(dir);
            return;
        }
        let zombie = p.state != PState::Running;
        let pages = p.rss / 4096;
        let stat = format!(
            "{} (cc) {} {} {} 1 0 -1 0 0 0 0 0 0 0 0 0 20 0 {} 0 {} {} {} 18446744073709551615 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0",
            p.pid, if zombie { "Z" } else { "R" }, p.parent, p.group, p.threads, p.pid, p.rss, pages
        );
        let statm = format!("{pages} {pages} 0 0 0 0 0\n");
        let tasks: Vec<i32> = (0..p.threads as i32).map(|t| p.pid + t * 100_000).collect();
        for (k, t) in tasks.iter().enumerate() {
            let d = dir.join("task").join(t.to_string());
            for d in [&dir, &d] {
                if d == &dir && k > 0 {
                    continue;
                }
                let _ = std::fs::create_dir_all(d);
                // Same file, new content, as sysinfo keeps files open
                for (n, c) in [("stat", stat.replacen(&p.pid.to_string(), &if d == &dir { p.pid } else { *t }.to_string(), 1)), ("statm", statm.clone())] {
                    std::fs::write(d.join(n), c).expect("simulated /proc");
                }
            }
            if p.threads == 1 {
                break;
            }
        }
    }

    /// Children may have smaller process numbers than their parents
    fn new_pid(&self) -> i32 {
        let n = self.procs.len() as i32;
        FIRST_PID + 40_000 + if n % 2 == 0 { n } else { -n }
    }

    fn spawn(&mut self, path: &str, argv: Vec<String>, acts: Actions, group: Option<i32>) -> Result<i32, c_int> {
        if let Some(d) = &acts.cwd {
            if !self.cfg.dirs.contains(d) {
                return Err(libc::ENOENT);
            }
        }
        let Some(prog) = self.cfg.programs.get(path).cloned() else {
            return Err(libc::ENOENT);
        };
        if let Some(e) = prog.error {
            return Err(e);
        }
        let run = self.runs.entry(path.into()).or_default();
        let mut steps = prog.runs[(*run).min(prog.runs.len() - 1)].clone();
        if let Some(last) = self.cfg.by_start.last() {
            steps = self.cfg.by_start.get(self.started).unwrap_or(last).clone();
        }
        self.started += 1;
        let this_run = *run;
        *run += 1;
        let pid = self.new_pid();
        let mut out = [-1; 2];
        for &(from, to) in &acts.dups {
            if to == 1 || to == 2 {
                let fd = unsafe { libc::fcntl(from, libc::F_DUPFD_CLOEXEC, 3) };
                unsafe {
                    let fl = libc::fcntl(fd, libc::F_GETFL);
                    let mut st: libc::stat = std::mem::zeroed();
                    libc::fstat(fd, &mut st);
                    if st.st_mode & libc::S_IFMT == libc::S_IFIFO {
                        libc::fcntl(fd, libc::F_SETFL, fl | libc::O_NONBLOCK);
                    }
                }
                out[to as usize - 1] = fd;
            }
        }
        let group = match group {
            Some(0) => pid,
            Some(g) => g,
            None => 1,
        };
        self.procs.push(Proc {
            pid,
            parent: std::process::id() as i32,
            group,
            program: path.into(),
            steps,
            next: 0,
            at: self.now,
            rss: 0,
            threads: prog.threads.max(1),
            state: PState::Running,
            out,
            pos: 0,
            root: pid,
            spawned: self.now,
            ended: 0,
        });
        let cwd = acts.cwd.unwrap_or_else(|| std::env::current_dir().unwrap().display().to_string());
        self.events.push((self.now, Event::Spawn { pid, argv, cwd, run: this_run }));
        self.write_proc(self.procs.len() - 1);
        Ok(pid)
    }

    fn kill(&mut self, pid: i32, sig: i32) -> c_int {
        let targets: Vec<usize> = (0..self.procs.len())
            .filter(|&i| {
                let p = &self.procs[i];
                p.state != PState::Gone && (p.pid == pid || (pid < -1 && p.group == -pid) || (0..p.threads as i32).any(|t| pid == p.pid + t * 100_000))
            })
            .collect();
        if targets.is_empty() {
            if pid < FIRST_PID && pid > -FIRST_PID {
                self.fail(&format!("signal {sig} sent to pid {pid}, which is no process of the build"));
            }
            return -1;
        }
        for i in targets {
            if self.procs[i].state == PState::Running && sig != 0 {
                let pid = self.procs[i].pid;
                self.events.push((self.now, Event::Killed { pid, sig }));
                self.end_proc(i, sig);
            }
        }
        0
    }

    /// The memory statistics are being read
    fn refresh(&mut self) {
        let k = self.refreshes;
        self.refreshes += 1;
        let available = match self.cfg.memory_script.get(k.min(self.cfg.memory_script.len().max(1) - 1)) {
            Some(v) => *v,
            // The first refreshes happen before any command runs
            None if k < 2 => self.cfg.memory[0],
            None => {
                let n = self.cfg.memory.len();
                let k = self.decide(n);
                self.cfg.memory[k]
            }
        };
        if available != self.mem_choice {
            self.mem_choice = available;
            std::fs::write(
                self.proc_root.join("meminfo"),
                format!("MemTotal: 1000000000 kB\nMemFree: 1000 kB\nMemAvailable: {} kB\n", available / 1024),
            )
            .expect("simulated /proc");
        }
        let trees = self
            .procs
            .iter()
            .filter(|p| p.root == p.pid && p.state == PState::Running)
            .map(|p| (p.pid, self.tree_memory(p.pid)))
            .collect();
        self.events.push((self.now, Event::Refresh { available, trees }));
    }
}

/// A scheduling point of the current thread
pub fn point() {
    let _r = Real::new();
    sim().reschedule(true, false);
}

unsafe fn cstr(p: *const libc::c_char) -> String {
    CStr::from_ptr(p).to_string_lossy().into_owned()
}
