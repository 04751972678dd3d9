//! Shared machinery of the exhaustive checks: counters, violation reporting,
//! known findings, panic capture, a watchdog, and the evidence file.

use serde_json::{json, Value};
use std::{
    cell::{Cell, RefCell},
    collections::{BTreeMap, HashSet},
    hash::{Hash, Hasher},
    panic::{self, AssertUnwindSafe},
    path::PathBuf,
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
        Mutex, OnceLock,
    },
    time::{Duration, Instant},
};

/// Outcome of one case: Err describes how the property was broken
pub type Outcome = Result<(), String>;

const SHARDS: usize = 64;
const MAX_SLOTS: usize = 64;
const MAX_VIOLATIONS: usize = 5;

pub struct Ck {
    pub id: &'static str,
    pub tier: String,
    pub seed: u64,
    root: PathBuf,
    start: Instant,
    known: Vec<Known>,
    known_hit: Mutex<BTreeMap<usize, u64>>,
    violations: Mutex<Vec<PathBuf>>,
    transitions: AtomicU64,
    /// States known to be distinct without looking at them
    distinct: AtomicU64,
    traces: AtomicU64,
    states: Vec<Mutex<HashSet<u64>>>,
    samples: Mutex<Vec<Value>>,
    notes: Mutex<BTreeMap<String, Value>>,
    exhaustive: AtomicBool,
    slots: Vec<Mutex<Slot>>,
    next_slot: AtomicUsize,
    case_timeout: AtomicU64,
    done: AtomicBool,
}

#[derive(Default)]
struct Slot {
    active: Option<Instant>,
    desc: String,
}

struct Known {
    /// Substrings that must all appear in the violation key
    key: String,
    what: String,
}

thread_local! {
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

/// Hash anything into 64 bits with a fixed function
pub fn h<T: Hash + ?Sized>(t: &T) -> u64 {
    #[allow(deprecated)]
    let mut s = std::hash::SipHasher::new();
    t.hash(&mut s);
    s.finish()
}

impl Ck {
    pub fn new(id: &'static str) -> &'static Ck {
        let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or("/verif".into()));
        let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
        let tier = if tier == "thorough" { tier } else { "quick".into() };
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1);
        let known = load_known(&root, id);
        let ck: &'static Ck = Box::leak(Box::new(Ck {
            id,
            tier,
            seed,
            root,
            start: Instant::now(),
            known,
            known_hit: Default::default(),
            violations: Default::default(),
            transitions: AtomicU64::new(0),
            distinct: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            states: (0..SHARDS).map(|_| Default::default()).collect(),
            samples: Default::default(),
            notes: Default::default(),
            exhaustive: AtomicBool::new(true),
            slots: (0..MAX_SLOTS).map(|_| Default::default()).collect(),
            next_slot: AtomicUsize::new(0),
            case_timeout: AtomicU64::new(30),
            done: AtomicBool::new(false),
        }));
        let default_hook = panic::take_hook();
        panic::set_hook(Box::new(move |info| {
            if QUIET.with(|q| q.get()) {
                let msg = format!("{info}").replace('\n', " ");
                PANIC.with(|p| *p.borrow_mut() = Some(msg));
            } else {
                default_hook(info)
            }
        }));
        std::thread::spawn(move || ck.watchdog());
        ck
    }

    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }

    /// Pick a bound according to the tier
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }

    pub fn case_timeout(&self, secs: u64) {
        self.case_timeout.store(secs, Ordering::Relaxed);
    }

    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }

    pub fn state<T: Hash + ?Sized>(&self, t: &T) -> bool {
        let v = h(t);
        self.states[v as usize % SHARDS].lock().unwrap().insert(v)
    }

    /// Count states that are distinct by construction
    pub fn distinct_states(&self, n: u64) {
        self.distinct.fetch_add(n, Ordering::Relaxed);
    }

    pub fn num_states(&self) -> u64 {
        self.distinct.load(Ordering::Relaxed) + self.states.iter().map(|s| s.lock().unwrap().len() as u64).sum::<u64>()
    }

    pub fn transitions(&self, n: u64) {
        self.transitions.fetch_add(n, Ordering::Relaxed);
    }

    pub fn traces(&self, n: u64) {
        self.traces.fetch_add(n, Ordering::Relaxed);
    }

    pub fn sample(&self, v: impl FnOnce() -> Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 12 {
            let v = v();
            s.push(v);
        }
    }

    pub fn note(&self, k: &str, v: impl Into<Value>) {
        self.notes.lock().unwrap().insert(k.into(), v.into());
    }

    pub fn bump(&self, k: &str, n: u64) {
        let mut notes = self.notes.lock().unwrap();
        let e = notes.entry(k.into()).or_insert(json!(0));
        *e = json!(e.as_u64().unwrap_or(0) + n);
    }

    pub fn not_exhaustive(&self, why: &str) {
        self.exhaustive.store(false, Ordering::Relaxed);
        self.note("capped", why);
    }

    fn slot(&self) -> &Mutex<Slot> {
        let idx = SLOT.with(|s| {
            if s.get() == usize::MAX {
                s.set(self.next_slot.fetch_add(1, Ordering::Relaxed) % MAX_SLOTS);
            }
            s.get()
        });
        &self.slots[idx]
    }

    /// Run one case against the code under test. A panic inside is a broken
    /// property, as is Err(_).
    pub fn case(&self, desc: &str, f: impl FnOnce() -> Outcome) -> bool {
        {
            let mut slot = self.slot().lock().unwrap();
            slot.desc.clear();
            slot.desc.push_str(desc);
            slot.active = Some(Instant::now());
        }
        let res = quietly(f);
        self.slot().lock().unwrap().active = None;
        self.traces(1);
        match res {
            Ok(Ok(())) => true,
            Ok(Err(msg)) => {
                self.violation(desc, &msg);
                false
            }
            Err(panic) => {
                self.violation(desc, &format!("unexpected panic: {panic}"));
                false
            }
        }
    }

    /// Report a broken property. `key` identifies the specific input/history.
    pub fn violation(&self, key: &str, msg: &str) {
        for (i, k) in self.known.iter().enumerate() {
            if key == k.key {
                *self.known_hit.lock().unwrap().entry(i).or_default() += 1;
                return;
            }
        }
        let mut v = self.violations.lock().unwrap();
        let n = v.len();
        let dir = self.root.join("replays");
        std::fs::create_dir_all(&dir).expect("creating replay dir");
        let path = dir.join(format!("{}-{}.json", self.id, n));
        let doc = json!({
            "property": self.id,
            "case": key,
            "what": msg,
            "tier": self.tier,
            "how": format!("run `./check {}` in /verif; the case above is enumerated deterministically", self.id),
        });
        std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).expect("writing replay");
        println!("VIOLATION property={} replay={}", self.id, path.display());
        println!("  case: {key}");
        println!("  what: {msg}");
        v.push(path);
        let max = std::env::var("VERIF_MAX_VIOLATIONS").ok().and_then(|s| s.parse().ok());
        let stop = v.len() >= max.unwrap_or(MAX_VIOLATIONS);
        drop(v);
        if stop {
            println!("(stopping after {MAX_VIOLATIONS} violations)");
            self.finish_impl();
        }
    }

    pub fn has_violations(&self) -> bool {
        !self.violations.lock().unwrap().is_empty()
    }

    /// Evaluate `f` on each item using all cores
    pub fn par<T: Sync>(&self, items: &[T], f: impl Fn(usize, &T) + Sync) {
        let next = AtomicUsize::new(0);
        let n = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8);
        std::thread::scope(|s| {
            for _ in 0..n {
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, || loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= items.len() {
                            break;
                        }
                        f(i, &items[i]);
                    })
                    .unwrap();
            }
        });
    }

    pub fn finish(&self) -> ! {
        self.finish_impl()
    }

    fn finish_impl(&self) -> ! {
        self.done.store(true, Ordering::SeqCst);
        let nviol = self.violations.lock().unwrap().len();
        let mut cov = serde_json::Map::new();
        for (k, v) in self.notes.lock().unwrap().iter() {
            cov.insert(k.clone(), v.clone());
        }
        let states = self.num_states();
        let transitions = self.transitions.load(Ordering::Relaxed);
        let traces = self.traces.load(Ordering::Relaxed);
        cov.insert("states".into(), json!(states));
        cov.insert("transitions".into(), json!(transitions));
        cov.insert("traces_validated_against_impl".into(), json!(traces));
        cov.insert("samples".into(), json!(*self.samples.lock().unwrap()));
        cov.insert(
            "exhaustive".into(),
            json!(self.exhaustive.load(Ordering::Relaxed) && nviol == 0),
        );
        let doc = json!({
            "property": self.id,
            "tier": self.tier,
            "seed": self.seed,
            "level": "model_checking",
            "coverage": cov,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": nviol,
        });
        let dir = self.root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(
            dir.join(format!("{}.json", self.id)),
            serde_json::to_string_pretty(&doc).unwrap() + "\n",
        )
        .expect("writing evidence");
        for (i, n) in self.known_hit.lock().unwrap().iter() {
            println!(
                "KNOWN-FINDING: property={} {} [{} case(s)]",
                self.id, self.known[*i].what, n
            );
        }
        println!(
            "{} [{}]: states={states} transitions={transitions} impl_runs={traces} violations={nviol} wall={:.1}s",
            self.id,
            self.tier,
            self.start.elapsed().as_secs_f64()
        );
        std::process::exit(if nviol > 0 { 1 } else { 0 })
    }

    fn watchdog(&self) {
        let page = 4096u64;
        loop {
            std::thread::sleep(Duration::from_millis(500));
            if self.done.load(Ordering::SeqCst) {
                return;
            }
            let limit = Duration::from_secs(self.case_timeout.load(Ordering::Relaxed));
            let rss = std::fs::read_to_string("/proc/self/statm")
                .ok()
                .and_then(|s| s.split(' ').nth(1).and_then(|s| s.parse::<u64>().ok()))
                .unwrap_or(0)
                * page;
            let mut oldest: Option<(Duration, String)> = None;
            for slot in &self.slots {
                let slot = slot.lock().unwrap();
                if let Some(start) = slot.active {
                    let e = start.elapsed();
                    if oldest.as_ref().map_or(true, |(d, _)| e > *d) {
                        oldest = Some((e, slot.desc.clone()));
                    }
                }
            }
            if let Some((age, desc)) = oldest {
                if age > limit {
                    self.violation(&desc, &format!("did not terminate within {limit:?}"));
                    self.finish_impl();
                }
                if rss > 20 << 30 && age > Duration::from_secs(2) {
                    self.violation(&desc, "memory use exploded");
                    self.finish_impl();
                }
            }
        }
    }
}

/// Run something, turning a panic into Err(message) without printing it
pub fn quietly<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = QUIET.with(|q| q.replace(true));
    let res = panic::catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    res.map_err(|_| {
        PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "<no message>".into())
    })
}

fn load_known(root: &std::path::Path, id: &str) -> Vec<Known> {
    static DOC: OnceLock<Value> = OnceLock::new();
    let doc = DOC.get_or_init(|| {
        std::fs::read_to_string(root.join("known-findings.json"))
            .ok()
            .map(|s| serde_json::from_str(&s).expect("known-findings.json must be valid JSON"))
            .unwrap_or(json!({}))
    });
    doc["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|f| f["property"] == id)
                .flat_map(|f| {
                    f["cases"].as_array().cloned().unwrap_or_default().into_iter().map(|c| Known {
                        key: c.as_str().expect("case must be a string").into(),
                        what: format!("{} (case: {})", f["what"].as_str().unwrap_or(""), c.as_str().unwrap()),
                    })
                })
                .collect()
        })
        .unwrap_or_default()
}

/// Err(format!(..)) unless the condition holds
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)+) => {
        if !$cond { return Err(format!($($arg)+)); }
    };
}

/// Call `f` on every sequence over 0..alphabet with length in lens
pub fn sequences(alphabet: usize, lens: std::ops::RangeInclusive<usize>, mut f: impl FnMut(&[usize])) {
    for len in lens {
        let mut seq = vec![0usize; len];
        loop {
            f(&seq);
            let mut i = len;
            loop {
                if i == 0 {
                    break;
                }
                i -= 1;
                seq[i] += 1;
                if seq[i] < alphabet {
                    break;
                }
                seq[i] = 0;
                if i == 0 {
                    i = usize::MAX;
                    break;
                }
            }
            if i == usize::MAX || len == 0 {
                break;
            }
        }
    }
}
