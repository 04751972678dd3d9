//! C20-C22: the text report of the real `crofiler` program
mod c20;
mod c21;
mod c22;
pub use serde_json::{json, Value};
use std::{
    io::Write as _,
    path::PathBuf,
    process::{Command, Stdio},
    sync::OnceLock,
};
pub use vc::{ensure, Ck, Outcome};

/// Scratch directory for traces, removed at the end
fn scratch() -> &'static PathBuf {
    static DIR: OnceLock<PathBuf> = OnceLock::new();
    DIR.get_or_init(|| {
        let shm = PathBuf::from("/dev/shm");
        let base = if shm.is_dir() { shm } else { std::env::temp_dir() };
        // Left by earlier runs that were interrupted
        for e in base.read_dir().into_iter().flatten().flatten() {
            let name = e.file_name().to_string_lossy().into_owned();
            if let Some(pid) = name.strip_prefix("mc-report-") {
                if !PathBuf::from(format!("/proc/{pid}")).exists() {
                    let _ = std::fs::remove_dir_all(e.path());
                }
            }
        }
        let dir = base.join(format!("mc-report-{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        dir
    })
}

/// One activity of a generated trace, in microseconds. Activities are listed
/// children first, as clang does.
#[derive(Clone, Debug)]
pub struct Act {
    pub name: String,
    pub arg: Option<String>,
    pub ts: f64,
    /// Text of the duration
    pub dur: String,
}

pub struct Meta {
    pub process: String,
    pub pid: u64,
    pub thread: Option<String>,
    /// Number of microseconds since 1970
    pub time: Option<String>,
}
impl Default for Meta {
    fn default() -> Self {
        Meta { process: "clang-14".into(), pid: 7, thread: None, time: None }
    }
}

fn quote(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

pub fn trace_text(acts: &[Act], meta: &Meta) -> String {
    use std::fmt::Write;
    let mut s = String::from(r#"{"traceEvents":["#);
    let pid = meta.pid;
    for a in acts {
        write!(s, r#"{{"ph":"X","pid":{pid},"tid":{pid},"ts":{},"dur":{},"name":{}"#, a.ts, a.dur, quote(&a.name)).unwrap();
        if let Some(arg) = &a.arg {
            write!(s, r#","args":{{"detail":{}}}"#, quote(arg)).unwrap();
        }
        s.push_str("},");
    }
    let mut name = |what: &str, value: &str| {
        write!(s, r#"{{"ph":"M","pid":{pid},"tid":{pid},"ts":0,"cat":"","name":"{what}","args":{{"name":{}}}}}"#, quote(value)).unwrap();
    };
    name("process_name", &meta.process);
    if let Some(thread) = &meta.thread {
        let t = thread.clone();
        s.push(',');
        let mut name = |what: &str, value: &str| {
            write!(s, r#"{{"ph":"M","pid":{pid},"tid":{pid},"ts":0,"cat":"","name":"{what}","args":{{"name":{}}}}}"#, quote(value)).unwrap();
        };
        name("thread_name", &t);
    }
    s.push(']');
    if let Some(t) = &meta.time {
        write!(s, r#","beginningOfTime":{t}"#).unwrap();
    }
    s.push('}');
    s
}

/// Flat list of activities under one ExecuteCompiler root
pub fn flat(acts: Vec<(String, Option<String>, String)>) -> Vec<Act> {
    let start = 1000.0;
    let mut ts = start;
    let mut out = Vec::with_capacity(acts.len() + 1);
    for (name, arg, dur) in acts {
        let d: f64 = dur.parse().unwrap();
        out.push(Act { name, arg, ts, dur });
        ts = (ts + d).ceil() + 1.0;
    }
    // Rounding must not make the time that is left for the root negative
    let total = ((ts - start) * 1.01).ceil();
    out.push(Act { name: "ExecuteCompiler".into(), arg: None, ts: start, dur: format!("{total}") });
    out
}

/// Run the real program on a trace
pub fn report(text: &str, args: &[&str]) -> Result<String, String> {
    thread_local! {
        static FILE: PathBuf = {
            static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
            scratch().join(format!("t{}.json", N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)))
        };
    }
    let file = FILE.with(|f| f.clone());
    std::fs::File::create(&file).and_then(|mut f| f.write_all(text.as_bytes())).map_err(|e| panic!("writing {file:?}: {e}")).unwrap();
    report_on(&file, args)
}

pub fn report_on(file: &std::path::Path, args: &[&str]) -> Result<String, String> {
    let app = std::env::var_os("VERIF_APP").expect("VERIF_APP must name the crofiler program");
    let out = Command::new(&app)
        .args(["--ui", "stdio"])
        .args(args)
        .arg(file)
        .env_clear()
        .env("RUST_LOG", "off")
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .output()
        .unwrap_or_else(|e| panic!("running {app:?}: {e}"));
    let err = String::from_utf8_lossy(&out.stderr);
    let err = err.trim().trim_start_matches("Processing input data...").trim();
    if !out.status.success() {
        return Err(format!("the program failed ({}): {err}", out.status));
    }
    if !err.is_empty() {
        return Err(format!("the program complained: {err}"));
    }
    String::from_utf8(out.stdout).map_err(|e| format!("the report is not UTF-8: {e}"))
}

/// Sections of a report
pub struct Report<'a> {
    pub metadata: Vec<&'a str>,
    pub types: Vec<&'a str>,
    pub flat: Vec<&'a str>,
    pub tree: Vec<&'a str>,
}
pub fn sections(text: &str) -> Result<Report<'_>, String> {
    let mut r = Report { metadata: vec![], types: vec![], flat: vec![], tree: vec![] };
    let mut cur = 0;
    for line in text.lines() {
        let next = match line {
            "Self-duration breakdown by activity type:" => 1,
            "Hottest activities by self-duration:" => 2,
            "Hierarchical profile:" => 3,
            _ => {
                if !line.is_empty() {
                    [&mut r.metadata, &mut r.types, &mut r.flat, &mut r.tree][cur].push(line);
                }
                continue;
            }
        };
        ensure!(next == cur + 1, "unexpected heading {line:?}");
        cur = next;
    }
    ensure!(cur == 3, "a section is missing:\n{text}");
    Ok(r)
}

/// Split "LABEL [DURATION, SHARE%]"
pub fn split_line(line: &str) -> Option<(&str, &str, &str)> {
    let rest = line.strip_suffix("%]")?;
    let at = rest.rfind(" [")?;
    let (dur, share) = rest[at + 2..].split_once(", ")?;
    Some((&line[..at], dur, share))
}

/// A duration as displayed, in picoseconds
pub struct Shown {
    pub value: i128,
    /// Half a unit of the last digit
    pub half: i128,
}
const US: i128 = 1_000_000;

/// Read a displayed duration back
pub fn parse_duration(s: &str) -> Result<Shown, String> {
    let bad = || format!("unreadable duration {s:?}");
    let int = |t: &str| -> Result<i128, String> {
        if t.is_empty() || !t.bytes().all(|b| b.is_ascii_digit()) {
            return Err(bad());
        }
        t.parse().map_err(|_| bad())
    };
    // Decimal number of a unit
    let dec = |t: &str, unit: i128| -> Result<Shown, String> {
        let (i, f) = t.split_once('.').unwrap_or((t, ""));
        let mut value = int(i)? * unit;
        let mut unit = unit;
        for c in f.bytes() {
            if !c.is_ascii_digit() {
                return Err(bad());
            }
            ensure!(unit >= 10, "too many digits in {s:?}");
            unit /= 10;
            value += (c - b'0') as i128 * unit;
        }
        Ok(Shown { value, half: unit / 2 })
    };
    let limit = |v: &Shown, max: i128| -> Outcome {
        ensure!(v.value < max, "out-of-range value {s:?}");
        Ok(())
    };
    let sec = US * 1_000_000;
    if let Some(t) = s.strip_suffix("µs") {
        let v = dec(t, US)?;
        limit(&v, 1000 * US)?;
        return Ok(v);
    }
    if let Some(t) = s.strip_suffix("ms") {
        let v = dec(t, 1000 * US)?;
        limit(&v, sec)?;
        return Ok(v);
    }
    if let Some(t) = s.strip_suffix('s') {
        let v = dec(t, sec)?;
        limit(&v, 60 * sec)?;
        return Ok(v);
    }
    // [Nd ][HH:]MM:SS.ss
    let (days, rest) = match s.split_once("d ") {
        Some((d, r)) => (Some(int(d)?), r),
        None => (None, s),
    };
    let parts: Vec<&str> = rest.split(':').collect();
    ensure!(parts.len() == 3 || parts.len() == 2 && days.is_none(), "unreadable duration {s:?}");
    let mut total = days.unwrap_or(0);
    for (i, p) in parts.iter().enumerate() {
        let last = i == parts.len() - 1;
        // All but the first part are padded, so that the text can be read
        let digits = p.split('.').next().unwrap();
        if i > 0 || days.is_some() {
            ensure!(digits.len() == 2, "part {p:?} of {s:?} does not have two digits");
        }
        let max = if i == 0 && parts.len() == 3 { 24 } else { 60 };
        if !last {
            let v = int(p)?;
            ensure!(v < max, "out-of-range part {p:?} in {s:?}");
            total = total * max + v;
        } else {
            let v = dec(p, sec)?;
            ensure!(v.value < 60 * sec, "out-of-range part {p:?} in {s:?}");
            return Ok(Shown { value: total * 60 * sec + v.value, half: v.half });
        }
    }
    Err(bad())
}

/// Is this text the correctly rounded duration (in picoseconds)?
pub fn check_duration(shown: &str, ps: i128) -> Outcome {
    let s = parse_duration(shown)?;
    // Durations are floating-point numbers of microseconds
    let slack = ps >> 51;
    ensure!(
        (s.value - ps).abs() <= s.half + slack,
        "{shown:?} is displayed for {} µs",
        ps as f64 / 1e6
    );
    Ok(())
}

/// Is this text the share of part in total, in percent?
pub fn check_share(shown: &str, part: f64, total: f64) -> Outcome {
    let v: f64 = shown.parse().map_err(|_| format!("unreadable share {shown:?}"))?;
    ensure!(shown.split_once('.').map_or(0, |x| x.1.len()) >= 2, "share {shown:?} has too few digits");
    let real = 100.0 * part / total;
    ensure!((v - real).abs() <= 0.00500001, "share {shown}% is displayed for {real}%");
    Ok(())
}

fn main() {
    let id = std::env::args().nth(1).expect("usage: mc-report ID");
    scratch();
    match id.as_str() {
        "C20" => c20::run(),
        "C21" => c21::run(),
        "C22" => c22::run(),
        _ => panic!("unknown property {id}"),
    }
}

/// Finish a check: the scratch directory goes away
pub fn done(ck: &Ck) -> ! {
    let _ = std::fs::remove_dir_all(scratch());
    ck.finish()
}
