//! C19: stored full-build profiles
use crate::*;
use output::{BuildProfile, ProfileLoadError, UnitProfile};
use std::sync::atomic::{AtomicUsize, Ordering};

const NAMES: [&str; 26] = [
    "a.cpp", "dir/b.cpp", "../c.cpp", "/abs/d.cpp", "with space.cpp", " lead.cpp", "trail.cpp ", "com,ma.cpp", "quo\"te.cpp", "\"quoted\".cpp", "\"", "\"\"", ",", "\n",
    "new\nline.cpp", "cr\rx.cpp", "crlf\r\nx.cpp", "tab\t.cpp", "sémi;colon.cpp", "日本語.cpp", "#hash.cpp", "'single'.cpp", "1", "-1.5", "NaN", "back\\slash.cpp",
];
const RSS: [u64; 11] = [0, 1, 4096, 999_999, (1 << 32) - 1, 1 << 32, (1 << 53) - 1, (1 << 53) + 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX];

fn times() -> Vec<Option<Duration>> {
    let mut out = vec![None];
    for ns in [0u64, 1, 999, 1000, 1_000_001, 50_000_000, 333_333_333, 999_999_999, 1_000_000_000, 1_000_000_001, 1_999_999_999, 59_999_999_999, 86_400_123_456_789] {
        out.push(Some(Duration::from_nanos(ns)));
    }
    for s in [(1 << 24) - 1, (1 << 24) + 1, u32::MAX as u64, 1 << 62] {
        out.push(Some(Duration::new(s, 500_000_000)));
    }
    out
}

#[derive(Clone, Debug, PartialEq)]
struct Row {
    file: String,
    rss: u64,
    time: Option<Duration>,
}

/// RFC 4180 quoting
fn encode(fields: &[&str], always: bool, eol: &str) -> String {
    let f: Vec<_> = fields
        .iter()
        .map(|f| if always || f.contains([',', '"', '\n', '\r']) { format!("\"{}\"", f.replace('"', "\"\"")) } else { f.to_string() })
        .collect();
    f.join(",") + eol
}

/// RFC 4180 parsing
fn decode(s: &str) -> Result<Vec<Vec<String>>, String> {
    let mut rows = vec![];
    let mut it = s.chars().peekable();
    while it.peek().is_some() {
        let mut row = vec![];
        loop {
            let mut f = String::new();
            if it.peek() == Some(&'"') {
                it.next();
                loop {
                    match it.next().ok_or("unterminated quotes")? {
                        '"' if it.peek() == Some(&'"') => f.push(it.next().unwrap()),
                        '"' => break,
                        c => f.push(c),
                    }
                }
            } else {
                while let Some(c) = it.peek() {
                    if ",\r\n".contains(*c) {
                        break;
                    }
                    if *c == '"' {
                        return Err("stray quote".into());
                    }
                    f.push(it.next().unwrap());
                }
            }
            row.push(f);
            match it.next() {
                Some(',') => continue,
                Some('\r') if it.peek() == Some(&'\n') => drop(it.next()),
                Some('\n') | None => {}
                Some(c) => return Err(format!("stray {c:?} after a field")),
            }
            break;
        }
        rows.push(row);
    }
    Ok(rows)
}

/// Duration as stored: the nearest representable number of seconds
fn close(stored: f64, d: Duration) -> bool {
    let true_s = d.as_secs() as f64 + d.subsec_nanos() as f64 * 1e-9;
    (stored - true_s).abs() <= true_s * 1.3e-7 + 1e-9
}

fn check_row(u: &UnitProfile, r: &Row) -> Outcome {
    ensure!(u.rel_path().to_str() == Some(&*r.file), "file {:?} became {:?}", r.file, u.rel_path());
    ensure!(u.max_rss_bytes() == r.rss, "memory {} became {}", r.rss, u.max_rss_bytes());
    match (u.wall_time(), r.time) {
        (None, None) => Ok(()),
        (Some(Ok(a)), Some(b)) => {
            let err = if a > b { a - b } else { b - a };
            // Single precision
            ensure!(err.as_secs_f64() <= b.as_secs_f64() * 1.3e-7 + 2e-9, "time {b:?} became {a:?}");
            Ok(())
        }
        (a, b) => Err(format!("time {b:?} became {a:?}")),
    }
}

fn check_profile(p: &BuildProfile, rows: &[Row]) -> Outcome {
    ensure!(p.len() == rows.len(), "{} rows instead of {}", p.len(), rows.len());
    for (i, (u, r)) in p.iter().zip(rows).enumerate() {
        check_row(u, r).map_err(|e| format!("row {i}: {e}"))?;
    }
    Ok(())
}

fn round_trip(rows: &[Row], path: &Path, styles: bool) -> Outcome {
    // As written by a measurement
    let units: Vec<_> = rows.iter().map(|r| UnitProfile::new(PathBuf::from(&r.file), r.rss, r.time)).collect();
    check_profile(&units, rows).map_err(|e| format!("as built: {e}"))?;
    let mut w = csv::Writer::from_path(path).map_err(|e| e.to_string())?;
    for u in &units {
        w.serialize(u).map_err(|e| format!("cannot be written: {e}"))?;
    }
    w.flush().map_err(|e| e.to_string())?;
    drop(w);
    let text = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
    if !rows.is_empty() {
        let t = decode(&text)?;
        ensure!(t.len() == rows.len() + 1, "{} lines were written for {} rows", t.len(), rows.len());
        let col = |n: &str| t[0].iter().position(|h| h == n).ok_or(format!("column {n} was not written"));
        let (f, m, s) = (col("file")?, col("max_rss")?, col("time")?);
        for (l, r) in t[1..].iter().zip(rows) {
            ensure!(l[f] == r.file && l[m] == r.rss.to_string(), "{r:?} was written as {l:?}");
            match r.time {
                None => ensure!(l[s].is_empty(), "{r:?} was written as {l:?}"),
                Some(d) => ensure!(l[s].parse::<f64>().is_ok_and(|x| close(x, d)), "{r:?} was written as {l:?}"),
            }
        }
    }
    let p = output::load(path).map_err(|e| format!("cannot be read back: {e}"))?;
    check_profile(&p, rows).map_err(|e| format!("read back: {e}"))?;
    for (a, b) in p.iter().zip(&units) {
        ensure!(a.wall_time() == b.wall_time(), "time {:?} read back as {:?}", b.wall_time(), a.wall_time());
    }
    // As written by other tools: quoting, line ends, order of columns
    if styles {
        for always in [false, true] {
            for eol in ["\n", "\r\n"] {
                for order in [[0, 1, 2], [2, 1, 0], [1, 0, 2]] {
                    let mut text = encode(&order.map(|i| ["file", "max_rss", "time"][i]), always, eol);
                    for r in rows {
                        let rss = r.rss.to_string();
                        let time = r.time.map_or(String::new(), |t| (t.as_secs_f64() as f32).to_string());
                        text += &encode(&order.map(|i| [&*r.file, &*rss, &*time][i]), always, eol);
                    }
                    std::fs::write(path, &text).unwrap();
                    let p = output::load(path).map_err(|e| format!("{text:?} cannot be read: {e}"))?;
                    check_profile(&p, rows).map_err(|e| format!("{text:?} read: {e}"))?;
                }
            }
        }
    }
    Ok(())
}

fn load_text(path: &Path, text: &[u8]) -> Result<BuildProfile, ProfileLoadError> {
    std::fs::write(path, text).unwrap();
    output::load(path)
}

fn refused(path: &Path, text: &[u8]) -> Outcome {
    match load_text(path, text) {
        Err(ProfileLoadError::FileNotFound) => Err("reported as missing".into()),
        Err(e) => {
            ensure!(!e.to_string().is_empty(), "no message");
            Ok(())
        }
        Ok(p) => Err(format!("accepted as {} rows", p.len())),
    }
}

pub fn run() -> ! {
    let ck = Ck::new("C19");
    let scratch = Scratch::new("c19");
    let counter = AtomicUsize::new(0);
    let times = times();
    // Every name, memory and time
    let names: Vec<usize> = (0..NAMES.len()).collect();
    ck.par(&names, |_, n| {
        let path = scratch.0.join(format!("p{}.csv", counter.fetch_add(1, Ordering::Relaxed)));
        for rss in RSS {
            for time in &times {
                let row = Row { file: NAMES[*n].into(), rss, time: *time };
                ck.distinct_states(1);
                ck.transitions(2);
                ck.case(&format!("profile of {row:?}"), || round_trip(&[row.clone()], &path, true));
            }
        }
        let _ = std::fs::remove_file(path);
    });
    // All lists of rows
    let rows: Vec<Row> = NAMES
        .iter()
        .enumerate()
        .map(|(i, n)| Row { file: n.to_string(), rss: RSS[i % RSS.len()], time: times[(i * 5) % times.len()] })
        .collect();
    let max = ck.pick(3, 4);
    let firsts: Vec<Option<usize>> = (0..rows.len()).map(Some).chain([None]).collect();
    ck.par(&firsts, |_, first| {
        let path = scratch.0.join(format!("p{}.csv", counter.fetch_add(1, Ordering::Relaxed)));
        let lens = if first.is_some() { 0..=max - 1 } else { 0..=0 };
        vc::sequences(rows.len(), lens, |seq| {
            let sel: Vec<Row> = first.iter().chain(seq).map(|i| rows[*i].clone()).collect();
            ck.distinct_states(1);
            ck.transitions(sel.len() as u64 + 1);
            let names: Vec<_> = sel.iter().map(|r| &*r.file).collect();
            ck.case(&format!("profile of {names:?}"), || round_trip(&sel, &path, sel.len() <= 2));
        });
        let _ = std::fs::remove_file(path);
    });
    ck.note("max_rows", max);
    // Long profiles, with a file written twice
    let path = scratch.0.join("long.csv");
    for n in [10, 100, 1000, 20_000] {
        let list: Vec<Row> = (0..n).map(|i| Row { rss: i, file: format!("{}{}", rows[i as usize % rows.len()].file, i / 2), ..rows[i as usize % rows.len()].clone() }).collect();
        ck.transitions(n);
        ck.case(&format!("{n} rows"), || round_trip(&list, &path, true));
    }
    invalid_times(ck, &path);
    corruptions(ck, &scratch.0);
    drop(scratch);
    ck.sample(|| json!({"file": "new\nline.cpp", "max_rss": u64::MAX, "time": null}));
    ck.finish()
}

fn invalid_times(ck: &'static Ck, path: &Path) {
    let two64 = 18446744073709551616f64;
    for name in NAMES {
        for (text, raw) in [
            ("NaN", f32::NAN),
            ("inf", f32::INFINITY),
            ("-inf", f32::NEG_INFINITY),
            ("-1", -1.0),
            ("-0.5", -0.5),
            ("-1e-9", -1e-9),
            ("-1e-45", -1e-45),
            ("-3e38", -3e38),
            ("18446744073709551616", two64 as f32),
            ("18446745173221179392", 18446745173221179392.0),
            ("36893488147419103232", 36893488147419103232.0),
            ("3.4028235e38", f32::MAX),
        ] {
            ck.state(&(name, text));
            ck.transitions(1);
            ck.case(&format!("time {text} for {name:?}"), || {
                let text = encode(&["file", "max_rss", "time"], false, "\n") + &encode(&[name, "5", text], false, "\n") + &encode(&["other", "6", "2.5"], false, "\n");
                let p = load_text(path, text.as_bytes()).map_err(|e| format!("refused: {e}"))?;
                ensure!(p.len() == 2 && p[0].rel_path().to_str() == Some(name) && p[0].max_rss_bytes() == 5, "wrong rows");
                match p[0].wall_time() {
                    Some(Err(x)) => ensure!(x.to_bits() == raw.to_bits() || (x.is_nan() && raw.is_nan()), "flagged as {x}"),
                    other => return Err(format!("understood as {other:?}")),
                }
                ensure!(p[1].wall_time() == Some(Ok(Duration::from_millis(2500))), "next row became {:?}", p[1].wall_time());
                Ok(())
            });
        }
        // Valid extremes
        for (text, d) in [("0", Duration::ZERO), ("-0", Duration::ZERO), ("0.0", Duration::ZERO), ("1e3", Duration::from_secs(1000)), ("0.25", Duration::from_millis(250)), ("18446742974197923840", Duration::from_secs(18446742974197923840)), ("9007199254740992", Duration::from_secs(1 << 53))] {
            ck.state(&(name, text, 1));
            ck.transitions(1);
            ck.case(&format!("time {text} for {name:?}"), || {
                let text = encode(&["file", "max_rss", "time"], false, "\n") + &encode(&[name, "5", text], false, "\n");
                let p = load_text(path, text.as_bytes()).map_err(|e| format!("refused: {e}"))?;
                ensure!(p.len() == 1 && p[0].wall_time() == Some(Ok(d)), "understood as {:?}", p[0].wall_time());
                Ok(())
            });
        }
    }
    // Every power of two and its neighbours
    for e in 0..=254u32 {
        for m in [0u32, 1, 0x400000, 0x7fffff] {
            let x = f32::from_bits(e << 23 | m);
            ck.state(&x.to_bits());
            ck.transitions(1);
            ck.case(&format!("time {x:e}"), || {
                let text = format!("file,max_rss,time\na,1,{x}\na,1,{x:e}\n");
                let p = load_text(path, text.as_bytes()).map_err(|e| format!("refused: {e}"))?;
                ensure!(p.len() == 2, "{} rows", p.len());
                for u in &p {
                    match u.wall_time() {
                        Some(Ok(d)) if (x as f64) < two64 => {
                            let err = (d.as_secs_f64() - x as f64).abs();
                            ensure!(err <= x as f64 * 1.3e-7 + 2e-9, "understood as {d:?}");
                        }
                        Some(Err(y)) if (x as f64) >= two64 => ensure!(x == y, "flagged as {y}"),
                        other => return Err(format!("understood as {other:?}")),
                    }
                }
                Ok(())
            });
        }
    }
}

fn corruptions(ck: &'static Ck, dir: &Path) {
    let path = &dir.join("bad.csv");
    let header = ["file", "max_rss", "time"];
    let bad_rss = ["", " ", "-1", "1.5", "abc", "18446744073709551616", "1e3", "0xyz", "NaN", "1 2", "1,000", "\"", "١"];
    let bad_time = [" ", "abc", "1s", "1:30", "0x1p3", "1,5", "--1", "1 2", "\"", "true", "null", "."];
    let go = |key: String, table: &[Vec<String>]| {
        for (always, eol) in [(false, "\n"), (true, "\n"), (false, "\r\n")] {
            let text: String = table.iter().map(|l| encode(&l.iter().map(|f| &**f).collect::<Vec<_>>(), always, eol)).collect();
            ck.state(&text);
            ck.transitions(1);
            ck.case(&key, || refused(path, text.as_bytes()));
        }
    };
    let max = ck.pick(3, 4);
    for n in 1..=max {
        for shift in 0..NAMES.len() {
            let mut table: Vec<Vec<String>> = vec![header.map(String::from).to_vec()];
            for i in 0..n {
                table.push(vec![NAMES[(i * 7 + shift) % NAMES.len()].into(), RSS[(i + shift) % RSS.len()].to_string(), ["", "1.5", "NaN"][(i + shift) % 3].into()]);
            }
            for row in 1..=n {
                for (col, bads) in [(1, &bad_rss[..]), (2, &bad_time[..])] {
                    for bad in bads {
                        let mut t = table.clone();
                        t[row][col] = bad.to_string();
                        go(format!("{} = {bad:?} in row {row} of {n} (names from {shift})", header[col]), &t);
                    }
                }
                // Uneven rows
                for col in 0..3 {
                    let mut t = table.clone();
                    t[row].remove(col);
                    go(format!("{} missing in row {row} of {n} (names from {shift})", header[col]), &t);
                }
                for extra in ["", "x"] {
                    let mut t = table.clone();
                    t[row].push(extra.into());
                    go(format!("extra field {extra:?} in row {row} of {n} (names from {shift})"), &t);
                }
            }
            // Missing and renamed columns
            for col in 0..2 {
                let mut t = table.clone();
                t.iter_mut().for_each(|l| drop(l.remove(col)));
                go(format!("no column {} with {n} rows (names from {shift})", header[col]), &t);
                for name in ["", "File", "max-rss", "rss", "x"] {
                    let mut t = table.clone();
                    t[0][col] = name.into();
                    go(format!("column {} called {name:?} with {n} rows (names from {shift})", header[col]), &t);
                }
            }
            // No header
            if !table[1][0].starts_with("file") {
                let t = &table[1..];
                if n >= 2 {
                    go(format!("no header with {n} rows (names from {shift})"), t);
                }
            }
            // Truncation never crashes, nor does it ever add anything
            let text: String = table.iter().map(|l| encode(&l.iter().map(|f| &**f).collect::<Vec<_>>(), false, "\n")).collect();
            for cut in 0..text.len() {
                ck.transitions(1);
                ck.case(&format!("{n} rows (names from {shift}) cut after {cut} bytes"), || {
                    if let Ok(p) = load_text(path, &text.as_bytes()[..cut]) {
                        ensure!(p.len() <= n, "too many rows");
                        for (u, l) in p.iter().zip(&table[1..]).take(p.len().saturating_sub(1)) {
                            ensure!(u.rel_path().to_str() == Some(&l[0]), "complete rows changed");
                        }
                    }
                    Ok(())
                });
            }
            // Invalid encoding at any position of a name
            for (i, b) in text.bytes().enumerate() {
                if b.is_ascii_alphabetic() || b >= 0x80 {
                    let mut bytes = text.clone().into_bytes();
                    bytes[i] = 0xff;
                    ck.transitions(1);
                    ck.case(&format!("{n} rows (names from {shift}), byte {i} invalid"), || refused(path, &bytes));
                }
            }
        }
    }
    ck.case("missing file", || match output::load(dir.join("nothing.csv")) {
        Err(ProfileLoadError::FileNotFound) => Ok(()),
        other => Err(format!("{other:?}")),
    });
    ck.case("missing directory", || match output::load(dir.join("nothing/p.csv")) {
        Err(ProfileLoadError::FileNotFound) => Ok(()),
        other => Err(format!("{other:?}")),
    });
    for p in [dir.to_path_buf(), dir.join("bad.csv/p.csv")] {
        ck.case(&format!("unreadable {:?}", p.strip_prefix(dir)), || match output::load(&p) {
            Err(ProfileLoadError::ParseError(_)) => Ok(()),
            other => Err(format!("{other:?}")),
        });
    }
    ck.transitions(4);

}
