//! C10: what is accepted, and what it is read as
use crate::*;
use std::collections::BTreeMap;

/// Verdict of the reference
#[derive(Clone, PartialEq, Debug)]
enum Ref {
    Accept(Box<Content>),
    Reject(&'static str),
    /// Nothing is promised about whether it is accepted
    Either(Option<Box<Content>>),
}

#[derive(Clone, PartialEq, Debug, Default)]
struct Content {
    process: String,
    thread: Option<String>,
    pid: Option<i64>,
    bot: Option<f64>,
    /// name, detail, start, duration
    activities: Vec<(String, Option<String>, f64, f64)>,
    stats: BTreeMap<String, (f64, u64)>,
}

const KNOWN: &str = include_str!("known.txt");

fn needs_detail(name: &str) -> Option<bool> {
    let ty = KNOWN.lines().find_map(|l| l.split_once('\t').filter(|(_, n)| *n == name))?.0;
    match ty {
        "Nothing" => Some(false),
        "SymbolOpt" | "UnnamedLoopOpt" => None,
        _ => Some(true),
    }
}
fn is_known(name: &str) -> bool {
    KNOWN.lines().any(|l| l.split_once('\t').unwrap().1 == name)
}

/// What a document means, written down independently from the loader
fn reference(v: &Value) -> Ref {
    let mut c = Content::default();
    let Some(o) = v.as_object() else { return Ref::Reject("not an object") };
    let mut either = false;
    for (k, v) in o {
        match &k[..] {
            "traceEvents" => {}
            "displayTimeUnit" => match v.as_str() {
                // The default may be spelled out
                Some("ms") => {}
                _ => return Ref::Reject("unexpected unit"),
            },
            "systemTraceEvents" | "powerTraceAsString" | "stackFrames" | "samples" | "controllerTraceDataKey" => {
                if !v.is_null() {
                    return Ref::Reject("unexpected metadata");
                }
            }
            "beginningOfTime" => match v.as_f64() {
                Some(f) => c.bot = Some(f),
                None => return Ref::Reject("beginningOfTime"),
            },
            _ => {}
        }
    }
    let Some(events) = o.get("traceEvents").and_then(|v| v.as_array()) else { return Ref::Reject("no events") };
    let mut pids = vec![];
    let mut process = vec![];
    let mut thread = vec![];
    for e in events {
        let Some(e) = e.as_object() else { return Ref::Reject("event is no object") };
        // Covered by separate cases
        if e.get("ph").map_or(false, Value::is_u64) || e.get("ph") == Some(&json!("M")) && e.get("name").map_or(false, Value::is_u64) {
            return Ref::Either(None);
        }
        let ph = e.get("ph").and_then(|p| p.as_str());
        let num = |k: &str| e.get(k).and_then(|v| v.as_f64());
        let int = |k: &str| e.get(k).and_then(|v| v.as_i64()).filter(|i| i32::try_from(*i).is_ok());
        let absent = |k: &str| e.get(k).map_or(true, |v| v.is_null());
        let name = e.get("name").and_then(|v| v.as_str());
        match ph {
            Some("X") => {
                let (Some(pid), Some(tid), Some(ts), Some(dur), Some(name)) = (int("pid"), int("tid"), num("ts"), num("dur"), name) else {
                    return Ref::Reject("bad event field");
                };
                if ["cat", "tts", "tdur"].iter().any(|k| !absent(k)) {
                    return Ref::Reject("unexpected event field");
                }
                for (k, v) in e {
                    let known = ["ph", "pid", "tid", "ts", "dur", "name", "cat", "tts", "tdur", "args"];
                    if ["sf", "esf"].contains(&&k[..]) && (v.is_string() || v.is_i64())
                        || ["stack", "estack"].contains(&&k[..]) && v.as_array().map_or(false, |a| a.iter().all(|s| s.is_string()))
                    {
                        return Ref::Reject("stack traces");
                    }
                    if !known.contains(&&k[..]) {
                        either = true;
                    }
                }
                pids.push(pid);
                let args = match e.get("args") {
                    None | Some(Value::Null) => None,
                    Some(Value::Object(o)) => Some(o),
                    _ => return Ref::Reject("bad args"),
                };
                if ts > 1.0 {
                    if !(tid == pid || pid == 1 && tid == 0) {
                        return Ref::Reject("activity on another thread");
                    }
                    let extra = args.map_or(false, |a| a.keys().any(|k| k != "detail"));
                    if extra {
                        return Ref::Reject("extra args");
                    }
                    let detail = match args.and_then(|a| a.get("detail")) {
                        None => None,
                        Some(Value::String(s)) => Some(s.clone()),
                        Some(_) => return Ref::Reject("bad detail"),
                    };
                    if is_known(name) {
                        match (needs_detail(name), &detail) {
                            (Some(true), None) => return Ref::Reject("no detail"),
                            (Some(false), Some(_)) => return Ref::Reject("superfluous detail"),
                            _ => {}
                        }
                    }
                    for (.., s, d) in &c.activities {
                        let (end, old_end) = (ts + dur, s + d);
                        if old_end > end || *s < ts && old_end > ts {
                            return Ref::Reject("not nested");
                        }
                    }
                    // Time that runs backwards
                    either |= dur < 0.0;
                    c.activities.push((name.into(), detail, ts, dur));
                } else {
                    // Neither obviously an activity nor a statistic
                    if ts != 0.0 || tid == 0 {
                        return Ref::Reject("bad timestamp");
                    }
                    let Some(name) = name.strip_prefix("Total ") else { return Ref::Reject("no Total") };
                    let Some(args) = args else { return Ref::Reject("no args") };
                    let (Some(count), Some(_)) = (args.get("count").and_then(|c| c.as_u64()), args.get("avg ms").and_then(|a| a.as_f64())) else {
                        return Ref::Reject("bad args");
                    };
                    if args.len() != 2 {
                        return Ref::Reject("extra args");
                    }
                    if c.stats.insert(name.into(), (dur, count)).is_some() {
                        return Ref::Reject("duplicate statistic");
                    }
                }
            }
            Some("M") => {
                let pid = match e.get("pid") {
                    None | Some(Value::Null) => None,
                    _ => match int("pid") {
                        Some(p) => Some(p),
                        None => return Ref::Reject("bad pid"),
                    },
                };
                let tid = int("tid");
                let Some(args) = e.get("args").and_then(|a| a.as_object()) else { return Ref::Reject("no args") };
                let (Some(value), 1) = (args.get("name").and_then(|n| n.as_str()), args.len()) else { return Ref::Reject("bad name args") };
                let common = e.get("cat").and_then(|c| c.as_str()).map_or(false, |c| c.chars().all(|c| c == ',')) && num("ts") == Some(0.0) && absent("tts");
                if e.get("cat").map_or(false, |c| c.as_str() != Some("")) {
                    either = true;
                }
                if !common {
                    return Ref::Reject("metadata fields");
                }
                let known = ["ph", "pid", "tid", "ts", "name", "cat", "tts", "args"];
                either |= e.keys().any(|k| !known.contains(&&k[..]));
                let (Some(p), Some(t)) = (pid, tid) else { return Ref::Reject("metadata pid or tid") };
                match name {
                    Some("process_name") => {
                        if !(p == t || p == 1 && t == 0) {
                            return Ref::Reject("process name from elsewhere");
                        }
                        process.push(value);
                    }
                    Some("thread_name") => {
                        if p != t {
                            return Ref::Reject("thread name from elsewhere");
                        }
                        thread.push(value);
                    }
                    _ => return Ref::Reject("unknown metadata"),
                }
                pids.push(p);
            }
            _ => return Ref::Reject("unknown event"),
        }
    }
    if pids.windows(2).any(|w| w[0] != w[1]) {
        return Ref::Reject("inconsistent pid");
    }
    if process.len() != 1 || thread.len() > 1 {
        return Ref::Reject("process or thread name");
    }
    c.process = process[0].into();
    c.thread = thread.first().map(|s| s.to_string());
    c.pid = pids.first().copied().filter(|p| *p > 1);
    if either {
        Ref::Either(Some(Box::new(c)))
    } else {
        Ref::Accept(Box::new(c))
    }
}

fn content(t: &ClangTrace) -> Content {
    let mut c = Content {
        process: t.process_name().into(),
        thread: t.thread_name().map(Into::into),
        pid: t.pid().map(|p| p as i64),
        bot: t.beginning_of_time(),
        activities: t
            .all_activities()
            .map(|a| {
                let d = a.activity().raw_argument().detail().map(|d| d.to_string());
                (a.activity().name().to_string(), d, a.start(), a.duration())
            })
            .collect(),
        stats: t
            .global_stats()
            .iter()
            .map(|(k, v)| (k.to_string(), (v.total_duration(), v.count() as u64)))
            .collect(),
    };
    sort(&mut c);
    c
}
fn sort(c: &mut Content) {
    c.activities.sort_by(|a, b| format!("{a:?}").cmp(&format!("{b:?}")));
}

fn judge(text: &str) -> Outcome {
    // A document whose syntax is broken is to be rejected, as is one which
    // the reference rejects
    let expected = match serde_json::from_str::<Value>(text) {
        Ok(v) => reference(&v),
        Err(_) => Ref::Reject("not JSON"),
    };
    match (ClangTrace::from_str(text), expected) {
        (Ok(_), Ref::Reject(why)) => Err(format!("accepted, although: {why}")),
        (Ok(t), Ref::Accept(mut c) | Ref::Either(Some(mut c))) => {
            sort(&mut c);
            let got = content(&t);
            ensure!(got == *c, "read as {got:?} instead of {c:?}");
            for (k, v) in t.global_stats() {
                if v.count() > 0 {
                    let avg = v.average_duration();
                    ensure!(avg == v.total_duration() / v.count() as f64, "{k} takes {avg} on average");
                }
            }
            Ok(())
        }
        (Ok(_), Ref::Either(None)) => Ok(()),
        (Err(e), Ref::Accept(_)) => Err(format!("rejected: {e}")),
        (Err(e), _) => {
            ensure!(e.to_string().len() > 10, "uninformative error {e}");
            let _ = format!("{e:?}");
            Ok(())
        }
    }
}

fn x(ts: f64, dur: f64, name: &str, args: Value) -> Value {
    let mut v = json!({"ph": "X", "pid": 7, "tid": 7, "ts": ts, "dur": dur, "name": name});
    if !args.is_null() {
        v["args"] = args;
    }
    v
}
fn total(tid: i64, dur: f64, name: &str, count: u64) -> Value {
    json!({"ph": "X", "pid": 7, "tid": tid, "ts": 0, "dur": dur, "name": format!("Total {name}"), "args": {"count": count, "avg ms": 1}})
}
fn m(name: &str, value: &str) -> Value {
    json!({"ph": "M", "pid": 7, "tid": 7, "ts": 0, "cat": "", "name": name, "args": {"name": value}})
}

fn valid_events() -> Vec<Value> {
    vec![
        m("process_name", "clang-17"),
        m("process_name", ""),
        m("thread_name", "cc1plus é"),
        m("thread_name", "clang-17"),
        x(10.0, 5.0, "Backend", Value::Null),
        x(10.0, 5.0, "Frontend", json!({})),
        x(11.0, 2.0, "Source", json!({"detail": "/a/b.h"})),
        x(11.5, 1.25, "RunPass", json!({"detail": ""})),
        x(2.0, 40.0, "ExecuteCompiler", Value::Null),
        x(1.0625, 0.0, "InlinerPass", json!({"detail": "_Z1fv"})),
        x(20.0, 4.0, "InlinerPass", Value::Null),
        x(20.0, 4.0, "BrandNewPass", json!({"detail": "whatever it is"})),
        x(20.0, 4.0, "Total BrandNewPass", Value::Null),
        x(4000000000.5, 12345678901.0, "LICMPass", json!({"detail": "<unnamed loop>"})),
        total(8, 100.0, "Backend", 3),
        total(9, 100.0, "Backend", 3),
        total(9, 0.0, "Source", 0),
        total(-1, 0.5, "", 1),
        total(7, 12.0, "Total Frontend", 18446744073709551615),
    ]
}

/// Everything that may go wrong with one field of an object
fn corruptions(v: &Value) -> Vec<Value> {
    let mut out = vec![];
    let values = || {
        vec![
            Value::Null,
            json!(true),
            json!(0),
            json!(1),
            json!(-1),
            json!(7),
            json!(8),
            json!(0.5),
            json!(1.0),
            json!(1.5),
            json!(13.0),
            json!(2147483648u64),
            json!(18446744073709551615u64),
            json!(-2147483649i64),
            json!(1e300),
            json!(""),
            json!(","),
            json!("x"),
            json!("7"),
            json!("X"),
            json!("M"),
            json!("B"),
            json!("E"),
            json!("i"),
            json!("Source"),
            json!("Backend"),
            json!("Total Backend"),
            json!("process_name"),
            json!("thread_name"),
            json!("process_labels"),
            json!("process_sort_index"),
            json!([]),
            json!(["x"]),
            json!([1]),
            json!({}),
            json!({"detail": "y"}),
            json!({"detail": 1}),
            json!({"detail": null}),
            json!({"detail": "y", "more": 1}),
            json!({"more": 1}),
            json!({"name": "y"}),
            json!({"name": "y", "more": 1}),
            json!({"labels": "y"}),
            json!({"sort_order": 1}),
            json!({"count": 1, "avg ms": 1}),
            json!({"count": 1, "avg ms": 2.5}),
            json!({"count": 1}),
            json!({"avg ms": 1}),
            json!({"count": -1, "avg ms": 1}),
            json!({"count": 1.5, "avg ms": 1}),
            json!({"count": "1", "avg ms": 1}),
            json!({"count": 1, "avg ms": "1"}),
            json!({"count": 1, "avg ms": null}),
            json!({"count": 1, "avg ms": 1, "more": 1}),
        ]
    };
    let extra = [
        "tts", "tdur", "sf", "stack", "esf", "estack", "cat", "args", "dur", "more", "bind_id", "id",
    ];
    if let Some(o) = v.as_object() {
        for k in o.keys() {
            let mut c = o.clone();
            c.remove(k);
            out.push(Value::Object(c));
        }
        for k in o.keys().map(|s| &s[..]).chain(extra).collect::<std::collections::BTreeSet<_>>() {
            for nv in values() {
                let mut c = o.clone();
                c.insert(k.into(), nv);
                out.push(Value::Object(c));
            }
        }
    }
    out.extend(values());
    out
}

pub fn run() -> ! {
    let ck = Ck::new("C10");
    let one = |events: &[Value]| {
        let text = json!({"traceEvents": events, "beginningOfTime": 1234567890123456u64}).to_string();
        ck.transitions(events.len() as u64);
        if ck.state(&text) {
            ck.case(&text, || judge(&text));
        }
    };
    let valid = valid_events();
    ck.note("valid_events", valid.len());
    // All lists of valid events
    fn lists(valid: &[Value], cur: &mut Vec<Value>, max: usize, f: &impl Fn(&[Value])) {
        f(cur);
        if cur.len() < max {
            for v in valid {
                cur.push(v.clone());
                lists(valid, cur, max, f);
                cur.pop();
            }
        }
    }
    let max = ck.pick(4, 5);
    ck.note("max_list", max);
    one(&[]);
    let pairs: Vec<Vec<Value>> = valid.iter().flat_map(|a| valid.iter().map(move |b| vec![a.clone(), b.clone()])).collect();
    for v in &valid {
        one(&[v.clone()]);
    }
    ck.par(&pairs, |_, p| lists(&valid, &mut p.clone(), max, &one));
    // Every corruption of every event, between every pair of valid events
    let corrupted: Vec<Value> = {
        let mut seen = std::collections::HashSet::new();
        valid.iter().flat_map(corruptions).filter(|v| seen.insert(v.to_string())).collect()
    };
    ck.note("corrupted_events", corrupted.len());
    let around: Vec<Vec<Value>> = {
        let process = &valid[0];
        let mut r = vec![vec![], vec![process.clone()]];
        for v in &valid {
            r.push(vec![v.clone(), process.clone()]);
            r.push(vec![process.clone(), v.clone()]);
            if ck.thorough() {
                for w in &valid {
                    r.push(vec![v.clone(), w.clone(), process.clone()]);
                }
            }
        }
        r
    };
    ck.par(&corrupted, |_, c| {
        for a in &around {
            for pos in 0..=a.len() {
                let mut l = a.clone();
                l.insert(pos, c.clone());
                one(&l);
            }
        }
        // Process identifiers
        for (pid, tid) in [(1, 0), (1, 1), (0, 0), (-5, -5), (2147483647, 2147483647), (0, 1), (1, 2), (2, 2), (3, 3), (-1, -1)] {
            let renumber = |mut v: Value| {
                if let Some(o) = v.as_object_mut() {
                    if o.get("pid") == Some(&json!(7)) {
                        o.insert("pid".into(), json!(pid));
                    }
                    if o.get("tid") == Some(&json!(7)) {
                        o.insert("tid".into(), json!(tid));
                    }
                }
                v
            };
            one(&[renumber(c.clone()), renumber(valid[0].clone())]);
        }
    });
    for (pid, tid) in [(1, 0), (1, 1), (0, 0), (-5, -5), (2147483647, 2147483647), (0, 1), (2, 3), (2, 2), (3, 3)] {
        for v in &valid {
            for p in &valid[..2] {
                let mut l = [v.clone(), p.clone()];
                for e in &mut l {
                    e["pid"] = json!(pid);
                    if e["tid"] == json!(7) {
                        e["tid"] = json!(tid);
                    }
                }
                one(&l);
            }
        }
    }
    // Two fields at a time
    let doubles: Vec<Value> = {
        let some = |k: &str| {
            let mut vals = vec![None, Some(Value::Null), Some(json!(0)), Some(json!(1)), Some(json!(8)), Some(json!(1.5)), Some(json!("x")), Some(json!("7"))];
            match k {
                "name" => vals.extend(["Total x", "Source", "process_name", "thread_name", "process_labels"].map(|n| Some(json!(n)))),
                "ph" => vals.extend(["X", "M", "B", "i"].map(|n| Some(json!(n)))),
                "args" => vals.extend([json!({}), json!({"detail": "y"}), json!({"name": "y"}), json!({"count": 1, "avg ms": 1})].map(Some)),
                _ => {}
            }
            vals
        };
        let mut r = std::collections::BTreeMap::new();
        for v in &valid {
            let o = v.as_object().unwrap();
            let keys: Vec<&str> = o.keys().map(|s| &s[..]).chain(["args", "cat", "tts"]).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
            for (i, a) in keys.iter().enumerate() {
                for b in &keys[..i] {
                    for va in some(a) {
                        for vb in some(b) {
                            let mut c = o.clone();
                            for (k, v) in [(a, va.clone()), (b, vb)] {
                                match v {
                                    Some(v) => c.insert(k.to_string(), v),
                                    None => c.remove(*k),
                                };
                            }
                            let c = Value::Object(c);
                            r.insert(c.to_string(), c);
                        }
                    }
                }
            }
        }
        r.into_values().collect()
    };
    ck.note("events_with_two_changes", doubles.len());
    ck.par(&doubles, |_, c| {
        for l in [vec![c], vec![c, &valid[0]], vec![&valid[0], c], vec![&valid[6], c, &valid[0]], vec![c, &valid[1], &valid[0]]] {
            one(&l.into_iter().cloned().collect::<Vec<_>>());
        }
    });
    // Document level
    let doc = |text: String| {
        if ck.state(&text) {
            ck.case(&text, || judge(&text));
        }
    };
    let events = json!([valid[6], valid[4], valid[14], valid[0], valid[2]]).to_string();
    let values = [
        "null", "true", "1", "-1.5", "0", "1e15", "\"ms\"", "\"ns\"", "\"\"", "\"x\"", "[]", "{}", "[1]", "{\"a\":1}", "1e400",
        "{\"1\":{\"category\":\"a\",\"name\":\"b\"}}",
        "[{\"tid\":1,\"ts\":0,\"name\":\"a\",\"sf\":1,\"weight\":1}]",
    ];
    let keys = [
        "displayTimeUnit", "systemTraceEvents", "powerTraceAsString", "stackFrames", "samples", "controllerTraceDataKey",
        "beginningOfTime", "otherData", "é",
    ];
    for ev in [&events[..], "[]"] {
        for k in keys {
            for v in values {
                doc(format!(r#"{{"traceEvents":{ev},"{k}":{v}}}"#));
                doc(format!(r#"{{"{k}":{v},"traceEvents":{ev}}}"#));
                for k2 in keys {
                    if k2 != k {
                        for v2 in values {
                            doc(format!(r#"{{"{k2}":{v2},"traceEvents":{ev},"{k}":{v}}}"#));
                        }
                    }
                }
            }
        }
    }
    for v in values {
        doc(format!(r#"{{"traceEvents":{v}}}"#));
        doc(v.to_string());
    }
    doc(events.clone());
    doc(String::new());
    doc("[".repeat(100_000));
    doc(format!(r#"{{"traceEvents":{events},"more":{}1{}}}"#, "[".repeat(100_000), "]".repeat(100_000)));
    // Numbers instead of names of event kinds
    for (what, field, events) in [("event", "ph", vec![valid[4].clone(), valid[0].clone()]), ("metadata", "name", vec![valid[0].clone(), valid[2].clone()])] {
        for (i, e) in events.iter().enumerate() {
            for n in 0..6 {
                let mut l = events.clone();
                l[i][field] = json!(n);
                let text = json!({"traceEvents": l}).to_string();
                ck.case(&format!("{what} kind {} spelled as the number {n}", e[field]), || {
                    ensure!(ClangTrace::from_str(&text).is_err(), "accepted {text}");
                    Ok(())
                });
            }
        }
    }
    // Damaged text: truncations, removed, replaced and inserted characters
    let base = format!(r#"{{"traceEvents":{events},"beginningOfTime":42.5}}"#);
    ck.note("damaged_document_length", base.len());
    let at: Vec<usize> = (0..=base.len()).filter(|i| base.is_char_boundary(*i)).collect();
    ck.par(&at, |_, &i| {
        doc(base[..i].to_string());
        for r in ["", "\"", ",", "}", "]", "{", "[", ":", "0", "9", "-", ".", "e", "x", " ", "\\", "\n", "é", "\0", "null"] {
            doc(format!("{}{r}{}", &base[..i], &base[i..]));
            if let Some(c) = base[i..].chars().next() {
                doc(format!("{}{r}{}", &base[..i], &base[i + c.len_utf8()..]));
            }
        }
    });
    // Files
    let dir = std::env::temp_dir().join(format!("mc-trace-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join("t.json");
    let p = path.display();
    let cases: Vec<(&str, Option<Vec<u8>>, bool)> = vec![
        ("missing", None, false),
        ("empty", Some(vec![]), false),
        ("valid", Some(base.clone().into_bytes()), true),
        ("latin1", Some(base.replace('é', "?").into_bytes().iter().map(|b| if *b == b'?' { 0xe9 } else { *b }).collect()), false),
        ("nul", Some(vec![0; 100]), false),
    ];
    for (what, bytes, ok) in cases {
        let _ = std::fs::remove_file(&path);
        if let Some(b) = bytes {
            std::fs::write(&path, b).unwrap();
        }
        ck.case(&format!("file {what}"), || match ClangTrace::from_file(&path) {
            Ok(t) => {
                ensure!(ok, "{p} ({what}) was accepted");
                ensure!(content(&t) == content(&ClangTrace::from_str(&base).unwrap()), "file differs");
                Ok(())
            }
            Err(e) => {
                ensure!(!ok, "{e}");
                ensure!(e.to_string().len() > 10, "uninformative error {e}");
                Ok(())
            }
        });
    }
    ck.case("directory as a file", || {
        ensure!(ClangTrace::from_file(&dir).is_err(), "accepted a directory");
        Ok(())
    });
    let _ = std::fs::remove_dir_all(&dir);
    ck.finish()
}
