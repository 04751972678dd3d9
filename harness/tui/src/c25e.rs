//! C25: unusual traces, terminals of every size
use crate::{
    app::{App, Setup},
    c25::*,
    json, scratch, Ck,
};
use std::{path::Path, sync::atomic::*, time::Duration};

/// One session
struct Case {
    name: String,
    /// Contents of the files to choose from
    files: Vec<Vec<u8>>,
    table: bool,
    size: (u16, u16),
    /// Keys and changes of size, and what must be on the screen after it
    steps: Vec<Step>,
}
enum Step {
    Key(&'static str),
    Size(u16, u16),
    /// One row is highlighted and the activity described is one of this trace
    Sane(Vec<String>),
    /// This activity is described, and its row is highlighted
    At(String),
    /// The description pane says this
    Pane(String),
    /// The rows are activities of this trace, legible in a view that was opened
    /// at this width, and written as before
    Labels(Vec<String>, u16),
    /// A message is shown
    Message,
    Table,
    /// The program ends (after the keys so far)
    Ends,
}
use Step::*;

const KEYS: [&str; 18] = ["Down", "Enter", "u", "f", "Down", "u", "f", "u", "b", "Esc", "h", "Esc", "Tab", "Down", "Tab", "Left", "Enter", "Esc"];

fn names(t: &Tree) -> Vec<String> {
    t.nodes.iter().map(|n| n.name.clone()).collect()
}
fn leaf(name: String, own: u64) -> T {
    T(Box::leak(name.into_boxed_str()), own, vec![])
}

fn sane(app: &App, names: &[String]) -> Result<(), String> {
    if dialog(app).is_some() {
        return Ok(());
    }
    let v = read(app)?;
    if v.lit.len() != 1 {
        return Err(format!("rows {:?} are highlighted", v.lit));
    }
    if !names.contains(&v.pane) {
        return Err(format!("{:?} is described, which is no activity of the trace", v.pane));
    }
    if v.rows.iter().flatten().any(|c| c.contains("NaN") || c.contains("inf%")) {
        return Err("a share is no number".into());
    }
    Ok(())
}

/// Is this the whole description, or a proper abbreviation?
fn abbreviates(label: &str, full: &str) -> bool {
    let pieces: Vec<&str> = label.split('…').collect();
    if pieces.len() == 1 {
        return label == full;
    }
    let (first, last) = (pieces[0], pieces[pieces.len() - 1]);
    // What is left out of the argument is left out inside of the parentheses
    let whole = label == "…" || last.ends_with(')') && label.contains('(');
    let Some(mut rest) = full.strip_prefix(first).filter(|_| whole).and_then(|f| f.strip_suffix(last)) else { return false };
    for p in &pieces[1..pieces.len() - 1] {
        match rest.find(p) {
            Some(k) => rest = &rest[k + p.len()..],
            None => return false,
        }
    }
    true
}

/// Earlier labels: name, width available, label
type Seen = Vec<(String, usize, String)>;

/// Every row is an activity in as many columns as there are
fn labels(app: &App, fulls: &[String], cols: u16, seen: &mut Seen) -> Result<(), String> {
    let v = read(app)?;
    let figures = v.titles.len() - 1;
    let flat = figures == 1;
    let mut new = vec![];
    for r in &v.rows {
        let shown = r.last().unwrap();
        let label = if flat { shown.as_str() } else { &shown[1..] };
        let which: Vec<&String> = fulls.iter().filter(|f| abbreviates(label, f)).collect();
        if which.is_empty() {
            return Err(format!("{label:?} is no activity of the trace"));
        }
        let width = (cols as usize).saturating_sub(13 * figures);
        if which.iter().any(|f| f.chars().count() + 8 <= width) && label.contains('…') && which.len() == 1 {
            return Err(format!("{label:?} is abbreviated without need"));
        }
        if let [full] = which[..] {
            new.push((full.clone(), width, label.to_string()));
        }
    }
    for (full, width, label) in new {
        for (_, w, l) in seen.iter().filter(|s| s.0 == full) {
            if width == *w && label != *l {
                return Err(format!("{label:?} was {l:?} before"));
            }
            let (wide, narrow) = if width > *w { (&label, l) } else { (l, &label) };
            if wide.chars().count() < narrow.chars().count() {
                return Err(format!("{wide:?} has more room than {narrow:?}"));
            }
        }
        if !seen.contains(&(full.clone(), width, label.clone())) {
            seen.push((full, width, label));
        }
    }
    Ok(())
}

fn holds(app: &App, s: &Step) -> Result<(), String> {
    match s {
        Sane(n) => sane(app, n),
        At(name) => {
            let v = read(app)?;
            if v.pane != *name {
                return Err(format!("{:?} is described instead of {name:?}", v.pane));
            }
            match v.lit[..] {
                [l] if v.rows[l].last().unwrap().trim_start_matches(['+', ' ']) == name => Ok(()),
                _ => Err(format!("the row of {name:?} is not highlighted")),
            }
        }
        Pane(name) => {
            let v = read(app)?;
            match v.pane == *name {
                true => Ok(()),
                false => Err(format!("{:?} is described instead of {name:?}", v.pane)),
            }
        }
        Message => {
            let lines = app.screen.lines();
            let text: String = lines.iter().filter(|l| l.contains('│') && !l.contains('<')).map(|l| l.trim_matches([' ', '│'])).collect();
            match app.screen.has("<Ok>") && !text.is_empty() && dialog(app) == Some("other") {
                true => Ok(()),
                false => Err("there is no message".into()),
            }
        }
        Table => match app.screen.lines()[0].contains("Source file") && dialog(app).is_none() {
            true => Ok(()),
            false => Err("the table of files is not shown".into()),
        },
        Key(_) | Size(..) | Labels(..) | Ends => Ok(()),
    }
}

fn play(c: &Case, base: &Path, worker: usize) -> Result<usize, String> {
    let _ = std::fs::remove_dir_all(base);
    let (dir, ctl) = (base.join("d"), base.join("c"));
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::create_dir_all(ctl.join("bin")).unwrap();
    std::os::unix::fs::symlink(std::env::current_exe().unwrap(), ctl.join("bin/clang++")).unwrap();
    let mut db = vec![];
    let mut csv = "file,max_rss,time\n".to_string();
    for (i, text) in c.files.iter().enumerate() {
        let src = dir.join(format!("{i}.cpp"));
        std::fs::write(&src, "").unwrap();
        csv += &format!("{i}.cpp,{},\n", 1_000_000_000 - i * 100_000_000);
        db.push(json!({"directory": dir.to_str().unwrap(), "command": format!("cc -o {i}.o -c {i}.cpp"), "file": src.to_str().unwrap()}));
        match text.as_slice() {
            b"missing" => {}
            b"directory" => std::fs::create_dir(dir.join(format!("{i}.json"))).unwrap(),
            _ => std::fs::write(dir.join(format!("{i}.json")), text).unwrap(),
        }
    }
    std::fs::write(dir.join("compile_commands.json"), json!(db).to_string()).unwrap();
    std::fs::write(dir.join("cmakeperf.csv"), csv).unwrap();
    touch(&dir.join("cmakeperf.csv"));
    let fresh = |_: ()| (0..c.files.len()).for_each(|i| touch(&dir.join(format!("{i}.json"))));
    fresh(());
    let mut app =
        App::start(&Setup { dir: &dir, ctl: &ctl, args: if c.table { &[] } else { &["0.json"] }, cols: c.size.0, rows: c.size.1, hold: false, reads: None, cpu: worker });
    app.wait_until(Duration::from_secs(2), |a| a.ended() || a.screen.has("Press H") || a.screen.has("<Ok>") || a.screen.has("Source"));
    app.settle();
    let fail = |app: &App, what: String| Err(format!("{what}\n{}", app.screen.text()));
    let mut n = 0;
    let mut seen = Seen::new();
    for (i, s) in c.steps.iter().enumerate() {
        n += 1;
        match s {
            Key(k) => {
                fresh(());
                app.key(RAW.iter().find(|r| r.0 == *k).unwrap().1);
                app.settle_for(Duration::from_millis(60), Duration::from_secs(2));
            }
            Size(c, r) => {
                app.resize(*c, *r);
                app.settle_for(Duration::from_millis(90), Duration::from_secs(2));
            }
            Ends => {
                if !app.wait_until(Duration::from_secs(15), |a| a.ended()) {
                    return fail(&app, "the program does not end".into());
                }
            }
            Labels(all, cols) => {
                app.wait_until(Duration::from_secs(6), |a| a.ended() || labels(a, all, *cols, &mut seen.clone()).is_ok());
                if app.ended() {
                    continue;
                }
                if let Err(e) = labels(&app, all, *cols, &mut seen) {
                    return fail(&app, e);
                }
            }
            s => {
                app.wait_until(Duration::from_secs(6), |a| a.ended() || holds(a, s).is_ok());
                if let (false, Err(e)) = (app.ended(), holds(&app, s)) {
                    return fail(&app, e);
                }
            }
        }
        if app.ended() && !matches!(s, Ends) && !matches!(c.steps.get(i + 1), Some(Ends)) || app.stderr().contains("panicked") || app.status.is_some_and(|s| !s.success()) {
            let err = app.stderr();
            let why: Vec<&str> = err.lines().filter(|l| l.contains("panicked") || l.contains("src/")).collect();
            return Err(format!("the program ended ({:?}) at step {n}: {}", app.status, why.join(" ")));
        }
    }
    Ok(n)
}

fn cases(ck: &Ck) -> Vec<Case> {
    let mut out = vec![];
    let quit = || [Key("Esc"), Key("q"), Key("Enter"), Ends];
    let mut add = |name: String, files: Vec<Vec<u8>>, table: bool, size: (u16, u16), steps: Vec<Step>| out.push(Case { name, files, table, size, steps });

    // Unusual traces
    let chain = |n: u64| (0..n).fold(leaf("ParseClass(C0)".into(), 10), |t, i| T(Box::leak(format!("ParseClass(C{})", i + 1).into_boxed_str()), i, vec![t]));
    let odd: Vec<(&str, Tree)> = vec![
        ("no time at all", Tree::new(vec![T("ParseClass(A)", 0, vec![T("ParseClass(B)", 0, vec![])]), T("Frontend", 0, vec![])])),
        ("parent without time", Tree::new(vec![T("ParseClass(A)", 0, vec![T("ParseClass(B)", 0, vec![]), T("ParseClass(C)", 0, vec![])]), T("Frontend", 100, vec![])])),
        ("activities without time", Tree::new(vec![T("ParseClass(A)", 40, vec![T("ParseClass(B)", 0, vec![]), T("ParseClass(C)", 7, vec![])]), T("Frontend", 0, vec![])])),
        ("one activity", Tree::new(vec![T("ExecuteCompiler", 123456, vec![])])),
        ("days", Tree::new(vec![T("ParseClass(A)", 5_000_000_000_000, vec![T("ParseClass(B)", 1, vec![])])])),
        ("deep", Tree::new(vec![chain(70)])),
        ("equal figures", Tree::new(vec![T("ParseClass(A)", 5, vec![]), T("ParseClass(B)", 5, vec![]), T("ParseClass(C)", 5, vec![T("ParseClass(D)", 5, vec![])])])),
    ];
    let keys = |order: usize| de_bruijn(10, order);
    for (name, t) in &odd {
        let seq = keys(ck.pick(2, 3));
        for (i, part) in seq.chunks(50).enumerate() {
            let mut steps = vec![Sane(names(t))];
            for k in part {
                steps.push(Key(RAW[*k].0));
                steps.push(Sane(names(t)));
            }
            steps.extend([Key("Esc"), Key("Esc")]);
            steps.extend(quit());
            add(format!("{name}, keys {i}"), vec![t.json("clang0").into()], false, (100, 30), steps);
        }
    }

    // More rows than the terminal has
    let long = Tree::new((0..60).map(|i| leaf(format!("ParseClass(C{i})"), 1000 - i * 7)).collect());
    for rows in [14, 20, 40] {
        for flat in [false, true] {
            let mut steps = vec![At("ParseClass(C0)".into())];
            if flat {
                steps.push(Key("f"));
            }
            steps.push(Key("Home"));
            for i in 0..60 {
                steps.push(At(format!("ParseClass(C{i})")));
                steps.push(Key("Down"));
            }
            steps.push(At("ParseClass(C59)".into()));
            steps.extend([Key("Home"), At("ParseClass(C0)".into()), Key("End"), At("ParseClass(C59)".into())]);
            for i in (0..60).rev() {
                steps.push(At(format!("ParseClass(C{i})")));
                steps.push(Key("Up"));
            }
            steps.push(At("ParseClass(C0)".into()));
            steps.extend(quit());
            add(format!("60 rows in {rows}{}", if flat { ", flat" } else { "" }), vec![long.json("clang0").into()], false, (90, rows), steps);
        }
    }

    // Descriptions that do not fit in the table are still described in full
    for n in [20, 40, 50, 60, 70, 80] {
        let name = format!("ParseClass({})", "a".repeat(n));
        let t = Tree::new(vec![leaf(name.clone(), 5), leaf("Frontend".into(), 500)]);
        let mut steps = vec![At("Frontend".into()), Key("Down"), Pane(name.clone()), Key("f"), Key("End"), Pane(name.clone())];
        steps.extend(quit());
        add(format!("label of {n}"), vec![t.json("clang0").into()], false, (100, 24), steps);
    }

    // Long descriptions, in every view and at every width
    let t = Tree::new(vec![
        T("Frontend", 100, vec![
            T("Source(/usr/include/c++/13/bits/stl_vector.h)", 50, vec![leaf("ParseClass(std::vector<ns::inner::Alpha<int, std::pair<char, long>>>)".into(), 40)]),
            leaf("InstantiateClass(std::map<std::basic_string<char>, std::vector<unsigned long>>)".into(), 30),
            leaf("Source(/home/me/project/src/deeply/nested/directory/another/file.hpp)".into(), 20),
        ]),
        leaf("InstantiateFunction(outer::Class<A<B<C<D<E<F>>>>>>::method<G, H<I>>)".into(), 10),
        leaf("ParseClass(AnIdentifierThatCannotBeAbbreviatedInAnyWay)".into(), 5),
    ]);
    let all = names(&t);
    let widths: Vec<u16> = ck.pick((48..=100).step_by(4).collect(), (32..=120).collect());
    for (i, &w) in widths.iter().enumerate() {
        let l = |w: u16| Labels(all.clone(), w);
        let n = widths[(i * 7 + 3) % widths.len()];
        let mut steps = vec![l(w)];
        for k in ["f", "f", "f", "f", "Enter", "f", "f", "Enter", "f", "f", "Esc"] {
            steps.extend([Key(k), l(w)]);
        }
        // The views that are opened later fit the new size
        steps.push(Size(n, 40));
        for k in ["f", "f", "f", "f"] {
            steps.extend([Key(k), l(n)]);
        }
        steps.push(Size(w, 40));
        for k in ["Enter", "f", "f", "u", "u", "u"] {
            steps.extend([Key(k), l(w)]);
        }
        steps.extend([Key("Esc"), Key("Esc")]);
        steps.extend(quit());
        add(format!("long descriptions in {w} columns, then {n}"), vec![t.json("clang0").into()], false, (w, 40), steps);
    }

    // Descriptions with control characters stay on their line
    let t = Tree::new(vec![
        T("Frontend", 100, vec![leaf("Source(/usr/include/two\nlines/and\ta tab\r.h)".into(), 50), leaf("Source(/\u{1b}[2J.h)".into(), 3)]),
        leaf("RunPass(a rather long argument that\nis spread over two lines, or even\r\nthree of them)".into(), 10),
        leaf("RunPass(\n)".into(), 5),
    ]);
    let all: Vec<String> = names(&t).iter().map(|n| n.replace(char::is_control, " ")).collect();
    for w in ck.pick(vec![44, 60, 100], (40..=120).step_by(4).collect()) {
        let mut steps = vec![Labels(all.clone(), w)];
        for k in ["f", "Down", "Down", "f", "Enter", "Esc", "u", "Down", "u"] {
            steps.extend([Key(k), Labels(all.clone(), w)]);
        }
        steps.extend(quit());
        add(format!("control characters in {w} columns"), vec![t.json("clang0").into()], false, (w, 40), steps);
    }

    // Whatever time the trace claims to be from
    let good = tiny().json("clang0");
    for time in ["-1", "253402300799999000", "253402300800000000", "-62167219200000000", "-62167219200000001", "9223372036854775807", "1e30", "-1e300"] {
        let time = good.replace("\"beginningOfTime\":1", &format!("\"beginningOfTime\":{time}"));
        assert_ne!(time, good);
        let mut steps = vec![Sane(names(&tiny())), At("Frontend".into()), Key("f"), Sane(names(&tiny())), Key("Esc"), Key("Enter"), Sane(names(&tiny())), Key("Esc")];
        steps.extend(quit());
        add(format!("recorded at {}", &time[time.rfind(':').unwrap()..]), vec![time.into()], false, (90, 24), steps);
    }

    // Files that are no traces
    let mut bad: Vec<(String, Vec<u8>)> = vec![
        ("missing file".into(), b"missing".to_vec()),
        ("directory".into(), b"directory".to_vec()),
        ("empty file".into(), vec![]),
        ("not UTF-8".into(), vec![b'{', b'"', 0xff, 0xfe, b'"']),
        ("no activity".into(), br#"{"traceEvents":[{"cat":"","pid":7,"tid":7,"ts":0,"ph":"M","name":"process_name","args":{"name":"clang0"}}],"beginningOfTime":1}"#.to_vec()),
        ("no event".into(), br#"{"traceEvents":[],"beginningOfTime":1}"#.to_vec()),
        ("other JSON".into(), br#"[1,{"a":null}]"#.to_vec()),
    ];
    let step = ck.pick(60, 7);
    bad.extend((1..good.len() - 1).step_by(step).map(|n| (format!("first {n} bytes"), good.as_bytes()[..n].to_vec())));
    for (name, text) in bad {
        let whole = name == "missing file" || name == "directory";
        for key in ["Enter", "Esc", "q"] {
            let mut steps = vec![Message];
            match key {
                "Enter" => steps.extend([Key("Enter"), Ends]),
                "Esc" => steps.extend([Key("Esc"), Message, Key("Enter"), Ends]),
                _ => steps.extend([Key("q"), Key("Enter"), Ends]),
            }
            if key == "Enter" || name.len() > 11 || ck.thorough() {
                add(format!("{name}, {key}"), vec![text.clone()], false, (90, 24), steps);
            }
        }
        // A missing one would be measured
        if !whole {
            let all = names(&tiny());
            let mut steps = vec![Table];
            for close in ["Enter", "Esc"] {
                steps.extend([Key("Enter"), Message, Key(close), Table]);
                steps.extend([Key("Down"), Key("Enter"), Sane(all.clone()), At("Frontend".into()), Key("Esc"), Table, Key("Up")]);
            }
            steps.extend(quit());
            add(format!("{name}, from the table"), vec![text, good.clone().into()], true, (90, 24), steps);
        }
    }

    // Terminals of every size
    let mut sizes: Vec<(u16, u16)> = vec![];
    if ck.thorough() {
        sizes.extend((1..=70).flat_map(|c| (1..=16).map(move |r| (c, r))));
        sizes.extend([(300, 5), (500, 100), (5, 100), (200, 60), (1, 100)]);
    } else {
        sizes.extend((1..=46).flat_map(|c| [(c, 24)]));
        sizes.extend((1..=14).flat_map(|r| [(8, r), (31, r), (80, r)]));
        sizes.extend([(300, 5), (5, 60), (1, 1)]);
    }
    for size in sizes {
        for table in [false, true] {
            let mut steps = vec![];
            if table {
                steps.extend([Key("Down"), Key("h"), Key("Esc"), Key("Left"), Key("Enter"), Key("Down"), Key("Up"), Key("Enter")]);
            }
            steps.extend(KEYS.map(Key));
            steps.extend([Key("Esc"), Key("Esc"), Key("Esc")]);
            steps.extend(quit());
            add(format!("{} columns {} rows{}", size.0, size.1, if table { ", table" } else { "" }), vec![good.clone().into(); 1 + usize::from(table)], table, size, steps);
        }
    }

    // The size changes while the program runs
    let news: Vec<(u16, u16)> = ck.pick(vec![(1, 1), (3, 40), (20, 10), (30, 24), (60, 8), (200, 50)], (0..12).flat_map(|c| (0..8).map(move |r| (1 + c * 9, 1 + r * 5))).collect());
    for size in news {
        for table in [false, true] {
            // Views are laid out for the size they were opened at, so that only
            // those opened at a reasonable one are sure to be legible
            let all = names(&tiny());
            let mut steps = vec![];
            if table {
                steps.extend([Size(size.0, size.1), Key("Down"), Key("Up"), Size(100, 30), Key("Enter"), Sane(all.clone())]);
            }
            for k in KEYS {
                steps.extend([Size(size.0, size.1), Key(k), Size(100, 30)]);
            }
            steps.extend([Key("Esc"), Key("Esc"), Key("Esc")]);
            if table {
                steps.extend([Table, Size(size.0, size.1), Key("Enter"), Size(100, 30), Key("Esc"), Table, Key("Enter")]);
            } else {
                steps.extend([Key("f")]);
            }
            steps.extend([Sane(all.clone()), Key("Down"), Sane(all.clone())]);
            if table {
                steps.extend([Key("Esc")]);
            }
            steps.extend(quit());
            add(format!("100x30 to {}x{} and back{}", size.0, size.1, if table { ", table" } else { "" }), vec![good.clone().into(); 1 + usize::from(table)], table, (100, 30), steps);
        }
    }
    out
}

pub fn run(ck: &'static Ck, workers: usize, limit: f64) {
    let cases = cases(ck);
    let only = std::env::var("MC_CASE").ok();
    let next = AtomicUsize::new(0);
    let played = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for worker in 0..workers {
            let (cases, next, played, only) = (&cases, &next, &played, &only);
            s.spawn(move || {
                let base = scratch().join(format!("w{worker}"));
                loop {
                    let Some(c) = cases.get(next.fetch_add(1, Ordering::Relaxed)) else { return };
                    if only.as_ref().is_some_and(|o| !c.name.contains(o.as_str())) {
                        continue;
                    }
                    if ck.elapsed() > limit {
                        return ck.not_exhaustive("time budget of the tier");
                    }
                    played.fetch_add(1, Ordering::Relaxed);
                    ck.traces(1);
                    match play(c, &base, worker) {
                        Ok(n) => ck.transitions(n as u64),
                        Err(e) => match play(c, &base, worker) {
                            Err(e) => ck.violation(&c.name, &e),
                            Ok(_) => {
                                ck.bump("not_reproduced", 1);
                                println!("not reproduced: {}: {e}", c.name);
                            }
                        },
                    }
                }
            });
        }
    });
    ck.note("unusual traces and terminals", json!({"sessions": played.load(Ordering::Relaxed)}));
}
