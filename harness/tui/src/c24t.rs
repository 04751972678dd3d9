//! C24: tables of every width, with more files than rows and names of all kinds
use crate::{
    app::{wide, App, Setup},
    c24::trace_text,
    c25::touch,
    json, scratch, Ck,
};
use std::{path::Path, sync::atomic::*, time::Duration};

#[derive(Clone, Debug)]
struct Case {
    files: Vec<String>,
    times: bool,
    size: (u16, u16),
    /// Choose every file
    choose: bool,
}

/// Source files that are links, and where to (linked is a link to a directory)
const LINKS: [(&str, &str); 2] = [("src/link.cpp", "a.cpp"), ("other.cpp", "src/../src/link.cpp")];

fn shown(name: &str) -> String {
    name.replace(char::is_control, " ")
}
fn width(s: &str) -> usize {
    s.chars().map(|c| 1 + usize::from(wide(c))).sum()
}
fn rss(i: usize) -> u64 {
    9_990_000_000 - i as u64 * 10_000_000
}
fn time(i: usize) -> f32 {
    (i * 7 % 100) as f32 + 0.5
}

/// Is this the path, or a proper abbreviation, in that many columns?
fn check_label(label: &str, name: &str, room: usize) -> Result<(), String> {
    let full = shown(name);
    if label == full {
        return Ok(());
    }
    let err = |what: &str| Err(format!("{full:?} is shown as {label:?}, {what}"));
    // A few columns may be left free
    if width(&full) + 4 <= room {
        return err("although there is room for it");
    }
    let (dir, file) = full.rsplit_once('/').unwrap_or(("", &full));
    let Some((head, tail)) = label.split_once('…') else { return err("which is cut off") };
    if width(label) > room {
        return err("which does not fit");
    }
    if label == "…" {
        return match width(file) + 6 <= room || room >= 21 {
            true => err("although more of it fits"),
            false => Ok(()),
        };
    }
    // Some of the directories
    if let Some(back) = tail.strip_suffix(file) {
        let whole = (head.is_empty() || head.ends_with('/')) && back.starts_with('/') && back.ends_with('/');
        return match whole && dir.starts_with(head.trim_end_matches('/')) && (format!("/{dir}/")).ends_with(back) {
            true => Ok(()),
            false => err("which is something else"),
        };
    }
    // Some of the file name
    if width(file) + 6 <= room {
        return err("without the name of the file although it fits");
    }
    let ends = head.is_empty() && tail.strip_prefix('/').and_then(|t| t.split_once('…')).is_some_and(|(a, b)| file.starts_with(a) && file.ends_with(b) && !a.is_empty() && !b.is_empty());
    match ends {
        true => Ok(()),
        false => err("which is not made of its beginning and end"),
    }
}

/// The files on the screen and the highlighted one
fn check(app: &App, c: &Case) -> Result<usize, String> {
    let lines = app.screen.lines();
    let columns = 2 + usize::from(c.times);
    let head = &lines[0];
    for (i, t) in ["Memory", "Time", "Source"].iter().enumerate() {
        if (c.times || i != 1) != head.contains(t) {
            return Err(format!("the columns are {head:?}"));
        }
    }
    let mut lit = vec![];
    let mut all = vec![];
    for y in 2..app.screen.rows {
        let cells: Vec<&str> = lines[y].split('┆').collect();
        if cells.len() != columns || cells[0].trim().is_empty() {
            continue;
        }
        let Some(i) = (0..c.files.len()).find(|&i| cells[0].trim() == format!("{:.2} GB", rss(i) as f32 / 1e9)) else {
            return Err(format!("no file uses {:?}", cells[0].trim()));
        };
        if c.times && cells[1].trim() != format!("{:.1}s", time(i)) {
            return Err(format!("{:?} is shown instead of {:.1}s", cells[1].trim(), time(i)));
        }
        let label = cells[columns - 1];
        let label = label.strip_prefix(' ').unwrap_or(label).trim_end_matches(['█', '░', '│', '|', '▒', '║', '┃', ' ']);
        let full = shown(&c.files[i]);
        // (trailing spaces are invisible)
        let before: usize = cells[..columns - 1].iter().map(|c| width(c) + 1).sum::<usize>() + 1;
        check_label(if label == full.trim_end() { &full } else { label }, &c.files[i], (app.screen.cols).saturating_sub(before))?;
        if matches!(app.screen.marks[y][0], 2 | 5) {
            lit.push(i);
        }
        if all.last().is_some_and(|l| l + 1 != i) {
            return Err(format!("file {i} comes after file {:?}", all.last().unwrap()));
        }
        all.push(i);
    }
    let fit = (app.screen.rows - 3).min(c.files.len());
    if all.len() < fit.saturating_sub(1) {
        return Err(format!("{} files are shown in {} rows", all.len(), app.screen.rows));
    }
    match lit[..] {
        [i] => Ok(i),
        _ => Err(format!("files {lit:?} are highlighted")),
    }
}

fn play(c: &Case, base: &Path, worker: usize) -> Result<usize, String> {
    let _ = std::fs::remove_dir_all(base);
    let (dir, ctl) = (base.join("d"), base.join("c"));
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::create_dir_all(ctl.join("bin")).unwrap();
    std::os::unix::fs::symlink(std::env::current_exe().unwrap(), ctl.join("bin/clang++")).unwrap();
    std::fs::create_dir_all(base.join("elsewhere")).unwrap();
    std::os::unix::fs::symlink("../elsewhere", dir.join("linked")).unwrap();
    let mut db = vec![];
    let mut csv = "file,max_rss,time\n".to_string();
    let n = c.files.len();
    // Recorded in another order
    for k in 0..n {
        let i = (k * 7 + 3) % n;
        let f = &c.files[i];
        let src = match f.strip_prefix("../") {
            Some(f) => base.join(f),
            None => dir.join(f),
        };
        std::fs::create_dir_all(src.parent().unwrap()).unwrap();
        match LINKS.iter().find(|(l, _)| l == f) {
            Some((_, to)) => std::os::unix::fs::symlink(to, &src).unwrap(),
            None => std::fs::write(&src, "").unwrap(),
        }
        std::fs::write(dir.join(format!("o{i}.json")), trace_text("x").replace("clang", &format!("T{i}x"))).unwrap();
        csv += &format!("\"{f}\",{},{}\n", rss(i), if c.times { time(i).to_string() } else { String::new() });
        db.push(json!({"directory": dir.to_str().unwrap(), "command": format!("cc -o o{i}.o -c x"), "file": src.to_str().unwrap()}));
    }
    std::fs::write(dir.join("compile_commands.json"), json!(db).to_string()).unwrap();
    std::fs::write(dir.join("cmakeperf.csv"), csv).unwrap();
    let fresh = || {
        touch(&dir.join("cmakeperf.csv"));
        (0..n).for_each(|i| touch(&dir.join(format!("o{i}.json"))));
    };
    fresh();
    let mut app = App::start(&Setup { dir: &dir, ctl: &ctl, args: &[], cols: c.size.0, rows: c.size.1, hold: false, reads: None, cpu: worker });
    let fail = |app: &App, what: String| Err(format!("{what} ({:?})\n{}{}", app.status, app.screen.text(), app.stderr()));
    let mut steps = 0;
    let mut expect = |app: &mut App, at: Option<usize>, after: &str| -> Result<usize, String> {
        steps += 1;
        let ok = |a: &App| check(a, c).is_ok_and(|i| at.map_or(true, |at| i == at));
        app.wait_until(Duration::from_secs(15), |a| a.ended() || ok(a));
        match check(app, c) {
            _ if app.ended() => fail(app, format!("after {after}: the program ended")),
            Ok(i) if at.is_some_and(|at| at != i) => fail(app, format!("after {after}: file {i} is highlighted instead of {}", at.unwrap())),
            Ok(i) => Ok(i),
            Err(e) => fail(app, format!("after {after}: {e}")),
        }
    };
    expect(&mut app, Some(0), "the start")?;
    for i in 0..n {
        if i > 0 {
            app.key("\x1b[B");
            expect(&mut app, Some(i), "Down")?;
        }
        if c.choose || i % 13 == 5 {
            fresh();
            app.key("\r");
            let tag = format!("T{i}x");
            app.wait_until(Duration::from_secs(15), |a| a.ended() || a.screen.has(&tag) && a.screen.has("Selected"));
            if app.ended() || !app.screen.has(&tag) {
                return fail(&app, format!("file {i} was chosen, but its trace is not shown"));
            }
            app.settle_for(Duration::from_millis(40), Duration::from_secs(2));
            app.key("\x1b");
            expect(&mut app, Some(i), "Escape")?;
        }
    }
    for (key, name, at) in [("\x1b[H", "Home", Some(0)), ("\x1b[F", "End", Some(n - 1)), ("\x1b[A", "Up", Some(n - 2)), ("\x1b[5~", "PageUp", None), ("\x1b[6~", "PageDown", None), ("\x1b[5~", "PageUp", None), ("\x1b[5~", "PageUp", None)] {
        app.key(key);
        app.settle_for(Duration::from_millis(60), Duration::from_secs(2));
        let i = expect(&mut app, at, name)?;
        if at.is_none() {
            // What is highlighted is what is chosen
            fresh();
            app.key("\r");
            let tag = format!("T{i}x");
            app.wait_until(Duration::from_secs(15), |a| a.ended() || a.screen.has(&tag) && a.screen.has("Selected"));
            if app.ended() || !app.screen.has(&tag) {
                return fail(&app, format!("file {i} was chosen after {name}, but its trace is not shown"));
            }
            app.settle_for(Duration::from_millis(40), Duration::from_secs(2));
            app.key("\x1b");
            expect(&mut app, Some(i), "Escape")?;
        }
    }
    Ok(steps)
}

fn cases(ck: &Ck) -> Vec<Case> {
    let names: Vec<String> = [
        "a.cpp",
        "src/a.cpp",
        "very/deep/directory/structure/of/the/project/with/many/levels/file.cpp",
        "x/averyveryverylongfilenamethatdoesnotfitanywhereatallwhateverthewidth.cpp",
        "日本/日本語日本語.cpp",
        "日本語日本語日本語日本語日本語日本語日本語日本語.cpp",
        "two\nlines/and\ta tab.cpp",
        "a/b/c/d/e/f/g/h/i/j/k/l/m/n/o/p/q/r/s/t/u/v/w/x/y/z.cpp",
        "../outside/of the/tree/main.cpp",
        "Ünïcödé/ñ.cpp",
        "src/a, quoted.cpp",
        "src/link.cpp",
        "other.cpp",
        "linked/b.cpp",
        "lib/some_module/some_class_with_a_name.cc",
    ]
    .map(String::from)
    .into();
    let mut out = vec![];
    let widths: Vec<u16> = ck.pick((32..=110).step_by(3).collect(), (30..=140).collect());
    for (i, w) in widths.iter().enumerate() {
        for times in [true, false] {
            // Both kinds at most widths, everything chosen at some
            out.push(Case { files: names.clone(), times, size: (*w, 24), choose: ck.thorough() || (i + usize::from(times)) % 4 == 0 });
        }
    }
    // More files than rows
    let many = |n: usize| -> Vec<String> { (0..n).map(|i| if i % 5 == 0 { names[i / 5 % names.len()].replace("a", &format!("a{i}")) + "x" } else { format!("gen/dir{}/file{i}.cpp", i % 3) }).collect() };
    for n in ck.pick(vec![12, 40], vec![7, 8, 9, 12, 40, 90]) {
        for rows in ck.pick(vec![11, 20], vec![10, 11, 12, 20, 33, 50]) {
            for w in ck.pick(vec![45, 80], vec![33, 45, 60, 80, 100]) {
                out.push(Case { files: many(n), times: (n + rows) % 2 == 0, size: (w, rows as u16), choose: false });
            }
        }
    }
    out
}

pub fn run(ck: &'static Ck, workers: usize, only: Option<&str>, limit: f64) {
    let cases: Vec<Case> = cases(ck).into_iter().filter(|c| only.map_or(true, |o| format!("table {c:?}").contains(o))).collect();
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for worker in 0..workers {
            let (cases, next) = (&cases, &next);
            s.spawn(move || {
                let base = scratch().join(format!("t{worker}"));
                loop {
                    let Some(c) = cases.get(next.fetch_add(1, Ordering::Relaxed)) else { return };
                    if ck.elapsed() > limit {
                        return ck.not_exhaustive("time budget of the tier");
                    }
                    ck.traces(1);
                    match play(c, &base, worker) {
                        Ok(n) => {
                            ck.transitions(n as u64);
                            ck.distinct_states(c.files.len() as u64);
                        }
                        Err(e) => match play(c, &base, worker) {
                            Err(e) => ck.violation(&format!("table {c:?}"), &e),
                            Ok(_) => {
                                ck.bump("not_reproduced", 1);
                                println!("not reproduced: table {c:?}: {e}");
                            }
                        },
                    }
                }
            });
        }
    });
    ck.note("tables", cases.len() as u64);
}
