//! C25: the interactive profile views are truthful.
//!
//! A reference model of the views (which activities, which figures, which
//! order, which selection, what is below) is explored exhaustively: every
//! command in every reachable state of the model is carried out by the real
//! program, whose screen must show what the model says. A second part gives
//! it all short sequences of raw keys: whatever they lead to, the screen must
//! show a truthful view of some activity.
use crate::{
    app::{App, Setup},
    json, scratch, Ck,
};
use std::{
    collections::{HashMap, HashSet, VecDeque},
    path::Path,
    sync::Mutex,
    time::Duration,
};

pub struct Node {
    pub name: String,
    pub total: u64,
    pub own: u64,
    pub kids: Vec<usize>,
}
pub struct Tree {
    pub nodes: Vec<Node>,
    pub roots: Vec<usize>,
}
/// Name, time of its own, children
pub struct T(pub &'static str, pub u64, pub Vec<T>);

impl Tree {
    pub fn new(roots: Vec<T>) -> Tree {
        let mut t = Tree { nodes: vec![], roots: vec![] };
        fn add(t: &mut Tree, n: T) -> usize {
            let kids: Vec<usize> = n.2.into_iter().map(|k| add(t, k)).collect();
            let total = n.1 + kids.iter().map(|k| t.nodes[*k].total).sum::<u64>();
            t.nodes.push(Node { name: n.0.into(), total, own: n.1, kids });
            t.nodes.len() - 1
        }
        for r in roots {
            let r = add(&mut t, r);
            t.roots.push(r);
        }
        t
    }
    /// As clang would write it
    pub fn json(&self, process: &str) -> String {
        let mut events = vec![];
        fn put(t: &Tree, n: usize, start: u64, events: &mut Vec<String>) {
            // Time of its own is partly before and partly after the children
            let node = &t.nodes[n];
            let mut at = start + node.own / 2;
            for k in &node.kids {
                put(t, *k, at, events);
                at += t.nodes[*k].total;
            }
            let (kind, arg) = match node.name.split_once('(') {
                Some((k, a)) => (k, format!(r#","args":{{"detail":{}}}"#, json!(a[..a.len() - 1]))),
                None => (node.name.as_str(), String::new()),
            };
            events.push(format!(r#"{{"ph":"X","pid":7,"tid":7,"ts":{start},"dur":{},"name":"{kind}"{arg}}}"#, node.total));
        }
        let mut at = 1000;
        for r in &self.roots {
            put(self, *r, at, &mut events);
            at += self.nodes[*r].total;
        }
        events.push(format!(r#"{{"cat":"","pid":7,"tid":7,"ts":0,"ph":"M","name":"process_name","args":{{"name":"{process}"}}}}"#));
        format!(r#"{{"traceEvents":[{}],"beginningOfTime":1}}"#, events.join(",\n"))
    }
    fn total(&self) -> u64 {
        self.roots.iter().map(|r| self.nodes[*r].total).sum()
    }
    pub fn below(&self, n: Option<usize>, flat: bool) -> Vec<usize> {
        let direct = match n {
            None => &self.roots,
            Some(n) => &self.nodes[n].kids,
        };
        if !flat {
            return direct.clone();
        }
        let mut out = vec![];
        for k in direct {
            out.push(*k);
            out.extend(self.below(Some(*k), true));
        }
        out
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Dlg {
    None,
    Help,
    Quit,
    /// Entry (or the button, past the last one)
    Back(usize),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Layer {
    flat: bool,
    node: Option<usize>,
    sel: usize,
    /// Column and direction (true: ascending) it is sorted by
    sort: (usize, bool),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct M {
    /// Which trace is shown; the table of files is below if there is one
    trace: usize,
    table: Option<usize>,
    layers: Vec<Layer>,
    key: usize,
    dir: bool,
    /// What the other columns would be sorted by
    dirs: [bool; 3],
    unit: usize,
    dlg: Dlg,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Cmd {
    Down,
    Up,
    Enter,
    Esc,
    Unit,
    Flat,
    Back,
    Help,
    Quit,
    Sort(usize),
    No,
}
const CMDS: [Cmd; 13] = [
    Cmd::Down,
    Cmd::Up,
    Cmd::Enter,
    Cmd::Esc,
    Cmd::Unit,
    Cmd::Flat,
    Cmd::Back,
    Cmd::Help,
    Cmd::Quit,
    Cmd::Sort(0),
    Cmd::Sort(1),
    Cmd::Sort(2),
    Cmd::No,
];

/// The program whose screens are predicted
pub struct World {
    pub name: &'static str,
    pub traces: Vec<Tree>,
    /// The traces are chosen from a table of files
    pub table: bool,
    pub cols: u16,
    pub rows: u16,
    /// Sort columns to try
    pub sorts: usize,
    pub dialogs: bool,
}

impl World {
    fn start(&self) -> M {
        let m = M { trace: 0, table: None, layers: vec![], key: 0, dir: false, dirs: [false, false, true], unit: 0, dlg: Dlg::None };
        if self.table {
            M { table: Some(0), ..m }
        } else {
            self.opened(m, 0)
        }
    }
    fn opened(&self, mut m: M, trace: usize) -> M {
        m.trace = trace;
        m.unit = 0;
        self.push(&mut m, None, false);
        m
    }
    fn push(&self, m: &mut M, node: Option<usize>, flat: bool) {
        let sort = if flat && m.key == 0 { (1, m.dirs[1]) } else { (m.key, m.dir) };
        let mut l = Layer { flat, node, sel: 0, sort };
        l.sel = self.order(m.trace, &l)[0];
        m.layers.push(l);
    }
    /// Rows of a view
    fn order(&self, trace: usize, l: &Layer) -> Vec<usize> {
        let t = &self.traces[trace];
        let mut v = t.below(l.node, l.flat);
        let mark = |n: usize| if l.flat { "" } else if t.nodes[n].kids.is_empty() { " " } else { "+" };
        v.sort_by(|a, b| {
            let (x, y) = (&t.nodes[*a], &t.nodes[*b]);
            let o = match l.sort.0 {
                0 => x.total.cmp(&y.total),
                1 => x.own.cmp(&y.own),
                _ => format!("{}{}", mark(*a), x.name).cmp(&format!("{}{}", mark(*b), y.name)),
            };
            if l.sort.1 { o } else { o.reverse() }
        });
        v
    }
    /// None: does not apply here. The flag tells that the direction of the
    /// sort is not specified.
    fn step(&self, m: &M, c: Cmd) -> Option<(M, bool)> {
        let mut n = m.clone();
        let in_table = m.layers.is_empty();
        match m.dlg {
            Dlg::None => {}
            Dlg::Help => {
                match c {
                    Cmd::Enter | Cmd::Esc => n.dlg = Dlg::None,
                    Cmd::Unit if !in_table => n.unit = (m.unit + 1) % 3,
                    Cmd::Sort(_) | Cmd::No => return None,
                    _ => {}
                }
                return Some((n, false));
            }
            Dlg::Quit => {
                match c {
                    Cmd::Esc | Cmd::No => n.dlg = Dlg::None,
                    Cmd::Unit if !in_table => n.unit = (m.unit + 1) % 3,
                    // Quits
                    Cmd::Enter | Cmd::Sort(_) => return None,
                    _ => {}
                }
                return Some((n, false));
            }
            Dlg::Back(i) => {
                let k = m.layers.len();
                match c {
                    Cmd::Esc => n.dlg = Dlg::None,
                    Cmd::Down => n.dlg = Dlg::Back((i + 1).min(k)),
                    // From the button, back to the list
                    Cmd::Up => n.dlg = Dlg::Back(i.saturating_sub(1)),
                    Cmd::Enter => {
                        n.dlg = Dlg::None;
                        if i < k {
                            n.layers.truncate(k - i);
                        }
                    }
                    Cmd::Unit => n.unit = (m.unit + 1) % 3,
                    Cmd::Sort(_) | Cmd::No => return None,
                    _ => {}
                }
                return Some((n, false));
            }
        }
        let _ = in_table;
        if !self.dialogs && matches!(c, Cmd::Help | Cmd::Quit | Cmd::Back) {
            return None;
        }
        match c {
            Cmd::Help => n.dlg = Dlg::Help,
            Cmd::Quit => n.dlg = Dlg::Quit,
            Cmd::No => return None,
            _ => {}
        }
        if in_table {
            let row = m.table.unwrap();
            match c {
                Cmd::Down => n.table = Some((row + 1).min(self.traces.len() - 1)),
                Cmd::Up => n.table = Some(row.saturating_sub(1)),
                Cmd::Enter => n = self.opened(n, row),
                Cmd::Sort(_) => return None,
                _ => {}
            }
            return Some((n, false));
        }
        let at = m.layers.len() - 1;
        let top = &m.layers[at];
        let order = self.order(m.trace, top);
        let row = order.iter().position(|x| *x == top.sel).unwrap();
        match c {
            Cmd::Down => n.layers[at].sel = order[(row + 1).min(order.len() - 1)],
            Cmd::Up => n.layers[at].sel = order[row.saturating_sub(1)],
            Cmd::Enter => {
                if !top.flat && !self.traces[m.trace].nodes[top.sel].kids.is_empty() {
                    self.push(&mut n, Some(top.sel), false);
                }
            }
            Cmd::Esc => {
                if at > 0 || m.table.is_some() {
                    n.layers.pop();
                }
                if n.layers.is_empty() {
                    n.unit = 0;
                }
            }
            Cmd::Unit => n.unit = (m.unit + 1) % 3,
            Cmd::Flat => {
                let l = n.layers.pop().unwrap();
                self.push(&mut n, l.node, !l.flat);
                // Which one is selected then?
            }
            Cmd::Back => n.dlg = Dlg::Back(0),
            Cmd::Sort(c) => {
                if c >= self.sorts {
                    return None;
                }
                if top.flat && c == 0 {
                    return None;
                }
                let same = top.sort.0 == c;
                let dir = if same { !top.sort.1 } else { m.dirs[c] };
                self.sorted(&mut n, c, dir);
                return Some((n, !same));
            }
            _ => {}
        }
        // In a flat view, the direction is that of another column
        let free = matches!(c, Cmd::Flat) && !top.flat && m.key == 0;
        Some((n, free))
    }
    fn sorted(&self, m: &mut M, c: usize, dir: bool) {
        m.key = c;
        m.dir = dir;
        m.dirs[c] = dir;
        for l in &mut m.layers {
            l.sort = (c, dir);
        }
    }

    fn view_text(&self, m: &M) -> String {
        let l = m.layers.last();
        match l {
            None => format!("table@{:?}", m.table),
            Some(l) => format!(
                "{}{} of {} below {} sorted by {:?} unit {} at {}{}",
                if l.flat { "flat" } else { "hierarchical" },
                if m.layers.len() > 1 { format!(" (level {})", m.layers.len()) } else { String::new() },
                m.trace,
                l.node.map_or("root".into(), |n| self.traces[m.trace].nodes[n].name.clone()),
                l.sort,
                m.unit,
                self.traces[m.trace].nodes[l.sel].name,
                if m.dlg == Dlg::None { String::new() } else { format!(" under {:?}", m.dlg) }
            ),
        }
    }
}

/// What the screen shows
#[derive(Debug)]
pub struct View {
    pub titles: Vec<(String, char)>,
    pub rows: Vec<Vec<String>>,
    pub lit: Vec<usize>,
    pub pane: String,
    pub footer: String,
}
pub fn read(app: &App) -> Result<View, String> {
    let lines = app.screen.lines();
    let sep = lines.iter().position(|l| l.contains("Selected activity")).ok_or("there is no separator")?;
    let mut titles = vec![];
    for t in lines[0].split('╷') {
        let t = t.trim();
        let Some(a) = t.find('[') else { return Err(format!("header {t:?}")) };
        titles.push((t[..a].trim().to_string(), t[a + 1..].chars().next().unwrap_or(' ')));
    }
    let mut rows = vec![];
    let mut lit = vec![];
    for y in 2..sep {
        let cells: Vec<String> = lines[y].split('┆').enumerate().map(|(i, c)| if i + 1 == titles.len() { c.strip_prefix(' ').unwrap_or(c).trim_end_matches([' ', '░', '▒', '█', '│', '|']).to_string() } else { c.trim().to_string() }).collect();
        if cells.iter().all(|c| c.trim().is_empty()) || cells.len() != titles.len() {
            continue;
        }
        if matches!(app.screen.marks[y][0], 2 | 5) {
            lit.push(rows.len());
        }
        rows.push(cells);
    }
    let mut pane: Vec<&str> = lines[sep + 1..].iter().map(|s| s.trim()).filter(|s| !s.is_empty()).collect();
    let footer = match pane.iter().position(|l| l.starts_with("Data from")) {
        Some(k) => pane.split_off(k).join(" "),
        None => String::new(),
    };
    let pane = pane.join(" ");
    Ok(View { titles, rows, lit, pane, footer })
}
/// Do these figures say the same?
fn amount(text: &str, unit: usize, value: u64, norm: u64) -> bool {
    if unit < 2 {
        let Some(p) = text.strip_suffix('%').and_then(|t| t.parse::<f64>().ok()) else { return false };
        return (p - value as f64 * 100.0 / norm as f64).abs() < 0.0051;
    }
    let digits = text.find(|c: char| c.is_alphabetic()).unwrap_or(text.len());
    let Ok(v) = text[..digits].trim().parse::<f64>() else { return false };
    let scale = match text[digits..].trim() {
        "s" => 1e6,
        "ms" => 1e3,
        "µs" | "us" => 1.0,
        _ => return false,
    };
    // As precise as it is written
    let frac = text[..digits].split_once('.').map_or(0, |(_, f)| f.trim().len());
    (v * scale - value as f64).abs() <= 0.51 * scale / 10f64.powi(frac as i32)
}

/// Compare a whole view with what it should be; the sort order may be open
fn compare(w: &World, m: &M, v: &View) -> Result<(), String> {
    let t = &w.traces[m.trace];
    let l = m.layers.last().unwrap();
    let names: Vec<&str> = match (l.flat, m.unit) {
        (false, 0) => vec!["%Total", "Self", "Activity"],
        (false, 1) => vec!["%Parent", "Self", "Activity"],
        (false, _) => vec!["Time", "Self", "Activity"],
        (true, 0) => vec!["Self%Tot", "Activity"],
        (true, 1) => vec!["Self%Par", "Activity"],
        (true, _) => vec!["SelfTime", "Activity"],
    };
    let off = usize::from(l.flat);
    let titles: Vec<&str> = v.titles.iter().map(|t| t.0.as_str()).collect();
    if titles != names {
        return Err(format!("the columns are {titles:?} instead of {names:?}"));
    }
    let order = w.order(m.trace, l);
    for (i, (_, mark)) in v.titles.iter().enumerate() {
        let want = if i + off == l.sort.0 { if l.sort.1 { '^' } else { 'v' } } else { ' ' };
        if *mark != want {
            return Err(format!("column {} is marked {mark:?} instead of {want:?}", names[i]));
        }
    }
    if v.rows.len() != order.len() {
        return Err(format!("there are {} rows instead of {}", v.rows.len(), order.len()));
    }
    let norm = match (m.unit, l.node) {
        (1, Some(n)) => t.nodes[n].total,
        _ => t.total(),
    };
    for (i, (n, cells)) in order.iter().zip(&v.rows).enumerate() {
        let node = &t.nodes[*n];
        let mut figures = vec![];
        if !l.flat {
            figures.push(node.total);
        }
        figures.push(node.own);
        for (k, f) in figures.iter().enumerate() {
            if !amount(&cells[k], m.unit, *f, norm) {
                return Err(format!("row {i} ({}) shows {:?} for {f} µs of {norm} µs", node.name, cells[k]));
            }
        }
        let want = if l.flat { node.name.clone() } else { format!("{}{}", if node.kids.is_empty() { ' ' } else { '+' }, node.name) };
        let got = &cells[figures.len()];
        let fits = want.chars().count() <= w.cols as usize - 13 * figures.len() - 8;
        if *got != want && (fits || !got.contains('…')) {
            return Err(format!("row {i} shows {got:?} instead of {want:?}"));
        }
    }
    let row = order.iter().position(|x| *x == l.sel).unwrap();
    if v.lit != [row] {
        return Err(format!("rows {:?} are highlighted instead of row {row}", v.lit));
    }
    if v.pane != t.nodes[l.sel].name {
        return Err(format!("the description is {:?} instead of {:?}", v.pane, t.nodes[l.sel].name));
    }
    if !v.footer.contains(&format!("clang{}", m.trace)) || !v.footer.contains("pid 7") {
        return Err(format!("the footer is {:?}", v.footer));
    }
    Ok(())
}

pub fn dialog(app: &App) -> Option<&'static str> {
    if app.screen.has("Available commands") {
        Some("Help")
    } else if app.screen.has("Ready to quit?") {
        Some("Quit")
    } else if app.screen.has("┤ Backtrace ├") {
        Some("Back")
    } else if app.screen.has("<Ok>") || app.screen.has("Processing time trace") {
        Some("other")
    } else {
        None
    }
}

fn check(w: &World, m: &M, app: &App) -> Result<(), String> {
    let d = dialog(app);
    let want = match m.dlg {
        Dlg::None => None,
        Dlg::Help => Some("Help"),
        Dlg::Quit => Some("Quit"),
        Dlg::Back(_) => Some("Back"),
    };
    if d != want {
        return Err(format!("the dialog is {d:?} instead of {want:?}"));
    }
    if let Dlg::Back(i) = m.dlg {
        let y = (0..app.screen.rows).find(|&y| app.screen.row(y).iter().collect::<String>().contains("┤ Backtrace ├")).unwrap();
        let row: Vec<char> = app.screen.row(y).to_vec();
        let t = row.iter().position(|c| *c == '┤').unwrap();
        let x0 = row[..t].iter().rposition(|c| *c == '┌').ok_or("no frame")?;
        let x1 = t + row[t..].iter().position(|c| *c == '┐').ok_or("no frame")?;
        let mut got = vec![];
        let mut lit = None;
        for y in y + 1..app.screen.rows {
            let s: String = app.screen.row(y)[x0 + 1..x1].iter().collect();
            if s.contains("<Ok>") {
                break;
            }
            if s.trim().is_empty() {
                continue;
            }
            if app.screen.marks[y][x0 + 2] & 0x80 != 0 || app.screen.marks[y][x0 + 2] == 2 {
                lit = Some(got.len());
            }
            got.push(s.trim().to_string());
        }
        let want: Vec<String> =
            m.layers.iter().rev().map(|l| l.node.map_or("<profile root>".to_string(), |n| w.traces[m.trace].nodes[n].name.clone())).collect();
        if got != want {
            return Err(format!("the backtrace is {got:?} instead of {want:?}"));
        }
        if i < m.layers.len() && lit.is_some() && lit != Some(i) {
            return Err(format!("entry {lit:?} of the backtrace is highlighted instead of {i}"));
        }
        return Ok(());
    }
    if d.is_some() {
        return Ok(());
    }
    if m.layers.is_empty() {
        let lines = app.screen.lines();
        if !lines[0].contains("Source file") {
            return Err("the table of files is not shown".into());
        }
        let ys: Vec<usize> = (2..app.screen.rows).filter(|&y| lines[y].contains(".cpp")).collect();
        let lit: Vec<usize> = ys.iter().enumerate().filter(|(_, &y)| matches!(app.screen.marks[y][0], 2 | 5)).map(|x| x.0).collect();
        if ys.len() != w.traces.len() || lit != [m.table.unwrap()] {
            return Err(format!("file {lit:?} of {} is highlighted instead of {:?}", ys.len(), m.table));
        }
        return Ok(());
    }
    compare(w, m, &read(app)?)
}

fn keys(c: Cmd, flat: bool) -> String {
    match c {
        Cmd::Down => "\x1b[B".into(),
        Cmd::Up => "\x1b[A".into(),
        Cmd::Enter => "\r".into(),
        Cmd::Esc => "\x1b".into(),
        Cmd::Unit => "u".into(),
        Cmd::Flat => "f".into(),
        Cmd::Back => "b".into(),
        Cmd::Help => "h".into(),
        Cmd::Quit => "q".into(),
        Cmd::No => "\x1b[C\r".into(),
        // Choose the column, and leave the choice of columns
        Cmd::Sort(c) => format!("\x1b[C\x1b[D\x1b[D\x1b[D{}\r\x1b[B", "\x1b[C".repeat(c - usize::from(flat))),
    }
}

pub fn launch(w: &World, base: &Path, worker: usize) -> Result<App, String> {
    let _ = std::fs::remove_dir_all(base);
    let dir = base.join("d");
    let ctl = base.join("c");
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::create_dir_all(ctl.join("bin")).unwrap();
    std::os::unix::fs::symlink(std::env::current_exe().unwrap(), ctl.join("bin/clang++")).unwrap();
    let mut db = vec![];
    let mut csv = "file,max_rss,time\n".to_string();
    for (i, t) in w.traces.iter().enumerate() {
        let src = dir.join(format!("{i}.cpp"));
        std::fs::write(&src, "").unwrap();
        csv += &format!("{i}.cpp,{},\n", 1_000_000_000 - i * 100_000_000);
        db.push(json!({"directory": dir.to_str().unwrap(), "command": format!("cc -o {i}.o -c {i}.cpp"), "file": src.to_str().unwrap()}));
        std::fs::write(dir.join(format!("{i}.json")), t.json(&format!("clang{i}"))).unwrap();
    }
    std::fs::write(dir.join("compile_commands.json"), json!(db).to_string()).unwrap();
    std::fs::write(dir.join("cmakeperf.csv"), csv).unwrap();
    for i in 0..w.traces.len() {
        touch(&dir.join(format!("{i}.json")));
    }
    touch(&dir.join("cmakeperf.csv"));
    let mut app =
        App::start(&Setup { dir: &dir, ctl: &ctl, args: if w.table { &[] } else { &["0.json"] }, cols: w.cols, rows: w.rows, hold: false, reads: None, cpu: worker });
    app.wait_until(Duration::from_secs(20), |a| a.ended() || a.screen.has("Press H for help"));
    app.settle();
    crash(&app)?;
    Ok(app)
}
pub fn touch(p: &Path) {
    let _ = std::fs::File::options().write(true).open(p).and_then(|f| f.set_modified(std::time::SystemTime::now()));
}
pub fn crash(app: &App) -> Result<(), String> {
    match app.ended() {
        true => Err(format!("the program ended ({}): {}", app.status.unwrap(), app.stderr().lines().filter(|l| l.contains("panicked") || l.contains("src/")).collect::<Vec<_>>().join(" "))),
        false => Ok(()),
    }
}
fn quit(app: &mut App) -> Result<(), String> {
    app.key("\x1b");
    app.settle_for(Duration::from_millis(250), Duration::from_secs(2));
    app.key("q");
    app.wait_until(Duration::from_secs(10), |a| a.ended() || a.screen.has("Ready to quit?"));
    app.settle_for(Duration::from_millis(40), Duration::from_secs(2));
    app.key("\r");
    if !app.wait_until(Duration::from_secs(15), |a| a.ended()) {
        return Err(format!("the program does not end:\n{}", app.screen.text()));
    }
    if !app.status.unwrap().success() || app.stderr().contains("panicked") {
        return crash(app);
    }
    Ok(())
}

struct Plan {
    /// Commands that were tried or are being tried, by state
    done: HashSet<(M, Cmd)>,
    states: HashSet<M>,
}

/// Shortest way to a command that nobody has tried yet
fn next(w: &World, plan: &Plan, from: &M) -> Option<Vec<Cmd>> {
    let mut seen: HashMap<M, (M, Cmd)> = HashMap::new();
    let mut queue = VecDeque::from([from.clone()]);
    while let Some(m) = queue.pop_front() {
        for c in CMDS {
            let Some((n, _)) = w.step(&m, c) else { continue };
            if !plan.done.contains(&(m.clone(), c)) {
                let mut path = vec![c];
                let mut at = m.clone();
                while at != *from {
                    let (p, c) = &seen[&at];
                    path.push(*c);
                    at = p.clone();
                }
                path.reverse();
                return Some(path);
            }
            if n != *from && !seen.contains_key(&n) {
                seen.insert(n.clone(), (m.clone(), c));
                queue.push_back(n);
            }
        }
    }
    None
}

/// Carry out a command and compare
fn carry_out(w: &World, m: &M, c: Cmd, app: &mut App, base: &Path) -> Result<M, String> {
    let (mut n, free) = w.step(m, c).ok_or("not applicable")?;
    if m.layers.is_empty() && c == Cmd::Enter {
        for i in 0..w.traces.len() {
            touch(&base.join(format!("d/{i}.json")));
        }
    }
    let before = app.screen.text();
    let same_screen = check(w, &n, app).is_ok();
    app.key(&keys(c, m.layers.last().is_some_and(|l| l.flat)));
    if same_screen {
        app.settle_for(Duration::from_millis(90), Duration::from_secs(2));
    }
    if c == Cmd::Esc {
        // Terminals and programs tell Esc from other keys by what follows
        app.settle_for(Duration::from_millis(40), Duration::from_secs(1));
    }
    let mut alternatives = vec![n.clone()];
    if free {
        let mut other = n.clone();
        if let Cmd::Sort(k) = c {
            w.sorted(&mut other, k, !n.dir);
        } else if let Some(l) = other.layers.last_mut() {
            l.sort.1 = !l.sort.1;
            let sel = w.order(other.trace, other.layers.last().unwrap())[0];
            other.layers.last_mut().unwrap().sel = sel;
        }
        alternatives.push(other);
    }
    if c == Cmd::Flat && m.dlg == Dlg::None && !m.layers.is_empty() {
        // Which activity is selected after switching is open
        for a in alternatives.clone() {
            for s in w.order(a.trace, a.layers.last().unwrap()) {
                let mut b = a.clone();
                b.layers.last_mut().unwrap().sel = s;
                if !alternatives.contains(&b) {
                    alternatives.push(b);
                }
            }
        }
    }
    let ok = app.wait_until(Duration::from_secs(8), |a| a.ended() || alternatives.iter().any(|x| check(w, x, a).is_ok()));
    crash(app)?;
    if ok {
        n = alternatives.into_iter().find(|x| check(w, x, app).is_ok()).unwrap();
    } else {
        let why = check(w, &n, app).err().unwrap_or_default();
        return Err(format!("{why}\nbefore:\n{before}\nafter {c:?}:\n{}", app.screen.text()));
    }
    Ok(n)
}

fn tour(w: &World, ck: &Ck, plan: &Mutex<Plan>, worker: usize, limit: f64, max_len: usize) {
    let base = scratch().join(format!("w{worker}"));
    'session: loop {
        let mut log: Vec<Cmd> = vec![];
        let mut m = w.start();
        {
            let p = plan.lock().unwrap();
            if next(w, &p, &m).is_none() {
                return;
            }
        }
        let mut app = match launch(w, &base, worker) {
            Ok(a) => a,
            Err(e) => {
                ck.violation(&format!("{}: start", w.name), &e);
                return;
            }
        };
        if let Err(e) = check(w, &m, &app) {
            ck.violation(&format!("{}: first view", w.name), &format!("{e}\n{}", app.screen.text()));
            return;
        }
        ck.traces(1);
        while log.len() < max_len {
            if ck.elapsed() > limit {
                ck.not_exhaustive("time budget of the tier");
                return;
            }
            if ck.has_violations() {
                return;
            }
            let goal;
            let path = {
                let mut p = plan.lock().unwrap();
                p.states.insert(m.clone());
                let Some(path) = next(w, &p, &m) else { break };
                let mut at = m.clone();
                for c in &path[..path.len() - 1] {
                    at = w.step(&at, *c).unwrap().0;
                }
                goal = (at, path[path.len() - 1]);
                p.done.insert(goal.clone());
                path
            };
            for c in path {
                let reached = (&m, &c) == (&goal.0, &goal.1);
                log.push(c);
                match carry_out(w, &m, c, &mut app, &base) {
                    Ok(n) => {
                        ck.transitions(1);
                        ck.state(&(w.name, &n));
                        let predicted = w.step(&m, c).unwrap().0;
                        m = n;
                        if m != predicted {
                            // The rest of the plan does not apply
                            ck.bump("directions_adopted", 1);
                            if !reached {
                                plan.lock().unwrap().done.remove(&goal);
                            }
                            break;
                        }
                    }
                    Err(e) => {
                        // Does it happen again, on its own?
                        drop(app);
                        let tail = confirm(w, &log, &base, worker);
                        match tail {
                            Some((log, e)) => {
                                ck.violation(&format!("{}: {:?}", w.name, log), &format!("from {}: {e}", w.view_text(&m)));
                            }
                            None => {
                                ck.bump("not_reproduced", 1);
                                println!("not reproduced: {}: {log:?}: {e}", w.name);
                            }
                        }
                        continue 'session;
                    }
                }
            }
        }
        ck.sample(|| json!({"world": w.name, "commands": format!("{log:?}")}));
        if let Err(e) = quit(&mut app) {
            ck.violation(&format!("{}: {log:?} and quitting", w.name), &e);
        }
    }
}

/// Repeat a session; a short way to the same failure is better
fn confirm(w: &World, log: &[Cmd], base: &Path, worker: usize) -> Option<(Vec<Cmd>, String)> {
    let run = |cmds: &[Cmd]| -> Option<(usize, String)> {
        let mut m = w.start();
        let mut app = launch(w, base, worker).ok()?;
        for (i, c) in cmds.iter().enumerate() {
            if w.step(&m, *c).is_none() {
                continue;
            }
            match carry_out(w, &m, *c, &mut app, base) {
                Ok(n) => m = n,
                Err(e) => return Some((i, e)),
            }
        }
        None
    };
    // Only the last few commands, from the start
    for k in 1..=5.min(log.len()) {
        let part = &log[log.len() - k..];
        if let Some((i, e)) = run(part) {
            return Some((part[..=i].to_vec(), e));
        }
    }
    let (i, e) = run(log)?;
    Some((log[..=i].to_vec(), e))
}

// ---- Raw keys ----

pub const RAW: [(&str, &str); 16] = [
    ("Down", "\x1b[B"),
    ("Right", "\x1b[C"),
    ("Enter", "\r"),
    ("f", "f"),
    ("u", "u"),
    ("Left", "\x1b[D"),
    ("Esc", "\x1b"),
    ("b", "b"),
    ("Up", "\x1b[A"),
    ("Tab", "\t"),
    ("q", "q"),
    ("h", "h"),
    ("End", "\x1b[F"),
    ("PgUp", "\x1b[5~"),
    ("PgDn", "\x1b[6~"),
    ("Home", "\x1b[H"),
];

/// Is the screen a truthful view of some activity?
pub fn truthful(w: &World, app: &App) -> Result<String, String> {
    if let Some(d) = dialog(app) {
        return Ok(d.into());
    }
    let lines = app.screen.lines();
    if lines[0].contains("Source file") && w.table {
        return Ok("table".into());
    }
    let v = read(app)?;
    let names: Vec<&str> = v.titles.iter().map(|t| t.0.as_str()).collect();
    let (flat, unit) = match names[..] {
        ["%Total", "Self", "Activity"] => (false, 0),
        ["%Parent", "Self", "Activity"] => (false, 1),
        ["Time", "Self", "Activity"] => (false, 2),
        ["Self%Tot", "Activity"] => (true, 0),
        ["Self%Par", "Activity"] => (true, 1),
        ["SelfTime", "Activity"] => (true, 2),
        _ => return Err(format!("the columns are {names:?}")),
    };
    let marked: Vec<usize> = v.titles.iter().enumerate().filter(|t| t.1 .1 != ' ').map(|t| t.0).collect();
    let [col] = marked[..] else { return Err(format!("{} columns are marked as sorted", marked.len())) };
    let sort = (col + usize::from(flat), v.titles[col].1 == '^');
    let [lit] = v.lit[..] else { return Err(format!("{} rows are highlighted", v.lit.len())) };
    let mut why = String::new();
    for (trace, t) in w.traces.iter().enumerate() {
        let places = std::iter::once(None).chain((0..t.nodes.len()).filter(|n| !t.nodes[*n].kids.is_empty()).map(Some));
        for node in places {
            let mut l = Layer { flat, node, sel: 0, sort };
            let order = w.order(trace, &l);
            if order.len() != v.rows.len() {
                continue;
            }
            l.sel = order[lit];
            let m = M { trace, table: None, layers: vec![l], key: sort.0, dir: sort.1, dirs: [false; 3], unit, dlg: Dlg::None };
            match compare(w, &m, &v) {
                Ok(()) => return Ok(w.view_text(&m)),
                Err(e) => {
                    if why.is_empty() || node.is_some_and(|n| v.rows.iter().any(|r| r.last().unwrap().contains(&t.nodes[t.nodes[n].kids[0]].name))) {
                        why = e
                    }
                }
            }
        }
    }
    Err(format!("this is no view of the trace: {why}"))
}

/// Sequence that has every word of a given length as a part
pub fn de_bruijn(k: usize, n: usize) -> Vec<usize> {
    fn db(t: usize, p: usize, a: &mut Vec<usize>, k: usize, n: usize, out: &mut Vec<usize>) {
        if t > n {
            if n % p == 0 {
                out.extend_from_slice(&a[1..=p]);
            }
        } else {
            a[t] = a[t - p];
            db(t + 1, p, a, k, n, out);
            for j in a[t - p] + 1..k {
                a[t] = j;
                db(t + 1, t, a, k, n, out);
            }
        }
    }
    let mut out = vec![];
    db(1, 1, &mut vec![0; k * n + 1], k, n, &mut out);
    let head: Vec<usize> = out[..n - 1].to_vec();
    out.extend(head);
    out
}

fn raw_session(w: &World, ck: &Ck, seq: &[usize], base: &Path, worker: usize) -> Result<(), (Vec<usize>, String)> {
    let mut log: Vec<usize> = vec![];
    let mut app = launch(w, base, worker).map_err(|e| (vec![], e))?;
    for &k in seq {
        // This would quit
        let mut k = k;
        if dialog(&app) == Some("Quit") && (RAW[k].0 == "Enter") {
            k = 6;
        }
        if w.table {
            for i in 0..w.traces.len() {
                touch(&base.join(format!("d/{i}.json")));
            }
        }
        log.push(k);
        app.key(RAW[k].1);
        app.settle_for(Duration::from_millis(75), Duration::from_secs(3));
        let mut now = truthful(w, &app);
        if now.is_err() {
            app.wait_until(Duration::from_secs(8), |a| a.ended() || truthful(w, a).is_ok());
            now = truthful(w, &app);
        }
        ck.transitions(1);
        if let Err(e) = crash(&app) {
            return Err((log, e));
        }
        match now {
            Ok(text) => {
                ck.state(&(w.name, text));
            }
            Err(e) => return Err((log, format!("{e}\n{}", app.screen.text()))),
        }
    }
    Ok(())
}

fn raw(w: &World, ck: &Ck, order: usize, alphabet: usize, workers: usize, limit: f64) {
    let seq = de_bruijn(alphabet, order);
    const CHUNK: usize = 60;
    let jobs: Vec<&[usize]> = (0..seq.len()).step_by(CHUNK).map(|a| &seq[a..(a + CHUNK + order - 1).min(seq.len())]).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for worker in 0..workers {
            let (jobs, next) = (&jobs, &next);
            s.spawn(move || {
                let base = scratch().join(format!("w{worker}"));
                loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    let Some(seq) = jobs.get(i) else { return };
                    if ck.elapsed() > limit {
                        return ck.not_exhaustive("time budget of the tier");
                    }
                    ck.traces(1);
                    if let Err((log, e)) = raw_session(w, ck, seq, &base, worker) {
                        let names = |l: &[usize]| l.iter().map(|k| RAW[*k].0).collect::<Vec<_>>().join(" ");
                        let mut tries: Vec<&[usize]> = (1..=5.min(log.len())).map(|k| &log[log.len() - k..]).collect();
                        tries.push(&log);
                        let again = tries.into_iter().find_map(|t| raw_session(w, ck, t, &base, worker).err());
                        match again {
                            Some((log, e)) => ck.violation(&format!("{} keys: {}", w.name, names(&log)), &e),
                            None => {
                                ck.bump("not_reproduced", 1);
                                println!("not reproduced: {}: {}: {e}", w.name, names(&log));
                            }
                        }
                    }
                }
            });
        }
    });
    ck.note(&format!("raw {}", w.name), json!({"keys": alphabet, "word_length": order, "sequence": seq.len()}));
}

pub fn tiny() -> Tree {
    Tree::new(vec![T("ParseClass(A)", 300, vec![T("Source(/usr/x.h)", 150, vec![]), T("CodeGen Function(f)", 310, vec![])]), T("Frontend", 3000, vec![])])
}
pub fn small() -> Tree {
    Tree::new(vec![
        T("ParseClass(A)", 300, vec![T("ParseClass(A1)", 250, vec![T("Source(/usr/x.h)", 150, vec![])]), T("CodeGen Function(ns::fun(int))", 310, vec![])]),
        T("Frontend", 3000, vec![]),
    ])
}
pub fn medium() -> Tree {
    Tree::new(vec![
        T("Frontend", 120, vec![
            T("Source(/a/b/c.h)", 70, vec![T("ParseClass(X)", 33, vec![T("ParseClass(Y)", 1500, vec![])]), T("ParseClass(Z)", 900, vec![])]),
            T("InstantiateFunction(f<int>)", 2100, vec![T("InstantiateClass(std::vector<int>)", 41, vec![])]),
            T("ParseClass(Q)", 5, vec![]),
        ]),
        T("Backend", 20, vec![T("OptModule(a.cpp)", 810, vec![T("OptFunction(main)", 640, vec![])])]),
        T("ExecuteCompiler", 1, vec![]),
    ])
}

pub fn run() {
    let ck = Ck::new("C25");
    ck.case_timeout(900);
    let limit = ck.pick(600.0, 3000.0);
    let workers = std::env::var("MC_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(24);
    let only = std::env::var("MC_ONLY").ok();
    let world = |name, traces: Vec<Tree>, sorts, dialogs| World { name, table: traces.len() > 1, traces, cols: 90, rows: 32, sorts, dialogs };
    let other = || Tree::new(vec![T("Backend", 7000, vec![T("OptModule(b.cpp)", 1000, vec![])])]);
    let mut worlds = vec![world("dialogs", vec![tiny()], ck.pick(1, 3), true)];
    if ck.thorough() {
        worlds.push(world("views", vec![small()], 3, true));
        worlds.push(world("two traces", vec![small(), other()], 3, false));
        worlds.push(world("two traces, dialogs", vec![tiny(), other()], 2, true));
        worlds.push(world("larger trace", vec![medium()], 3, false));
        worlds.push(world("larger trace, dialogs", vec![medium()], 1, true));
    } else {
        worlds.push(world("views", vec![small()], 3, false));
        worlds.push(world("two traces", vec![tiny(), other()], 2, false));
    }
    if std::env::var("MC_COUNT").is_ok() {
        for w in &worlds {
            let mut seen = HashSet::from([w.start()]);
            let mut todo = vec![w.start()];
            let mut edges = 0;
            while let Some(m) = todo.pop() {
                for c in CMDS {
                    if let Some((n, _)) = w.step(&m, c) {
                        edges += 1;
                        if seen.insert(n.clone()) {
                            todo.push(n);
                        }
                    }
                }
            }
            println!("{}: {} states, {edges} commands", w.name, seen.len());
        }
        crate::done(ck)
    }
    for w in &worlds {
        if only.as_ref().is_some_and(|o| !w.name.contains(o.as_str())) {
            continue;
        }
        let plan = Mutex::new(Plan { done: HashSet::new(), states: HashSet::new() });
        std::thread::scope(|s| {
            for worker in 0..workers {
                let (w, plan) = (&w, &plan);
                s.spawn(move || tour(w, ck, plan, worker, limit, 150));
            }
        });
        let p = plan.lock().unwrap();
        ck.note(&format!("tour {}", w.name), json!({"states_visited": p.states.len(), "commands_in_states": p.done.len(), "until_s": ck.elapsed()}));
        println!("{:.1}s {}: {} states, {} commands in them", ck.elapsed(), w.name, p.states.len(), p.done.len());
    }
    if only.as_ref().map_or(true, |o| "raw".contains(o.as_str())) {
        let (order, alphabet) = ck.pick((3, 13), (4, 13));
        raw(&worlds[1], ck, order, alphabet, workers, limit);
        raw(&worlds[2], ck, 2, 16, workers, limit);
        println!("{:.1}s raw keys", ck.elapsed());
    }
    if only.as_ref().map_or(true, |o| "edges".contains(o.as_str())) {
        crate::c25e::run(ck, workers, limit);
        println!("{:.1}s unusual traces and terminals", ck.elapsed());
    }
    crate::done(ck)
}
