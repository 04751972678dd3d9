//! C21: labels shortened to the width of the terminal
use crate::*;

/// Graphemes the generated labels are made of, with their width in columns
const ALPHABET: &[(&str, usize)] = &[
    ("a", 1),
    ("B", 1),
    ("日", 2),
    ("e\u{301}", 1),
    ("é", 1),
    ("👩", 2),
    (" ", 1),
    (".", 1),
    ("\n", 1),
    ("\u{1b}", 1),
];

/// Control characters are displayed as spaces
fn shown(s: &str) -> String {
    s.replace(char::is_control, " ")
}

/// Text made of known graphemes
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Text(Vec<(String, usize)>);
impl Text {
    fn ascii(s: &str) -> Self {
        assert!(s.is_ascii());
        Text(s.chars().map(|c| (c.to_string(), 1)).collect())
    }
    fn of(tokens: &[usize]) -> Self {
        Text(tokens.iter().map(|&t| (ALPHABET[t].0.to_string(), ALPHABET[t].1)).collect())
    }
    fn width(&self) -> usize {
        self.0.iter().map(|g| g.1).sum()
    }
    /// As it should be displayed
    fn text(&self) -> String {
        shown(&self.raw())
    }
    /// As it is in the trace
    fn raw(&self) -> String {
        self.0.iter().map(|g| &g.0[..]).collect()
    }
    /// Width of a text that was cut out of known ones
    fn measure(s: &str) -> Option<usize> {
        let mut s = s;
        let mut n = 0;
        while let Some(c) = s.chars().next() {
            if let Some((g, w)) = ALPHABET.iter().find(|(g, _)| g.len() > 1 && s.starts_with(g)) {
                n += w;
                s = &s[g.len()..];
            } else if c.is_ascii_graphic() || c == ' ' || "…µ├└─│".contains(c) {
                n += 1;
                s = &s[c.len_utf8()..];
            } else {
                return None;
            }
        }
        Some(n)
    }
}

/// What an activity is about
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Arg {
    None,
    Plain(Text),
    /// Components of an absolute path, without the root
    Path(Vec<Text>),
    /// C++ entity whose full spelling is its own canonical form
    Entity(String),
}
#[derive(Clone, Debug)]
struct Label {
    name: &'static str,
    arg: Arg,
}
impl Label {
    fn detail(&self) -> Option<String> {
        match &self.arg {
            Arg::None => None,
            Arg::Plain(t) => Some(t.raw()),
            Arg::Path(c) if c.is_empty() => Some("/".into()),
            Arg::Path(c) => Some(c.iter().map(|c| format!("/{}", c.raw())).collect()),
            Arg::Entity(e) => Some(e.clone()),
        }
    }
    fn full(&self) -> String {
        match self.detail() {
            None => self.name.into(),
            Some(d) => format!("{}({})", self.name, shown(&d)),
        }
    }
}
fn full_path(c: &[Text]) -> String {
    if c.is_empty() {
        return "/".into();
    }
    c.iter().map(|c| format!("/{}", c.text())).collect()
}

fn width(s: &str) -> usize {
    Text::measure(s).unwrap_or_else(|| panic!("splits a character: {s:?}"))
}

/// Is `s` the begin and end of the text, with the middle replaced by an
/// ellipsis so that it fits, without wasting space?
fn middle_elided(s: &str, t: &Text, cols: usize) -> Outcome {
    let n = t.0.len();
    ensure!(width(s) <= cols, "{s:?} does not fit in {cols} columns");
    ensure!(t.width() > cols, "{s:?} is shortened although it fits in {cols} columns");
    // Try every way to cut the text
    let mut reason = "is not made of the beginning and end of the original";
    for front in 0..=n {
        let head: String = t.0[..front].iter().map(|g| shown(&g.0)).collect();
        let Some(rest) = s.strip_prefix(&head[..]).and_then(|r| r.strip_prefix('…')) else { continue };
        for back in front..=n {
            let tail: String = t.0[back..].iter().map(|g| shown(&g.0)).collect();
            if rest != tail {
                continue;
            }
            let (hw, tw): (usize, usize) = (t.0[..front].iter().map(|g| g.1).sum(), t.0[back..].iter().map(|g| g.1).sum());
            // Neither neighbour fits on its own
            let used = hw + tw + 1;
            if front < back && used + t.0[front].1 <= cols && used + t.0[back - 1].1 <= cols {
                reason = "wastes space";
                continue;
            }
            // Balanced, up to wide characters that do not fit
            if hw.abs_diff(tw) > 3 {
                reason = "keeps much more of one end than of the other";
                continue;
            }
            return Ok(());
        }
    }
    Err(format!("{s:?} ({} of {:?} in {cols} columns)", reason, t.text()))
}

/// Check a path that is displayed in this many columns
fn check_path(s: &str, c: &[Text], cols: usize) -> Outcome {
    let full = full_path(c);
    let full_width = if c.is_empty() { 1 } else { c.iter().map(|c| c.width() + 1).sum::<usize>() };
    if full_width <= cols {
        ensure!(s == full, "path {full:?} is displayed as {s:?} although it fits in {cols} columns");
        return Ok(());
    }
    let Some(file) = c.last() else { return Err("the root always fits".into()) };
    ensure!(width(s) <= cols, "path {full:?} is displayed as {s:?}, more than {cols} columns");
    if file.width() + 2 <= cols {
        // Whole components from the front and from the back, including the file name
        for front in 0..=c.len() {
            for back in 1..=c.len() {
                // `front` counts the root
                if front + back > c.len() {
                    continue;
                }
                let mut want = String::new();
                let mut used = 1;
                if front > 0 {
                    want.push('/');
                    used += 1;
                }
                for c in &c[..front.saturating_sub(1)] {
                    want += &format!("{}/", c.text());
                    used += c.width() + 1;
                }
                want.push('…');
                for c in &c[c.len() - back..] {
                    want += &format!("/{}", c.text());
                    used += c.width() + 1;
                }
                if want != s {
                    continue;
                }
                // Neither neighbour fits as well
                let left = c.len() + 1 - front - back;
                if left > 1 {
                    let next_front = if front == 0 { 1 } else { c[front - 1].width() + 1 };
                    let next_back = c[c.len() - back - 1].width() + 1;
                    ensure!(used + next_front > cols || used + next_back > cols, "path {full:?} is displayed as {s:?}, which wastes space in {cols} columns");
                }
                return Ok(());
            }
        }
        return Err(format!("path {full:?} is displayed as {s:?} in {cols} columns"));
    }
    if s == "…" {
        ensure!(cols < 17, "path {full:?} is not displayed at all in {cols} columns");
        return Ok(());
    }
    let Some(rest) = s.strip_prefix("…/") else { return Err(format!("path {full:?} is displayed as {s:?} in {cols} columns")) };
    middle_elided(rest, file, cols - 2).map_err(|e| format!("file name: {e}"))
}

/// Check the argument of an activity that is displayed in this many columns
fn check_arg(s: &str, arg: &Arg, cols: usize) -> Outcome {
    match arg {
        Arg::None => Err("argument out of nowhere".into()),
        Arg::Plain(t) => {
            if t.width() <= cols {
                ensure!(s == t.text(), "{:?} is displayed as {s:?} although it fits in {cols} columns", t.text());
                return Ok(());
            }
            middle_elided(s, t, cols)
        }
        Arg::Path(c) => check_path(s, c, cols),
        Arg::Entity(e) => {
            if e.len() <= cols {
                ensure!(s == e, "{e:?} is displayed as {s:?} although it fits in {cols} columns");
            } else {
                ensure!(width(s) <= cols, "{e:?} is displayed as {s:?}, more than {cols} columns");
                ensure!(s.contains('…'), "{e:?} is displayed as {s:?} without an ellipsis");
            }
            Ok(())
        }
    }
}

/// Check an activity with profiling information `trailer` in `cols` columns
fn check_activity(s: &str, l: &Label, trailer: &str, cols: usize) -> Outcome {
    ensure!(width(s) <= cols, "{s:?} takes more than {cols} columns");
    let min = l.name.len() + if l.arg == Arg::None { 0 } else { 3 };
    let tw = width(trailer);
    let (body, room) = if min + tw <= cols {
        (
            s.strip_suffix(trailer).ok_or_else(|| format!("{s:?} lacks {trailer:?} although there is room for it in {cols} columns"))?,
            cols - tw,
        )
    } else if min <= cols {
        (s, cols)
    } else {
        ensure!(s == "…", "{s:?} is displayed for {:?} in {cols} columns", l.full());
        return Ok(());
    };
    if l.arg == Arg::None {
        ensure!(body == l.name, "{body:?} is displayed for {:?}", l.name);
        return Ok(());
    }
    let arg = body
        .strip_prefix(l.name)
        .and_then(|b| b.strip_prefix('('))
        .and_then(|b| b.strip_suffix(')'))
        .ok_or_else(|| format!("{body:?} is displayed for {:?} in {room} columns", l.full()))?;
    check_arg(arg, &l.arg, room - l.name.len() - 2)
}

/// Labels in one trace, by decreasing duration
fn labels_case(ck: &Ck, name: &str, labels: &[Label], widths: &[usize], scale: usize) {
    let n = labels.len();
    let durations: Vec<usize> = (0..n).map(|i| (n - i) * scale).collect();
    let items = labels.iter().zip(&durations).map(|(l, d)| (l.name.to_string(), l.detail(), d.to_string())).collect();
    let text = trace_text(&flat(items), &Meta::default());
    let args = |w: usize| ["-s", "0", "-i", "0", "-c"].into_iter().map(String::from).chain([w.to_string()]).collect::<Vec<_>>();
    let run = |w: usize| {
        let a = args(w);
        report(&text, &a.iter().map(|s| &s[..]).collect::<Vec<_>>())
    };
    // The profiling information of each line, from a display that is wide enough
    let mut flat_trailers: Vec<String> = vec![];
    let mut tree_trailers: Vec<String> = vec![];
    let ok = ck.case(&format!("{name}, full width"), || {
        let r = run(65_000)?;
        let s = sections(&r)?;
        for (what, lines, trailers, root) in [("flat profile", &s.flat, &mut flat_trailers, false), ("tree", &s.tree, &mut tree_trailers, true)] {
            let mut it = labels.iter();
            for (i, line) in lines.iter().enumerate() {
                let body = line.strip_prefix("- ").unwrap_or_else(|| line.trim_start_matches(['├', '└', '─']));
                let (l, d, p) = split_line(body).ok_or_else(|| format!("{what}: unreadable line {line:?}"))?;
                if l == "ExecuteCompiler" {
                    if root {
                        ensure!(i == 0, "{what}: {line:?} is not the root");
                        trailers.push(format!(" [{d}, {p}%]"));
                    }
                    continue;
                }
                let want = it.next().ok_or_else(|| format!("{what}: superfluous line {line:?}"))?;
                ensure!(want.full() == l, "{what}: {l:?} is displayed instead of {:?}", want.full());
                trailers.push(format!(" [{d}, {p}%]"));
            }
            ensure!(it.next().is_none(), "{what}: lines are missing");
        }
        Ok(())
    });
    if !ok {
        return;
    }
    let widths: Vec<usize> = widths.to_vec();
    ck.par(&widths, |_, &w| {
        ck.case(&format!("{name}, {w} columns"), || {
            let r = run(w)?;
            let s = sections(&r)?;
            for l in &s.metadata {
                ensure!(width(l) <= w, "description {l:?} takes more than {w} columns");
            }
            // The bullet is left out when there is no room for it
            let (bullet, room) = if w > 2 { ("- ", w - 2) } else { ("", w) };
            let mut it = labels.iter().zip(&flat_trailers);
            let mut root_seen = false;
            let root = Label { name: "ExecuteCompiler", arg: Arg::None };
            ensure!(s.flat.len() == n + 1, "flat profile has {} lines for {} activities", s.flat.len(), n + 1);
            for line in &s.flat {
                let body = line.strip_prefix(bullet).ok_or_else(|| format!("flat profile: unreadable line {line:?}"))?;
                // Somewhere among them is the root, whose own time is not known here
                if !root_seen && body.starts_with("ExecuteCompiler") {
                    root_seen = true;
                    ensure!(width(body) <= room, "{line:?} takes more than {w} columns");
                    continue;
                }
                let Some((l, t)) = it.next() else {
                    ensure!(!root_seen && body == "…", "flat profile: superfluous line {line:?}");
                    root_seen = true;
                    continue;
                };
                if let Err(e) = check_activity(body, l, t, room) {
                    // Possibly the root, as an ellipsis
                    if !root_seen && body == "…" {
                        root_seen = true;
                        ensure!(room < root.name.len(), "flat profile: {e}");
                        // Resume with the same label on the next line
                        it = labels[n - it.len() - 1..].iter().zip(&flat_trailers[n - it.len() - 1..]);
                        continue;
                    }
                    return Err(format!("flat profile: {e}"));
                }
            }
            let mut lines = s.tree.iter();
            let first = lines.next().ok_or("empty tree")?;
            check_activity(first, &root, &tree_trailers[0], w).map_err(|e| format!("root of the tree: {e}"))?;
            if w <= 2 {
                ensure!(lines.next().is_none(), "children are displayed in no columns");
                return Ok(());
            }
            for (i, line) in lines.enumerate() {
                let connector = if i == n - 1 { "└─" } else { "├─" };
                ensure!(i < n, "tree: superfluous line {line:?}");
                let body = line.strip_prefix(connector).ok_or_else(|| format!("tree: unreadable line {line:?}"))?;
                check_activity(body, &labels[i], &tree_trailers[i + 1], w - 2).map_err(|e| format!("tree: {e}"))?;
            }
            ensure!(s.tree.len() == n + 1, "tree has {} lines for {} activities", s.tree.len(), n + 1);
            Ok(())
        });
        ck.transitions(2 * n as u64 + 2);
        ck.distinct_states(n as u64);
    });
}

/// RFC 3339 date of this number of microseconds since 1970, if it has one
fn date(time: &str) -> Option<String> {
    // Times are kept as floating-point numbers
    let us = time.parse::<f64>().unwrap();
    if us.abs() > 1e18 {
        return None;
    }
    let us = us as i128;
    let (secs, micros) = (us.div_euclid(1_000_000), us.rem_euclid(1_000_000));
    let (days, second) = (secs.div_euclid(86_400), secs.rem_euclid(86_400));
    let leap = |y: i128| y % 4 == 0 && y % 100 != 0 || y % 400 == 0;
    // Days since the first of January of the year 0
    let mut left = days + 719_528;
    if left < 0 {
        return None;
    }
    let mut year = left / 146_097 * 400;
    left %= 146_097;
    while left >= 365 + leap(year) as i128 {
        left -= 365 + leap(year) as i128;
        year += 1;
    }
    if year > 9999 {
        return None;
    }
    let mut month = 0;
    for len in [31, 28 + leap(year) as i128, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31] {
        month += 1;
        if left < len {
            break;
        }
        left -= len;
    }
    let mut s = format!("{year:04}-{month:02}-{:02}T{:02}:{:02}:{:02}", left + 1, second / 3600, second / 60 % 60, second % 60);
    if micros > 0 {
        s += format!(".{micros:06}").trim_end_matches('0');
    }
    Some(s + "Z")
}

pub fn run() -> ! {
    let ck = Ck::new("C21");
    ck.case_timeout(120);
    let word = |n: usize| Text::ascii(&"abcdefghijklmnopqrstuvwxyz0123456789".chars().cycle().take(n).collect::<String>());

    // All strings over the alphabet
    for (tokens, max) in [(vec![0, 2, 3, 5], ck.pick(6, 8)), ((0..ALPHABET.len()).collect(), ck.pick(4, 5))] {
        let mut labels = vec![];
        vc::sequences(tokens.len(), 0..=max, |seq| {
            let seq: Vec<usize> = seq.iter().map(|&i| tokens[i]).collect();
            labels.push(Label { name: "RunPass", arg: Arg::Plain(Text::of(&seq)) });
        });
        let alphabet: Vec<_> = tokens.iter().map(|&t| ALPHABET[t].0).collect();
        ck.note(&format!("strings over {alphabet:?}"), format!("{} (up to {max} characters), at every width up to {}", labels.len(), 2 * max + 46));
        for (part, labels) in labels.chunks(6000).enumerate() {
            labels_case(ck, &format!("strings over {alphabet:?}, part {part}"), labels, &(1..=2 * max + 46).collect::<Vec<_>>(), 1);
        }
    }
    // Longer ones, plain or with one or two wide characters anywhere
    let mut labels = vec![];
    let n = ck.pick(26, 40);
    for len in 1..=n {
        let t = word(len);
        labels.push(Label { name: "RunPass", arg: Arg::Plain(t.clone()) });
        for at in 0..len {
            for g in [2, 3, 5, 8] {
                let mut t = t.clone();
                t.0[at] = (ALPHABET[g].0.into(), ALPHABET[g].1);
                labels.push(Label { name: "RunPass", arg: Arg::Plain(t.clone()) });
                if at + 1 < len && ck.thorough() {
                    t.0[at + 1] = t.0[at].clone();
                    labels.push(Label { name: "RunPass", arg: Arg::Plain(t) });
                }
            }
        }
    }
    labels_case(ck, "long strings", &labels, &(1..n + 50).collect::<Vec<_>>(), 1);

    // All paths made of a few components
    let mut all_paths: Vec<(String, Vec<Vec<Text>>)> = vec![];
    let comps = vec![word(1), word(2), Text::of(&[2]), Text::of(&[3, 0, 5, 1]), word(7), Text::of(&[0, 8, 9])];
    let mut paths = vec![];
    let max = ck.pick(4, 5);
    vc::sequences(comps.len(), 0..=max, |seq| paths.push(seq.iter().map(|&i| comps[i].clone()).collect::<Vec<_>>()));
    all_paths.push((format!("paths of up to {max} components"), paths));
    // Long file names at the end
    let files = [12, 13, 14, 15, 16, 17, 24, 30].map(|n| word(n)).into_iter().chain([Text::of(&[2; 9]), Text::of(&[2, 0, 2, 0, 2, 3, 5, 2, 1, 2, 2, 2]), Text::of(&[0, 2, 2, 2, 2, 2, 2, 2, 2, 1]), Text::of(&[8, 0, 9, 2, 8, 8, 3, 0, 0, 0, 9, 0, 0, 0, 0, 0, 0, 8])]).collect::<Vec<_>>();
    let dirs = [word(1), word(3), Text::of(&[2, 5]), word(16)];
    let mut paths = vec![];
    vc::sequences(dirs.len(), 0..=ck.pick(3, 4), |seq| {
        for f in &files {
            paths.push(seq.iter().map(|&i| dirs[i].clone()).chain([f.clone()]).collect::<Vec<_>>());
        }
    });
    all_paths.push(("paths with long file names".into(), paths));
    for (name, paths) in all_paths {
        let labels: Vec<_> = paths.into_iter().map(|p| Label { name: "Source", arg: Arg::Path(p) }).collect();
        ck.note(&name, labels.len());
        labels_case(ck, &name, &labels, &(1..=ck.pick(82, 110)).collect::<Vec<_>>(), 1);
    }
    // Activities of every shape, with short and long profiling information
    let mut labels = vec![];
    for name in ["Frontend", "Backend", "Optimizer", "PerformPendingInstantiations", "CodeGenPasses"] {
        labels.push(Label { name, arg: Arg::None });
    }
    let plain = [Text(vec![]), word(1), word(2), word(9), Text::of(&[2]), Text::of(&[2, 2])].map(Arg::Plain);
    for name in ["RunPass", "RunLoopPass"] {
        labels.extend(plain.clone().map(|arg| Label { name, arg }));
    }
    for name in ["X", "Short", "SomeVeryLongActivityNameThatNobodyHasEverSeenBefore"] {
        for arg in [Arg::None, Arg::Path(vec![word(1)]), Arg::Path(vec![word(9), word(9)]), Arg::Entity("abc<d>::efg".into())] {
            labels.push(Label { name, arg });
        }
    }
    for e in ["A", "AB", "a::b", "std::vector<int>", "a::b<c, d<e>>::f", "very_long_identifier", "Foo<1, 2, 3>", "const A&"] {
        labels.push(Label { name: "ParseClass", arg: Arg::Entity(e.into()) });
        labels.push(Label { name: "InstantiateFunction", arg: Arg::Entity(e.into()) });
    }
    for scale in [1, 1000, 17_345, 2_000_000, 4_000_000_000] {
        labels_case(ck, &format!("activities of every shape, scale {scale}"), &labels, &(1..=110).collect::<Vec<_>>(), scale);
    }
    // Deep nesting
    for (arg, depth) in [(Arg::Plain(word(10)), 40), (Arg::Path(vec![word(3), Text::of(&[2, 2]), word(8)]), 40), (Arg::Path(vec![word(3), word(20)]), 40), (Arg::None, 12)] {
        let label = Label { name: if matches!(arg, Arg::Path(_)) { "Source" } else if arg == Arg::None { "Frontend" } else { "RunPass" }, arg };
        let mut acts: Vec<Act> = (0..depth)
            .map(|i| Act { name: label.name.into(), arg: label.detail(), ts: 1000.0 - i as f64, dur: format!("{}", 100 + 2 * i) })
            .collect();
        acts.push(Act { name: "ExecuteCompiler".into(), arg: None, ts: 500.0, dur: "1000".into() });
        let text = trace_text(&acts, &Meta::default());
        let widths: Vec<usize> = (1..=ck.pick(130, 150)).collect();
        ck.par(&widths, |_, &w| {
            ck.case(&format!("{depth} nested {:?} in {w} columns", label.full()), || {
                let r = report(&text, &["-i", "0", "-c", &w.to_string()])?;
                let s = sections(&r)?;
                let want = (w - 1) / 2 + 1;
                ensure!(s.tree.len() == want.min(depth + 1), "tree has {} lines in {w} columns", s.tree.len());
                for (d, line) in s.tree.iter().enumerate() {
                    ensure!(width(line) <= w, "{line:?} takes more than {w} columns");
                    if d == 0 {
                        continue;
                    }
                    let prefix = "  ".repeat(d - 1) + "└─";
                    let body = line.strip_prefix(&prefix[..]).ok_or_else(|| format!("unreadable line {line:?}"))?;
                    let dur = 100 + 2 * (depth - d);
                    let trailer = format!(" [{dur}µs, {}.{}0%]", dur / 10, dur % 10);
                    check_activity(body, &label, &trailer, w - 2 * d)?;
                }
                Ok(())
            });
            ck.distinct_states(w.min(2 * depth) as u64 / 2 + 1);
        });
    }
    // Hidden children
    for hidden in [1usize, 9, 10, 99, 100, 1000] {
        let acts = flat((0..hidden).map(|_| ("RunPass".into(), Some("x".into()), "1".into())).collect());
        let text = trace_text(&acts, &Meta::default());
        let widths: Vec<usize> = (1..=60).collect();
        ck.par(&widths, |_, &w| {
            ck.case(&format!("{hidden} hidden children in {w} columns"), || {
                let r = report(&text, &["-i", "99.5", "-c", &w.to_string()])?;
                let s = sections(&r)?;
                if w <= 2 {
                    return Ok(());
                }
                ensure!(s.tree.len() == 2, "tree has {} lines", s.tree.len());
                let full = format!("└─…{hidden} callee(s) below 99.50%…");
                let want = if width(&full) <= w { &full[..] } else { "└─…" };
                ensure!(s.tree[1] == want, "{:?} is displayed instead of {want:?}", s.tree[1]);
                Ok(())
            });
        });
    }
    // Description of the trace
    let mut metas = vec![];
    for process in ["c", "clang++-14.0.5", "日日", "cc1plus with a long name"] {
        for pid in [2, 123456] {
            for thread in [None, Some("t"), Some("main thread"), Some("日")] {
                for time in [None, Some("1"), Some("1656508702311015")] {
                    metas.push(Meta { process: process.into(), pid, thread: thread.map(|t| t.into()), time: time.map(|t| t.into()) });
                }
            }
        }
    }
    // Times of all magnitudes, around the first and last ones that have a date
    let mut times: Vec<i128> = (0..100).flat_map(|bit| [1 << bit, (1 << bit) - 1, -(1 << bit)]).collect();
    for limit in [-62_167_219_200_000_000, 253_402_300_800_000_000, 951_782_400_000_000, 951_868_800_000_000, -2_203_977_600_000_000, 1_709_251_200_000_000] {
        times.extend([-86_400_000_000, -1_000_000, -1000, -100, -32, -1, 0, 1, 10, 32, 1000, 1_000_000].map(|d| limit + d));
    }
    let mut times: Vec<String> = times.iter().map(|t| t.to_string()).collect();
    times.extend(["0.0", "-0.0", "0.5", "-0.5", "12.9", "1e3", "1.656508702311015e15", "1e30", "-1e30", "1e300", "-1e300", "1.7976931348623157e308"].map(String::from));
    metas.extend(times.iter().map(|t| Meta { time: Some(t.clone()), ..Meta::default() }));
    ck.note("recording_times", times.len());
    ck.par(&metas, |_, m| {
        let text = trace_text(&flat(vec![]), m);
        for w in 1..=110usize {
            let desc = format!("description of {:?} {} {:?} {:?} in {w} columns", m.process, m.pid, m.thread, m.time);
            ck.case(&desc, || {
                let r = report(&text, &["-c", &w.to_string()])?;
                let s = sections(&r)?;
                ensure!(!s.metadata.is_empty(), "no description");
                for l in &s.metadata {
                    ensure!(width(l) <= w, "{l:?} takes more than {w} columns");
                }
                let all = s.metadata.join(" ");
                let process = format!("Data from {}", m.process);
                if width(&process) < w {
                    ensure!(s.metadata[0].starts_with(&process), "{:?} does not show {process:?}", s.metadata[0]);
                    for item in [Some(format!("pid {}", m.pid)), m.thread.as_ref().map(|t| format!("thread {t:?}"))].into_iter().flatten() {
                        if width(&item) < w {
                            ensure!(all.contains(&item), "{item:?} is missing in {all:?}");
                        } else {
                            ensure!(all.contains('…'), "{item:?} has no placeholder in {all:?}");
                        }
                    }
                    match m.time.as_deref().map(date) {
                        None => ensure!(!all.contains("recorded"), "there is a time in {all:?}"),
                        Some(Some(date)) if width(&date) + 10 <= w => {
                            let want = format!("recorded {date}.");
                            ensure!(all.ends_with(&want), "{want:?} is missing in {all:?}");
                        }
                        // Too narrow, or out of the range of dates, but not forgotten
                        Some(None) if w > 60 => ensure!(all.contains("recorded") && !all.contains("Z."), "what is not a date is missing in {all:?}"),
                        Some(_) => ensure!(all.contains("recorded") || all.contains('…'), "the time has no placeholder in {all:?}"),
                    }
                } else {
                    ensure!(all == "…", "{all:?} is displayed instead of an ellipsis");
                }
                Ok(())
            });
            ck.distinct_states(1);
        }
    });
    done(ck)
}
