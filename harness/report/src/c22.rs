//! C22: the report states the true profile
use crate::*;

/// An activity and what it called
#[derive(Clone, Debug)]
struct Node {
    name: String,
    /// Full label, or just its beginning
    label: String,
    exact: bool,
    arg: Option<String>,
    own: f64,
    total: f64,
    children: Vec<Node>,
}
impl Node {
    fn new(name: &str, arg: Option<&str>, own: f64, children: Vec<Node>) -> Node {
        Node {
            name: name.into(),
            label: arg.map_or(name.into(), |a| format!("{name}({a})")),
            exact: true,
            arg: arg.map(|a| a.into()),
            own,
            total: own + children.iter().map(|c| c.total).sum::<f64>(),
            children,
        }
    }
    fn all<'a>(&'a self, out: &mut Vec<&'a Node>) {
        self.children.iter().for_each(|c| c.all(out));
        out.push(self);
    }
    /// List the events, children first, with own time before, between or after
    /// the calls
    fn events(&self, start: f64, unit: f64, own_at: usize, out: &mut Vec<Act>) -> f64 {
        let mut ts = start;
        let at = own_at.min(self.children.len());
        for (i, c) in self.children.iter().enumerate() {
            if i == at {
                ts += self.own * unit;
            }
            ts = c.events(ts, unit, own_at, out);
        }
        if at == self.children.len() {
            ts += self.own * unit;
        }
        out.push(Act { name: self.name.clone(), arg: self.arg.clone(), ts: start, dur: format!("{}", ts - start) });
        ts
    }
}

/// Threshold given on the command line, in percent
#[derive(Clone, Debug)]
struct Threshold(String);
impl Threshold {
    fn keeps(&self, part: f64, total: f64) -> bool {
        let t: f64 = self.0.parse().unwrap();
        // All numbers are small decimals: make the comparison exact
        let scale = 1e6;
        (part * 100.0 * scale).round() >= ((t * scale).round() * total).round()
    }
    /// As it is displayed
    fn check(&self, shown: &str) -> Outcome {
        let t: f64 = self.0.parse().unwrap();
        let s: f64 = shown.parse().map_err(|_| format!("unreadable threshold {shown:?}"))?;
        ensure!((t - s).abs() <= 0.005001, "threshold {t}% is displayed as {shown:?}");
        Ok(())
    }
}

/// "PREFIX N SUFFIX THRESHOLD%..." lines about what was left out
fn check_omitted(line: Option<&&str>, prefix: &str, middle: &str, suffix: &str, n: usize, t: &Threshold) -> Outcome {
    let Some(line) = line else {
        ensure!(n == 0, "{n} were left out without a word");
        return Ok(());
    };
    let parts = line.strip_prefix(prefix).and_then(|l| l.strip_suffix(suffix)).and_then(|l| l.split_once(middle));
    let (count, thr) = parts.ok_or_else(|| format!("unexpected line {line:?}"))?;
    ensure!(n > 0, "{line:?}, although nothing is left out");
    ensure!(count == n.to_string(), "{line:?}, but {n} were left out");
    t.check(thr)
}

fn check_label(n: &Node, label: &str) -> bool {
    if n.exact {
        label == n.label
    } else {
        label == n.name || label.strip_prefix(&n.name[..]).map_or(false, |l| l.starts_with('(') && l.ends_with(')'))
    }
}

fn check_numbers(dur: &str, share: &str, real: f64, unit: f64, total: f64) -> Outcome {
    check_duration(dur, (real * unit * 1e6) as i128)?;
    check_share(share, real, total)
}

/// Lines of a flat listing, against all items in it
fn check_flat(lines: &[&str], items: &[(impl Fn(&str) -> bool, f64, &str)], t: &Threshold, unit: f64, total: f64, what: &str) -> Outcome {
    let mut kept: Vec<usize> = (0..items.len()).filter(|&i| t.keeps(items[i].1, total)).collect();
    kept.sort_by(|&a, &b| items[b].1.partial_cmp(&items[a].1).unwrap());
    let omitted = items.len() - kept.len();
    let (lines, last) = if omitted > 0 { lines.split_at(lines.len().saturating_sub(1)) } else { (lines, &lines[..0]) };
    check_omitted(last.first(), "- ... and ", what, "% ...", omitted, t)?;
    let mut used = vec![false; items.len()];
    for (k, line) in lines.iter().enumerate() {
        let body = line.strip_prefix("- ").ok_or_else(|| format!("unexpected line {line:?}"))?;
        let (label, dur, share) = split_line(body).ok_or_else(|| format!("unreadable line {line:?}"))?;
        let Some(&at) = kept.get(k) else { return Err(format!("superfluous line {line:?}")) };
        let value = items[at].1;
        // Any item of this value, not displayed yet
        let lo = kept.partition_point(|&i| items[i].1 > value);
        let hi = kept.partition_point(|&i| items[i].1 >= value);
        let i = kept[lo..hi]
            .iter()
            .copied()
            .find(|&i| !used[i] && items[i].0(label))
            .ok_or_else(|| format!("line {line:?} comes where {:?} with {value} is expected", items[at].2))?;
        used[i] = true;
        check_numbers(dur, share, value, unit, total).map_err(|e| format!("{line:?}: {e}"))?;
    }
    ensure!(lines.len() == kept.len(), "{} lines for {} items", lines.len(), kept.len());
    Ok(())
}

/// A displayed tree
#[derive(Debug)]
struct Line<'a> {
    text: &'a str,
    children: Vec<Line<'a>>,
}
fn parse_trees<'a>(lines: &[&'a str]) -> Result<Vec<Line<'a>>, String> {
    /// Read all nodes whose lines start with `prefix`
    fn level<'a>(lines: &[&'a str], at: &mut usize, prefix: &str) -> Result<Vec<Line<'a>>, String> {
        let mut out = vec![];
        while let Some(rest) = lines.get(*at).and_then(|l| l.strip_prefix(prefix)) {
            let (text, inner, last) = if let Some(t) = rest.strip_prefix("├─") {
                (t, "│ ", false)
            } else if let Some(t) = rest.strip_prefix("└─") {
                (t, "  ", true)
            } else {
                break;
            };
            *at += 1;
            let children = level(lines, at, &format!("{prefix}{inner}"))?;
            out.push(Line { text, children });
            if last {
                return Ok(out);
            }
        }
        ensure!(out.is_empty(), "the listing of callees does not end");
        Ok(out)
    }
    let mut at = 0;
    let mut out = vec![];
    while at < lines.len() {
        let text = lines[at];
        ensure!(!text.starts_with(['├', '└', '│', ' ']), "misplaced line {text:?}");
        at += 1;
        let children = level(lines, &mut at, "")?;
        out.push(Line { text, children });
    }
    Ok(out)
}

fn check_tree(l: &Line, n: &Node, t: &Threshold, unit: f64, total: f64) -> Outcome {
    let (label, dur, share) = split_line(l.text).ok_or_else(|| format!("unreadable line {:?}", l.text))?;
    ensure!(check_label(n, label), "{label:?} instead of {:?}", n.label);
    check_numbers(dur, share, n.total, unit, total).map_err(|e| format!("{:?}: {e}", l.text))?;
    let mut kept: Vec<&Node> = n.children.iter().filter(|c| t.keeps(c.total, total)).collect();
    kept.sort_by(|a, b| b.total.partial_cmp(&a.total).unwrap());
    let omitted = n.children.len() - kept.len();
    let (lines, last) = if omitted > 0 { l.children.split_at(l.children.len().saturating_sub(1)) } else { (&l.children[..], &l.children[..0]) };
    ensure!(last.first().map_or(true, |l| l.children.is_empty()), "the left out callees have callees");
    check_omitted(last.first().map(|l| &l.text), "…", " callee(s) below ", "%…", omitted, t).map_err(|e| format!("callees of {label}: {e}"))?;
    ensure!(lines.len() == kept.len(), "{} callees of {label:?} are listed instead of {}", lines.len(), kept.len());
    let mut used = vec![false; kept.len()];
    for (k, line) in lines.iter().enumerate() {
        let mut why = String::new();
        let same: Vec<usize> = (0..kept.len()).filter(|&i| kept[i].total == kept[k].total && !used[i]).collect();
        let found = same.into_iter().find(|&i| match check_tree(line, kept[i], t, unit, total) {
            Ok(()) => true,
            Err(e) => {
                why = e;
                false
            }
        });
        match found {
            Some(i) => used[i] = true,
            None => return Err(format!("callee of {label:?}: {why}")),
        }
    }
    Ok(())
}

fn check_report(r: &str, roots: &[Node], s_thr: &Threshold, i_thr: &Threshold, unit: f64) -> Outcome {
    let s = sections(r)?;
    let total: f64 = roots.iter().map(|r| r.total).sum();
    let mut all = vec![];
    roots.iter().for_each(|r| r.all(&mut all));
    // By type
    let mut types: Vec<(String, f64)> = vec![];
    for n in &all {
        match types.iter_mut().find(|t| t.0 == n.name) {
            Some(t) => t.1 += n.own,
            None => types.push((n.name.clone(), n.own)),
        }
    }
    let items: Vec<_> = types.iter().map(|(n, d)| (move |l: &str| l == n, *d, &n[..])).collect();
    check_flat(&s.types, &items, s_thr, unit, total, " other activity types below ").map_err(|e| format!("breakdown by type: {e}"))?;
    let items: Vec<_> = all.iter().map(|n| (move |l: &str| check_label(n, l), n.own, &n.label[..])).collect();
    check_flat(&s.flat, &items, s_thr, unit, total, " other activities below ").map_err(|e| format!("flat profile: {e}"))?;
    let trees = parse_trees(&s.tree).map_err(|e| format!("tree: {e}"))?;
    ensure!(trees.len() == roots.len(), "{} trees instead of {}", trees.len(), roots.len());
    // Root activities are not subjected to the threshold, but they are ordered
    let mut order: Vec<&Node> = roots.iter().collect();
    order.sort_by(|a, b| b.total.partial_cmp(&a.total).unwrap());
    let mut used = vec![false; order.len()];
    for (k, l) in trees.iter().enumerate() {
        let mut why = String::new();
        let mut same = (0..order.len()).filter(|&i| order[i].total == order[k].total && !used[i]);
        let found = same.find(|&i| check_tree(l, order[i], i_thr, unit, total).map_err(|e| why = e).is_ok());
        used[found.ok_or_else(|| format!("tree: {why}"))?] = true;
    }
    Ok(())
}

fn describe(n: &Node) -> String {
    let mut s = format!("{}:{}", n.label, n.own);
    if !n.children.is_empty() {
        s += &format!("{{{}}}", n.children.iter().map(describe).collect::<Vec<_>>().join(" "));
    }
    s
}

/// Settings: thresholds for self times and for total times
fn check_profile(ck: &Ck, roots: &[Node], unit: f64, own_at: usize, settings: &[(Threshold, Threshold)]) {
    let mut acts = vec![];
    let mut ts = 100.0;
    for r in roots {
        ts = r.events(ts, unit, own_at, &mut acts) + 1.0;
    }
    let text = trace_text(&acts, &Meta::default());
    let what = roots.iter().map(describe).collect::<Vec<_>>().join(" ");
    for (s, i) in settings {
        ck.case(&format!("{what} in units of {unit} µs, own time at {own_at}, -s {} -i {}", s.0, i.0), || {
            let r = report(&text, &["-s", &s.0, "-i", &i.0, "-c", "60000"])?;
            check_report(&r, roots, s, i, unit)
        });
        ck.transitions(1);
        ck.distinct_states(1);
    }
}

/// All ordered forests of n nodes, as lists of depths
fn shapes(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..n {
        out = out
            .into_iter()
            .flat_map(|s: Vec<usize>| {
                let max = s.last().map_or(0, |l| l + 1);
                (0..=max).map(move |d| s.iter().copied().chain([d]).collect::<Vec<_>>())
            })
            .collect();
    }
    out
}
fn build(depths: &[usize], make: &mut impl FnMut(usize, Vec<Node>) -> Node) -> Vec<Node> {
    fn rec(depths: &[usize], at: &mut usize, depth: usize, make: &mut impl FnMut(usize, Vec<Node>) -> Node) -> Vec<Node> {
        let mut out = vec![];
        while *at < depths.len() && depths[*at] == depth {
            let me = *at;
            *at += 1;
            let children = rec(depths, at, depth + 1, make);
            out.push(make(me, children));
        }
        out
    }
    rec(depths, &mut 0, 0, make)
}

/// Would an activity of no duration be taken for a callee of the next one?
fn ambiguous(nodes: &[Node], own_at: usize, own: f64) -> bool {
    nodes.iter().enumerate().any(|(i, n)| {
        let followed = i + 1 < nodes.len() && !(own > 0.0 && own_at == i + 1);
        n.total == 0.0 && followed || ambiguous(&n.children, own_at, n.own)
    })
}

const LABELS: &[(&str, Option<&str>)] = &[("RunPass", Some("x")), ("Frontend", None), ("RunPass", Some("long argument, with [brackets, 5.00%]")), ("RunPass", Some("x"))];

fn thr(s: &str) -> Threshold {
    Threshold(s.into())
}

pub fn run() -> ! {
    let ck = Ck::new("C22");
    ck.case_timeout(120);
    // All small trees of eight units of time, at every eighth and around it
    let settings: Vec<(Threshold, Threshold)> = {
        let t = ["0", "12.49", "12.5", "12.51", "24.99", "25", "25.01", "37.5", "37.51", "50", "50.01", "100", "100.01"];
        (0..t.len()).map(|i| (thr(t[i]), thr(t[(i * 5) % t.len()]))).collect()
    };
    let max = ck.pick(3, 4);
    let mut trees: Vec<(Vec<Node>, usize)> = vec![];
    for n in 0..=max {
        for depths in shapes(n) {
            vc::sequences(4, n..=n, |durs| {
                let names = if n <= 3 { 3usize.pow(n as u32) } else { 4 };
                for code in 0..names {
                    for own_at in if n <= 2 { vec![0, 1, 9] } else { vec![[0, 1, 9][code % 3]] } {
                        let children = build(&depths, &mut |i, children| {
                            let l = if n <= 3 { code / 3usize.pow(i as u32) % 3 } else { (i * (code + 1) + code / 2) % 4 };
                            Node::new(LABELS[l].0, LABELS[l].1, durs[i] as f64, children)
                        });
                        let used: f64 = children.iter().map(|c| c.total).sum();
                        if used > 8.0 {
                            continue;
                        }
                        let root = Node::new("ExecuteCompiler", None, 8.0 - used, children);
                        if ambiguous(std::slice::from_ref(&root), own_at, 0.0) {
                            continue;
                        }
                        trees.push((vec![root], own_at));
                    }
                }
            });
        }
    }
    ck.note("small_trees", trees.len());
    ck.note("settings_per_tree", if ck.thorough() { settings.len() } else { 5 });
    ck.par(&trees, |i, (roots, own_at)| {
        let unit = [1.0, 100.0, 1000.0, 1_234_567.0][i % 4];
        // In the quick tier, consecutive trees take turns
        let some: Vec<_> = if ck.thorough() || roots[0].children.len() + roots[0].children.iter().map(|c| c.children.len()).sum::<usize>() <= 2 {
            settings.clone()
        } else {
            (0..5).map(|k| settings[(i * 5 + k) % settings.len()].clone()).collect()
        };
        check_profile(ck, roots, unit, *own_at, &some);
        if i % 997 == 0 {
            ck.sample(|| json!({"activities": roots.iter().map(describe).collect::<Vec<_>>(), "unit_us": unit}));
        }
    });
    // Decimal thresholds, on and around the shares
    let mut jobs = vec![];
    for total in [1000u32, 100, 200, 3, 7, 30, 9999, 10_000, 123_456] {
        for t in ["0.1", "0.2", "0.3", "0.5", "0.6", "0.7", "0.9", "1", "1.1", "1.7", "2", "3", "3.3", "4.7", "5", "6.1", "7", "9.5", "10", "13", "14.3", "20", "29", "30", "33.3", "40", "57", "66.6", "70", "90", "99", "99.9", "100"] {
            jobs.push((total, t));
        }
    }
    ck.par(&jobs, |_, &(total, t)| {
        let at = (t.parse::<f64>().unwrap() * total as f64 / 100.0).round() as u32;
        let mut children = vec![];
        let mut left = total;
        for d in [at, at + 1, at.saturating_sub(1), at] {
            if d > 0 && d <= left {
                left -= d;
                children.push(Node::new("RunPass", Some(&format!("{}", children.len())), d as f64, vec![]));
            }
        }
        let root = Node::new("ExecuteCompiler", None, left as f64, children);
        check_profile(ck, &[root], 1.0, 9, &[(thr(t), thr(t))]);
    });
    // Several roots, or none
    let few = [(thr("0"), thr("0")), (thr("12.5"), thr("12.5")), (thr("25.01"), thr("37.5"))];
    let mut forests = vec![vec![]];
    for n in 2..=ck.pick(4, 5) {
        for depths in shapes(n) {
            vc::sequences(2, n..=n, |durs| {
                let mut f = build(&depths, &mut |i, children| Node::new(LABELS[i % 3].0, LABELS[i % 3].1, (durs[i] + 1) as f64, children));
                if f.len() > 1 {
                    let sum: f64 = f.iter().map(|r| r.total).sum();
                    if sum < 16.0 {
                        f.push(Node::new("Backend", None, 16.0 - sum, vec![]));
                        forests.push(f);
                    }
                }
            });
        }
    }
    ck.note("forests", forests.len());
    ck.par(&forests, |_, f| check_profile(ck, f, 100.0, 9, &few));
    // Regular trees: wide, deep and bushy ones
    let mut large = vec![];
    let n = ck.pick(300, 3000);
    let leaf = |i: usize| Node::new("RunPass", Some(&format!("{i}")), (i % 7 + 1) as f64, vec![]);
    large.push(("wide", (0..n).map(leaf).collect::<Vec<_>>()));
    for depth in [5, 50, ck.pick(200, 1000)] {
        let mut c = vec![];
        for i in 0..depth {
            c = vec![Node::new(LABELS[i % 3].0, LABELS[i % 3].1, (i % 3) as f64 + 1.0, c)];
        }
        large.push(("deep", c));
    }
    fn bush(depth: usize, width: usize) -> Vec<Node> {
        (0..if depth > 0 { width } else { 0 }).map(|i| Node::new("RunPass", Some(&format!("{depth}.{i}")), (i * depth + 1) as f64, bush(depth - 1, width))).collect()
    }
    large.push(("bushy", bush(5, 3)));
    large.push(("bushy", bush(3, 6)));
    for (_, children) in large {
        let root = Node::new("ExecuteCompiler", None, 5.0, children);
        let total = root.total;
        // Thresholds between the shares
        let mut s: Vec<(Threshold, Threshold)> = vec![(thr("0"), thr("0"))];
        for k in [1.0, 2.0, 3.0, 10.0, 100.0] {
            let t = format!("{:.4}", (k + 0.5) * 100.0 / total);
            let u = format!("{:.4}", (k * 7.0 + 0.5) * 100.0 / total);
            s.push((thr(&t), thr(&u)));
        }
        check_profile(ck, &[root], 10.0, 9, &s);
    }
    real_trace(ck);
    done(ck)
}

/// The trace of the test suite, at many thresholds. Labels are only compared by
/// the name of the activity.
fn real_trace(ck: &Ck) {
    let path = std::path::Path::new("/repo/tests/7-GMSTests_main.json");
    let Ok(text) = std::fs::read_to_string(path) else {
        ck.note("real_trace", "missing");
        return;
    };
    let doc: Value = serde_json::from_str(&text).unwrap();
    let mut stack: Vec<(f64, Node)> = vec![];
    for e in doc["traceEvents"].as_array().unwrap() {
        let (ts, dur) = (e["ts"].as_f64().unwrap(), e["dur"].as_f64().unwrap_or(0.0));
        if e["ph"] != "X" || ts == 0.0 {
            continue;
        }
        let mut children = vec![];
        while stack.last().map_or(false, |(s, _)| *s >= ts) {
            children.push(stack.pop().unwrap().1);
        }
        let mut n = Node::new(e["name"].as_str().unwrap(), None, 0.0, children);
        n.own = dur - n.total;
        n.total = dur;
        n.exact = false;
        stack.push((ts, n));
    }
    let roots: Vec<Node> = stack.into_iter().map(|(_, n)| n).collect();
    let total: f64 = roots.iter().map(|r| r.total).sum();
    let mut all = vec![];
    roots.iter().for_each(|r| r.all(&mut all));
    ck.note("real_trace_activities", all.len());
    let max = ck.pick(40, 400);
    let settings: Vec<usize> = (0..=max).collect();
    ck.par(&settings, |_, &k| {
        // Half a microsecond above a whole number of them
        let us = (total * (k as f64 / max as f64).powi(3) + 0.5).floor() - 0.5;
        let t = thr(&format!("{:.6}", us.max(0.0) * 100.0 / total));
        ck.case(&format!("{path:?} at {} %", t.0), || {
            let r = report_on(path, &["-s", &t.0, "-i", &t.0, "-c", "60000"])?;
            check_report(&r, &roots, &t, &t, 1.0)
        });
        ck.transitions(all.len() as u64);
        ck.distinct_states(1);
    });
}
