//! C09: activity tree
use crate::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Iv {
    pub s: u32,
    pub e: u32,
}

/// Text of a trace made of these intervals
pub fn doc(ivs: &[Iv], scale: f64, origin: f64) -> String {
    let mut s = String::from(r#"{"traceEvents":["#);
    for (i, iv) in ivs.iter().enumerate() {
        use std::fmt::Write;
        write!(
            s,
            r#"{{"ph":"X","pid":7,"tid":7,"ts":{:?},"dur":{:?},"name":"RunPass","args":{{"detail":"{i}"}}}},"#,
            origin + iv.s as f64 * scale,
            (iv.e - iv.s) as f64 * scale
        )
        .unwrap();
    }
    s.push_str(PROCESS);
    s.push_str("]}");
    s
}
pub const PROCESS: &str =
    r#"{"ph":"M","pid":7,"tid":7,"ts":0,"cat":"","name":"process_name","args":{"name":"clang"}}"#;

/// Does the interval list follow the format? (ascending ends, no overlap)
fn valid(ivs: &[Iv]) -> bool {
    ivs.iter().enumerate().all(|(j, b)| {
        ivs[..j]
            .iter()
            .all(|a| a.e <= b.e && (a.s >= b.s || a.e <= b.s))
    })
}

pub fn check(ivs: &[Iv], text: &str, scale: f64, origin: f64) -> Outcome {
    let n = ivs.len();
    let t = match ClangTrace::from_str(text) {
        Ok(t) => {
            ensure!(valid(ivs), "accepted although activities overlap or are out of order");
            t
        }
        Err(e) => {
            ensure!(!valid(ivs), "rejected: {e}");
            ensure!(!e.to_string().is_empty(), "empty error");
            return Ok(());
        }
    };
    // Parent of i: the smallest later activity that starts no later
    let parent: Vec<Option<usize>> = (0..n)
        .map(|i| (i + 1..n).find(|&j| ivs[j].s <= ivs[i].s))
        .collect();
    let label = |a: &ActivityTrace| -> Result<usize, String> {
        let d = a.activity().raw_argument().detail().ok_or("detail lost")?;
        d.parse().map_err(|_| format!("foreign detail {d}"))
    };
    let all: Vec<_> = t.all_activities().collect();
    ensure!(all.len() == n, "{} activities instead of {n}", all.len());
    let mut by_label = vec![None; n];
    for a in &all {
        let l = label(a)?;
        ensure!(l < n && by_label[l].is_none(), "activity {l} is duplicated");
        by_label[l] = Some(a.id());
        let iv = ivs[l];
        let (start, dur) = (origin + iv.s as f64 * scale, (iv.e - iv.s) as f64 * scale);
        ensure!(a.start() == start, "#{l} starts at {}", a.start());
        ensure!(a.duration() == dur, "#{l} lasts {}", a.duration());
        ensure!(a.end() == start + dur, "#{l} ends at {}", a.end());
        let children: f64 = (0..n)
            .filter(|&i| parent[i] == Some(l))
            .map(|i| (ivs[i].e - ivs[i].s) as f64 * scale)
            .sum();
        ensure!(a.self_duration() == dur - children, "#{l} has self time {}, expected {}", a.self_duration(), dur - children);
        let p = a.parent().map(|p| label(&p)).transpose()?;
        ensure!(p == parent[l], "#{l} has parent {p:?}, expected {:?}", parent[l]);
        ensure!(a.activity().name() == "RunPass", "#{l} is named {}", a.activity().name());
        let again = t.activity_trace(a.id());
        ensure!(label(&again)? == l && again == *a, "id of #{l} leads elsewhere");
    }
    // Siblings in chronological order (in the same direction everywhere)
    let mut directions = [false; 2];
    let mut order = |what: String, got: Vec<usize>, expected: Vec<usize>| -> Outcome {
        let mut sorted = got.clone();
        sorted.sort();
        ensure!(sorted == expected, "{what} are {got:?}, expected {expected:?}");
        if got.len() > 1 {
            directions[0] |= got.windows(2).any(|w| w[0] < w[1]);
            directions[1] |= got.windows(2).any(|w| w[0] > w[1]);
        }
        Ok(())
    };
    let labels = |it: &mut dyn Iterator<Item = ActivityTrace>| it.map(|a| label(&a)).collect::<Result<Vec<_>, _>>();
    order(
        "roots".into(),
        {
            let v: Vec<_> = t.root_activities().map(|a| label(&a)).collect::<Result<_, _>>()?;
            v
        },
        (0..n).filter(|&i| parent[i].is_none()).collect(),
    )?;
    for l in 0..n {
        let a = t.activity_trace(by_label[l].unwrap());
        let _ = &labels;
        let kids: Vec<_> = a.direct_children().map(|a| label(&a)).collect::<Result<_, _>>()?;
        order(format!("children of #{l}"), kids, (0..n).filter(|&i| parent[i] == Some(l)).collect())?;
        let mut desc: Vec<_> = a.all_children().map(|a| label(&a)).collect::<Result<_, _>>()?;
        desc.sort();
        let expected: Vec<_> = (0..n)
            .filter(|&i| {
                let mut p = parent[i];
                while let Some(x) = p {
                    if x == l {
                        return true;
                    }
                    p = parent[x];
                }
                false
            })
            .collect();
        ensure!(desc == expected, "descendants of #{l} are {desc:?}, expected {expected:?}");
    }
    ensure!(directions != [true; 2], "siblings are not listed in a consistent chronological order");
    Ok(())
}

pub fn run() -> ! {
    let ck = Ck::new("C09");
    let universe = |grid: u32| -> Vec<Iv> { (0..grid).flat_map(|s| (s..grid).map(move |e| Iv { s, e })).collect() };
    let scales = [(1.0, 2.0), (0.25, 1.125), (1048576.0, 3.0)];
    let one = |ivs: &[Iv], scale: usize| {
        let (scale, origin) = scales[scale];
        let text = doc(ivs, scale, origin);
        ck.transitions(ivs.len() as u64);
        ck.case(&format!("{text}"), || check(ivs, &text, scale, origin));
    };
    // All lists: every valid prefix, extended with every interval (lists
    // after the first invalid one are all invalid, try one of each)
    fn dfs(all: &[Iv], cur: &mut Vec<Iv>, max: usize, one: &impl Fn(&[Iv], usize), ck: &'static Ck, scale: usize) {
        for iv in all {
            cur.push(*iv);
            one(cur, scale);
            ck.distinct_states(1);
            if valid(cur) {
                if cur.len() < max {
                    dfs(all, cur, max, one, ck, scale);
                } else {
                    ck.sample(|| json!(cur.iter().map(|i| [i.s, i.e]).collect::<Vec<_>>()));
                }
            } else if cur.len() < max {
                // Not repaired by what follows
                let last = *all.iter().max_by_key(|i| (i.e, i.e - i.s)).unwrap();
                for next in [last, *iv] {
                    cur.push(next);
                    one(cur, scale);
                    ck.distinct_states(1);
                    cur.pop();
                }
            }
            cur.pop();
        }
    }
    one(&[], 0);
    let plans: &[(u32, usize, usize)] = ck.pick(
        &[(3, 8, 0), (4, 7, 0), (5, 6, 0), (7, 4, 0), (9, 4, 0), (4, 5, 1), (5, 4, 2)][..],
        &[(3, 10, 0), (4, 9, 0), (5, 7, 0), (6, 6, 0), (8, 5, 0), (12, 4, 0), (5, 6, 1), (6, 5, 2)][..],
    );
    ck.note("grid_points_and_list_lengths", format!("{plans:?}"));
    for &(grid, max, scale) in plans {
        let all = universe(grid);
        let pairs: Vec<[Iv; 2]> = all.iter().flat_map(|a| all.iter().map(move |b| [*a, *b])).collect();
        for a in &all {
            one(&[*a], scale);
            ck.distinct_states(1);
        }
        ck.par(&pairs, |_, p| {
            let mut cur = p.to_vec();
            one(&cur, scale);
            ck.distinct_states(1);
            if valid(&cur) {
                dfs(&all, &mut cur, max, &one, ck, scale);
            } else {
                for c in &all {
                    cur.push(*c);
                    one(&cur, scale);
                    ck.distinct_states(1);
                    cur.pop();
                }
            }
        });
    }
    // Long regular shapes: combs, chains and combs of chains
    let max = ck.pick(300, 3000u32);
    let mut shapes: Vec<(String, Vec<Iv>)> = vec![];
    for n in [1, 2, 10, 255, 256, max] {
        let mut v: Vec<_> = (0..n).map(|i| Iv { s: i, e: i + 1 }).collect();
        shapes.push((format!("{n} in a row"), v.clone()));
        v.push(Iv { s: 0, e: n });
        shapes.push((format!("{n} under one"), v));
        shapes.push((format!("chain of {n}"), (0..n).map(|i| Iv { s: n - i, e: n + i }).collect()));
        shapes.push((format!("{n} identical"), vec![Iv { s: 0, e: 1 }; n as usize]));
        let mut v = vec![];
        for i in 0..n / 4 {
            v.extend([Iv { s: 4 * i + 1, e: 4 * i + 2 }, Iv { s: 4 * i + 1, e: 4 * i + 3 }, Iv { s: 4 * i, e: 4 * i + 4 }]);
            v.push(Iv { s: 0, e: 4 * i + 4 });
        }
        shapes.push((format!("stairs of {n}"), v));
    }
    ck.note("long_shapes", shapes.len());
    ck.par(&shapes, |_, (name, ivs)| {
        ck.case(name, || {
            let text = doc(ivs, 1.0, 2.0);
            check(ivs, &text, 1.0, 2.0)
        });
        ck.distinct_states(1);
    });
    ck.finish()
}
