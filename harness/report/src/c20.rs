//! C20: durations
use crate::*;

/// Check that these durations (in picoseconds, distinct) are displayed right
fn check(ck: &Ck, name: &str, ps: &[i128]) {
    ck.case(name, || {
        let items = ps
            .iter()
            .enumerate()
            .map(|(i, &p)| ("RunPass".to_string(), Some(format!("{i}")), text(p)))
            .collect();
        let r = report(&trace_text(&flat(items), &Meta::default()), &["-s", "0", "-i", "0", "-c", "200"])?;
        let s = sections(&r)?;
        let mut seen = vec![false; ps.len()];
        let mut judge = |where_: &str, line: &str, label: &str, last: &mut Option<(i128, i128)>| -> Outcome {
            let (l, dur, share) = split_line(label).ok_or_else(|| format!("unreadable line {line:?}"))?;
            if l == "ExecuteCompiler" {
                return Ok(());
            }
            let i: usize = l
                .strip_prefix("RunPass(")
                .and_then(|l| l.strip_suffix(')'))
                .and_then(|l| l.parse().ok())
                .filter(|&i| i < ps.len())
                .ok_or_else(|| format!("unknown activity {line:?}"))?;
            check_duration(dur, ps[i]).map_err(|e| format!("{where_}: {e}"))?;
            let _ = share;
            // Longest first, and so are the displayed values
            let v = parse_duration(dur)?.value;
            if let Some((p, shown)) = *last {
                ensure!(ps[i] <= p, "{where_}: {line:?} comes after a shorter one");
                ensure!(v <= shown, "{where_}: {} µs is displayed as {dur:?}, more than the longer {} µs", ps[i] as f64 / 1e6, p as f64 / 1e6);
            }
            *last = Some((ps[i], v));
            seen[i] = true;
            Ok(())
        };
        let mut last = None;
        for l in &s.flat {
            judge("flat profile", l, l.strip_prefix("- ").unwrap_or(l), &mut last)?;
        }
        let mut last = None;
        for l in &s.tree {
            judge("tree", l, l.trim_start_matches(['├', '└', '─', '│', ' ']), &mut last)?;
        }
        if let Some(i) = seen.iter().position(|s| !s) {
            return Err(format!("activity of {} µs is not displayed", ps[i] as f64 / 1e6));
        }
        Ok(())
    });
    ck.transitions(2 * ps.len() as u64);
    ck.distinct_states(ps.len() as u64);
}

/// Duration in decimal microseconds
fn text(ps: i128) -> String {
    let (i, f) = (ps / 1_000_000, ps % 1_000_000);
    if f == 0 {
        format!("{i}")
    } else {
        format!("{i}.{f:06}").trim_end_matches('0').to_string()
    }
}

pub fn run() -> ! {
    let ck = Ck::new("C20");
    ck.case_timeout(120);
    const US: i128 = 1_000_000;
    const S: i128 = 1_000_000 * US;
    let mut groups: Vec<(String, Vec<i128>)> = vec![];
    let mut add = |name: &str, mut v: Vec<i128>| {
        v.retain(|&x| x >= 0);
        v.sort();
        v.dedup();
        let n = v.len();
        for (i, c) in v.chunks(20_000).enumerate() {
            groups.push((format!("{name}, part {i}"), c.to_vec()));
        }
        ck.note(&format!("durations: {name}"), n);
    };
    // Every single microsecond
    let top = ck.pick(1_100_000, 10_000_000);
    add("every microsecond from 0", (0..=top).map(|i| i * US).collect());
    // Nanoseconds around the boundaries below a minute
    let mut v = vec![];
    for b in [1, 10, 100, 999, 1000, 1005, 9995, 10_000, 99_995, 100_000, 999_994, 999_995, 999_996, 1_000_000, 1_005_000, 9_995_000, 10_000_000, 59_990_000, 59_995_000, 60_000_000, 60_005_000i128] {
        for n in -1005..=1005 {
            v.push(b * US + n * 1000);
        }
        for n in [1, 2, 5, 10, 50, 100, 500] {
            v.extend([b * US + n, b * US - n]);
        }
    }
    add("every nanosecond around boundaries", v);
    // Rounding boundaries of hundredths of seconds
    let around = |k: i128, offs: &[i128]| offs.iter().map(move |o| k * 5000 * US + o * US).collect::<Vec<_>>();
    add("rounding boundaries from 1 s to 61 s", (200..12_300).flat_map(|k| around(k, &[-1, 0, 1])).collect());
    let all: Vec<i128> = (1..=120).collect();
    let minutes: &[i128] = if ck.thorough() { &all } else { &[1, 2, 9, 10, 29, 58, 59, 60] };
    for &m in minutes {
        add(&format!("rounding boundaries in minute {m}"), (m * 12_000..=(m + 1) * 12_000).flat_map(|k| around(k, &[-1, 0, 1])).collect());
    }
    // Carries between seconds, minutes, hours and days
    let offsets: Vec<i128> = vec![
        -1_005_001, -1_005_000, -1_004_999, -1_000_000, -995_000, -10_001, -10_000, -9_999, -5_001, -5_000, -4_999, -4_998, -1, 0, 1, 4_999, 5_000, 5_001, 9_999, 10_000, 10_001, 994_999, 995_000, 1_000_000,
        59_994_999, 59_995_000, 59_995_001,
    ];
    for scale in [1i128, 60, 3600] {
        // Every second of an hour, every minute of a day, every hour of 100 days
        let n = if scale == 3600 { ck.pick(2400, 9600) } else { 3600 };
        add(&format!("carries around multiples of {scale} s"), (0..n).flat_map(|k| offsets.iter().map(move |o| k * scale * S + o * US)).collect());
    }
    let mut v = vec![];
    for d in (0..40).chain([59, 60, 99, 100, 101, 364, 365, 366, 999, 1000, 1001, 9999, 10_000]) {
        for h in [0, 1, 9, 10, 22, 23] {
            for m in [0, 1, 9, 10, 58, 59] {
                for s in [0, 1, 9, 10, 58, 59] {
                    for o in [-5001i128, -5000, -1, 0, 1, 4999, 5001, 994_999, 995_001] {
                        v.push(((((d * 24 + h) * 60 + m) * 60 + s) * 1_000_000 + o) * US);
                    }
                }
            }
        }
    }
    add("days", v);
    ck.sample(|| json!(groups.iter().map(|g| json!({"group": g.0, "first_us": text(g.1[0]), "last_us": text(*g.1.last().unwrap())})).take(10).collect::<Vec<_>>()));
    ck.par(&groups, |_, (name, v)| check(ck, name, v));
    done(ck)
}
