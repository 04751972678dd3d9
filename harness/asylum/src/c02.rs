use crate::{Collide, Item};
use asylum::lasso::{Key, LargeSpur, MicroSpur, MiniSpur, Spur};
use asylum::sequence::{SequenceInterner, SequenceKey};
use asylum::InternerKey;
use serde_json::json;
use std::ops::Range;
use vc::{ensure, quietly, sequences, Ck, Outcome};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Op {
    /// Intern a slice in one go
    Direct(Vec<u32>),
    /// Transaction: Some(x) pushes x, None pops; then commit or abandon
    Entry(Vec<Option<u32>>, bool),
}

fn ops(script_len: usize, direct_len: usize) -> Vec<Op> {
    let mut v = Vec::new();
    sequences(2, 0..=direct_len, |s| v.push(Op::Direct(s.iter().map(|&x| x as u32).collect())));
    sequences(3, 0..=script_len, |s| {
        let script: Vec<_> = s.iter().map(|&x| if x == 2 { None } else { Some(x as u32) }).collect();
        v.push(Op::Entry(script.clone(), true));
        v.push(Op::Entry(script, false));
    });
    v
}

struct World<T: Item, K: InternerKey<ImplKey = Range<usize>>> {
    i: SequenceInterner<T, K>,
    seen: Vec<(Vec<u32>, K)>,
}

fn items<T: Item>(s: &[u32]) -> Vec<T> {
    s.iter().map(|&x| T::make(x)).collect()
}

impl<T: Item, K: InternerKey<ImplKey = Range<usize>>> World<T, K> {
    fn new() -> Self {
        Self { i: SequenceInterner::new(), seen: Vec::new() }
    }

    fn record(&mut self, s: Vec<u32>, k: K) -> Outcome {
        match self.seen.iter().find(|(w, _)| *w == s) {
            Some((_, old)) => ensure!(*old == k, "a second key was given to {s:?}"),
            None => {
                if let Some((w, _)) = self.seen.iter().find(|(_, o)| *o == k) {
                    return Err(format!("{s:?} got the key of {w:?}"));
                }
                self.seen.push((s, k));
            }
        }
        Ok(())
    }

    fn apply(&mut self, op: &Op) -> Outcome {
        match op {
            Op::Direct(s) => {
                let k = self.i.intern(&items::<T>(s));
                self.record(s.clone(), k)
            }
            Op::Entry(script, commit) => {
                let mut e = self.i.entry();
                let mut model = Vec::new();
                ensure!(e.is_empty() && e.len() == 0, "a new transaction is not empty");
                for step in script {
                    match step {
                        Some(x) => {
                            e.push(T::make(*x));
                            model.push(*x);
                        }
                        None => {
                            let got = e.pop();
                            let want = model.pop().map(T::make);
                            ensure!(got == want, "pop gave {got:?} instead of {want:?}");
                        }
                    }
                    ensure!(e.len() == model.len(), "transaction length {} instead of {}", e.len(), model.len());
                    ensure!(e.is_empty() == model.is_empty(), "wrong transaction emptiness");
                }
                if *commit {
                    let k = e.intern();
                    self.record(model, k)
                } else {
                    drop(e);
                    Ok(())
                }
            }
        }
    }

    fn check(&self) -> Outcome {
        let n = self.seen.len();
        ensure!(self.i.len() == n, "{} sequences reported instead of {n}", self.i.len());
        ensure!(self.i.is_empty() == (n == 0), "is_empty() wrong with {n} sequences");
        let total: usize = self.seen.iter().map(|(s, _)| s.len()).sum();
        ensure!(self.i.num_items() == total, "{} items reported instead of {total}", self.i.num_items());
        let max = self.seen.iter().map(|(s, _)| s.len()).max();
        ensure!(self.i.max_sequence_len() == max, "maximal length {:?} instead of {max:?}", self.i.max_sequence_len());
        for (s, k) in &self.seen {
            let got = self.i.get(*k);
            ensure!(got == items::<T>(s), "{s:?} now resolves to {got:?}");
        }
        Ok(())
    }
}

fn history<T: Item, K: InternerKey<ImplKey = Range<usize>>>(ck: &Ck, script: &[&Op]) -> Outcome {
    let mut w = World::<T, K>::new();
    w.check()?;
    let mut fork: Option<World<T, K>> = None;
    for (n, op) in script.iter().enumerate() {
        w.apply(op).map_err(|e| format!("step {}: {e}", n + 1))?;
        w.check().map_err(|e| format!("after step {}: {e}", n + 1))?;
        ck.state(&w.seen.iter().map(|(s, k)| (s.clone(), k.into_impl_key())).collect::<Vec<_>>());
        ck.transitions(1);
        if n == 0 {
            fork = Some(World { i: w.i.clone(), seen: w.seen.clone() });
        }
    }
    // Clones know what was interned so far, and evolve independently
    for (fork, name) in [(fork, "clone after step 1"), (Some(World { i: w.i.clone(), seen: w.seen.clone() }), "clone at the end")] {
        let Some(mut f) = fork else { continue };
        f.check().map_err(|e| format!("{name}: {e}"))?;
        for (n, op) in script.iter().enumerate() {
            f.apply(op).map_err(|e| format!("{name}: repeating step {}: {e}", n + 1))?;
        }
        f.apply(&Op::Entry(vec![Some(7), Some(0)], true)).map_err(|e| format!("{name}: {e}"))?;
        f.check().map_err(|e| format!("{name}: {e}"))?;
    }
    w.check()?;
    let frozen = w.i.clone().finalize();
    for (s, k) in &w.seen {
        ensure!(frozen.get(*k) == items::<T>(s), "{s:?} lost by freezing");
    }
    // Everything can be found again both ways
    let seen = w.seen.clone();
    for (s, _) in seen {
        w.apply(&Op::Direct(s.clone()))?;
        w.apply(&Op::Entry(s.iter().map(|x| Some(*x)).collect(), true))?;
    }
    w.check()
}

fn histories<T: Item, K: InternerKey<ImplKey = Range<usize>> + 'static>(ck: &'static Ck, name: &str, ops: &[Op], depth: usize) {
    ck.par(ops, |_, first| {
        sequences(ops.len(), 0..=depth - 1, |rest| {
            let mut script = vec![first];
            script.extend(rest.iter().map(|&i| &ops[i]));
            let mut desc = String::new();
            if let Err(e) = quietly(|| history::<T, K>(ck, &script)).unwrap_or_else(|p| Err(format!("panic: {p}"))) {
                desc.push_str(&format!("{name}: {script:?}"));
                ck.violation(&desc, &e);
            }
            ck.traces(1);
        })
    });
}

/// Fill a narrow key space with sequences of length len
fn exhaustion<Inner: Key, const L: u32>(ck: &Ck, len: usize, via_entry: bool) -> Outcome {
    type SI<I, const L: u32> = SequenceInterner<u32, SequenceKey<I, L>>;
    let mut i: SI<Inner, L> = SequenceInterner::new();
    let mut seen: Vec<(Vec<u32>, SequenceKey<Inner, L>)> = Vec::new();
    let mut failures = 0;
    for n in 0..70_000u32 {
        let s: Vec<u32> = (0..len as u32).map(|x| n * 64 + x).collect();
        let before = (i.len(), i.num_items(), i.max_sequence_len().filter(|_| n < 300));
        let r = quietly(|| {
            if via_entry {
                let mut e = i.entry();
                for x in &s {
                    e.push(*x);
                }
                e.intern()
            } else {
                i.intern(&s)
            }
        });
        ck.transitions(1);
        match r {
            Ok(k) => {
                ensure!(failures == 0, "a sequence was accepted after the key space was exhausted");
                ensure!(i.get(k) == s, "{s:?} resolves to {:?}", i.get(k));
                ensure!(seen.last().map_or(true, |(_, o)| *o != k), "aliased key");
                seen.push((s, k));
            }
            Err(_) => {
                failures += 1;
                let after = (i.len(), i.num_items(), i.max_sequence_len().filter(|_| n < 300));
                ensure!(before == after, "refused sequence changed the statistics: {before:?} -> {after:?}");
                if failures == 3 {
                    break;
                }
            }
        }
    }
    ensure!(failures == 3 || len == 0, "the key space never ran out");
    let mut keys: Vec<_> = seen.iter().map(|(_, k)| (k.into_impl_key().start, k.into_impl_key().end)).collect();
    keys.sort();
    keys.dedup();
    ensure!(keys.len() == seen.len(), "aliased keys");
    for (s, k) in &seen {
        ensure!(i.get(*k) == s.as_slice(), "{s:?} lost after exhaustion");
        ensure!(i.intern(s) == *k, "{s:?} changed its key after exhaustion");
        let again = quietly(|| {
            let mut e = i.entry();
            for x in s {
                e.push(*x);
            }
            e.intern()
        });
        ensure!(again.as_ref() == Ok(k), "after exhaustion, a transaction of {s:?} gives {:?}", again.map(|k| k.into_impl_key()));
    }
    ck.state(&(seen.len(), len, via_entry, L));
    Ok(())
}

fn packing<Inner: Key + std::fmt::Debug, const L: u32>(ck: &Ck, name: &str, capacity: u128) {
    let mut points: Vec<usize> = (0..=600).collect();
    for b in 9..64 {
        let p = 1usize << b;
        points.extend([p - 1, p, p + 1, p | (p >> 1)]);
    }
    points.extend([usize::MAX, usize::MAX - 1, usize::MAX / 2]);
    let mut ends: Vec<usize> = (0..=300).collect();
    for b in 9..64 {
        let p = 1usize << b;
        ends.extend([p - 1, p, p + 1]);
    }
    let mut keys = std::collections::HashMap::new();
    for &start in &points {
        ck.case(&format!("packing {name} L={L} start={start}"), || {
            for &len in &ends {
                let Some(end) = start.checked_add(len) else { continue };
                let want = (len as u128) < (1u128 << L)
                    && (start as u128) << L <= u64::MAX as u128
                    && (((start as u128) << L) | len as u128) < capacity;
                let got = SequenceKey::<Inner, L>::try_from_impl_key(start..end);
                ck.transitions(1);
                if let Some(k) = got {
                    let back = k.into_impl_key();
                    ensure!(back == (start..end), "({start}, {len}) became {back:?}");
                }
                ensure!(got.is_some() == want, "({start}, {len}) accepted: {}, representable: {want}", got.is_some());
            }
            Ok(())
        });
    }
    // No two small pairs share a key
    for start in 0..300usize {
        for len in 0..70usize {
            if let Some(k) = SequenceKey::<Inner, L>::try_from_impl_key(start..start + len) {
                let r = format!("{k:?}");
                if let Some(old) = keys.insert(r, (start, len)) {
                    ck.violation(&format!("packing {name} L={L}"), &format!("{old:?} and {:?} share a key", (start, len)));
                }
            }
        }
    }
}

pub fn run() {
    let ck = Ck::new("C02");
    let big = ops(4, 3);
    let small = ops(2, 2);
    let depth_small = ck.pick(4, 5);
    histories::<u8, SequenceKey<Spur, 8>>(ck, "u8/Spur", &big, 2);
    histories::<Collide, SequenceKey<Spur, 8>>(ck, "colliding/Spur", &big, 2);
    histories::<u8, SequenceKey<MiniSpur, 4>>(ck, "u8/MiniSpur4", &small, depth_small);
    histories::<Collide, SequenceKey<LargeSpur, 8>>(ck, "colliding/LargeSpur", &small, depth_small);
    if ck.thorough() {
        histories::<u8, SequenceKey<Spur, 8>>(ck, "u8/Spur", &ops(3, 3), 3);
    }
    for via in [false, true] {
        for len in 1..=4 {
            ck.case(&format!("exhaust MicroSpur/3 len={len} entry={via}"), || exhaustion::<MicroSpur, 3>(ck, len, via));
        }
        for len in [7, 8] {
            ck.case(&format!("exhaust MicroSpur/3 len={len} entry={via}"), || exhaustion::<MicroSpur, 3>(ck, len, via));
        }
        for len in [1, 3, 60, 254, 255, 256] {
            ck.case(&format!("exhaust MiniSpur/8 len={len} entry={via}"), || exhaustion::<MiniSpur, 8>(ck, len, via));
        }
    }
    packing::<MicroSpur, 0>(ck, "MicroSpur", 255);
    packing::<MicroSpur, 1>(ck, "MicroSpur", 255);
    packing::<MicroSpur, 4>(ck, "MicroSpur", 255);
    packing::<MicroSpur, 8>(ck, "MicroSpur", 255);
    packing::<MiniSpur, 4>(ck, "MiniSpur", 65535);
    packing::<MiniSpur, 8>(ck, "MiniSpur", 65535);
    packing::<Spur, 6>(ck, "Spur", u32::MAX as u128);
    packing::<Spur, 8>(ck, "Spur", u32::MAX as u128);
    packing::<Spur, 16>(ck, "Spur", u32::MAX as u128);
    packing::<LargeSpur, 8>(ck, "LargeSpur", u64::MAX as u128);
    packing::<LargeSpur, 32>(ck, "LargeSpur", u64::MAX as u128);
    ck.sample(|| json!({"script": format!("{:?}", [&big[20], &big[200]])}));
    ck.note("bound", format!("all depth-2 histories of {} operations (transactions of up to 4 steps), all depth-{depth_small} histories of {} operations; all key pairs on the grid", big.len(), small.len()));
    ck.finish()
}
