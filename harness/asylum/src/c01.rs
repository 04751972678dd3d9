use crate::{Collide, Item};
use asylum::lasso::{Key, LargeSpur, MicroSpur, MiniSpur, Spur};
use asylum::Interner;
use serde_json::json;
use vc::{ensure, quietly, sequences, Ck, Outcome};

/// Reference: values in order of first interning
fn check_all<T: Item, K: Key>(
    i: &Interner<T, K>,
    seen: &[(T, K)],
) -> Outcome {
    ensure!(i.len() == seen.len(), "len() is {} after {} distinct values", i.len(), seen.len());
    ensure!(i.is_empty() == seen.is_empty(), "is_empty() is {} with {} values", i.is_empty(), seen.len());
    for (n, (v, k)) in seen.iter().enumerate() {
        ensure!(i.get(*k) == v, "value #{n} {v:?} now resolves to {:?}", i.get(*k));
    }
    Ok(())
}

fn intern_one<T: Item, K: Key>(i: &mut Interner<T, K>, seen: &mut Vec<(T, K)>, v: T) -> Outcome {
    let k = i.intern(v.clone());
    match seen.iter().find(|(w, _)| *w == v) {
        Some((_, old)) => ensure!(*old == k, "second key for {v:?} differs from the first"),
        None => {
            if let Some((w, _)) = seen.iter().find(|(_, o)| *o == k) {
                return Err(format!("{v:?} got the key of {w:?}"));
            }
            seen.push((v, k));
        }
    }
    Ok(())
}

fn history<T: Item, K: Key>(ck: &Ck, ops: &[usize], alphabet: usize) -> Outcome {
    let mut i = Interner::<T, K>::new();
    let mut seen = Vec::new();
    let mut other: Option<(Interner<T, K>, Vec<(T, K)>)> = None;
    check_all(&i, &seen)?;
    for &op in ops {
        if op == alphabet {
            // Fork: the clone must evolve independently
            other = Some((i.clone(), seen.clone()));
        } else {
            intern_one(&mut i, &mut seen, T::make(op as u32))?;
        }
        check_all(&i, &seen)?;
        if let Some((o, s)) = &other {
            check_all(o, s)?;
        }
        ck.state(&seen.iter().map(|(v, k)| (format!("{v:?}"), k.into_usize())).collect::<Vec<_>>());
        ck.transitions(1);
    }
    if let Some((mut o, mut s)) = other {
        // Known values keep their keys in the clone, others get new ones
        for v in (0..=alphabet).rev() {
            intern_one(&mut o, &mut s, T::make(v as u32)).map_err(|e| format!("clone: {e}"))?;
        }
        check_all(&o, &s).map_err(|e| format!("clone: {e}"))?;
        let frozen = o.finalize();
        for (v, k) in &s {
            ensure!(frozen.get(*k) == v, "clone: {v:?} resolves to {:?} after freezing", frozen.get(*k));
        }
    }
    let mut again = i.clone();
    let mut known = seen.clone();
    for v in 0..=alphabet {
        intern_one(&mut again, &mut known, T::make(v as u32)).map_err(|e| format!("final clone: {e}"))?;
    }
    check_all(&again, &known).map_err(|e| format!("final clone: {e}"))?;
    check_all(&i, &seen)?;
    let frozen = i.finalize();
    let copy = frozen.clone();
    ensure!(copy == frozen, "the copy of a frozen interner differs");
    for (v, k) in &seen {
        ensure!(frozen.get(*k) == v, "{v:?} resolves to {:?} after freezing", frozen.get(*k));
    }
    Ok(())
}

fn histories<T: Item, K: Key>(ck: &'static Ck, name: &str, alphabet: usize, max_len: usize) {
    let prefixes: Vec<usize> = (0..=alphabet).collect();
    ck.case(&format!("{name}: empty history"), || history::<T, K>(ck, &[], alphabet));
    ck.par(&prefixes, |_, &first| {
        sequences(alphabet + 1, 0..=max_len - 1, |rest| {
            let mut ops = vec![first];
            ops.extend_from_slice(rest);
            ck.case(&format!("{name}: ops {ops:?} ({alphabet}=clone)"), || {
                history::<T, K>(ck, &ops, alphabet)
            });
        })
    });
}

/// Grow to `n` values, re-interning everything around every table growth
fn growth<T: Item, K: Key>(ck: &Ck, n: u32, stride: u32) -> Outcome {
    let mut i = Interner::<T, K>::new();
    let mut keys = Vec::new();
    for v in 0..n {
        let k = i.intern(T::make(v));
        keys.push(k);
        ensure!(i.len() == keys.len(), "len() {} after {} values", i.len(), keys.len());
        let around_pow2 = [v, v + 1, v + 2].iter().any(|x| x.is_power_of_two() || (x % 7 == 0 && (x / 7).is_power_of_two()));
        if around_pow2 || v % stride == 0 || v + 1 == n {
            let mut uniq = std::collections::HashSet::new();
            for (w, k) in keys.iter().enumerate() {
                ensure!(i.get(*k) == &T::make(w as u32), "value {w} lost after {} values", v + 1);
                ensure!(uniq.insert(k.into_usize()), "value {w} shares its key after {} values", v + 1);
                ensure!(i.intern(T::make(w as u32)) == *k, "re-interning value {w} after {} values changed its key", v + 1);
                ck.transitions(1);
            }
            ensure!(i.len() == keys.len(), "re-interning changed the size");
        }
    }
    let f = i.finalize();
    for (w, k) in keys.iter().enumerate() {
        ensure!(f.get(*k) == &T::make(w as u32), "value {w} lost by freezing");
    }
    ck.transitions(n as u64);
    Ok(())
}

/// Fill the key space and check it fails loudly, keeping old keys right
fn exhaustion<T: Item, K: Key>(ck: &Ck, capacity: usize) -> Outcome {
    let mut i = Interner::<T, K>::new();
    let mut keys = Vec::new();
    for v in 0..capacity {
        keys.push(i.intern(T::make(v as u32)));
    }
    let mut uniq = std::collections::HashSet::new();
    for k in &keys {
        ensure!(uniq.insert(k.into_usize()), "aliased key {} before exhaustion", k.into_usize());
    }
    for round in 0..3 {
        let r = quietly(|| i.intern(T::make((capacity + round) as u32)));
        ensure!(r.is_err(), "value #{} got a key in a key space of {capacity}", capacity + round);
        ensure!(i.len() == capacity, "failed interning changed the size to {}", i.len());
        for (w, k) in keys.iter().enumerate() {
            ensure!(i.get(*k) == &T::make(w as u32), "value {w} lost after exhaustion");
            ensure!(i.intern(T::make(w as u32)) == *k, "value {w} changed key after exhaustion");
        }
        ck.transitions(keys.len() as u64);
    }
    Ok(())
}

pub fn run() {
    let ck = Ck::new("C01");
    let len = ck.pick(9, 11);
    histories::<u8, Spur>(ck, "u8/Spur", 3, len);
    histories::<Collide, Spur>(ck, "colliding/Spur", 3, len);
    histories::<String, MicroSpur>(ck, "String/MicroSpur", 3, len);
    histories::<Collide, MiniSpur>(ck, "colliding/MiniSpur", 4, len - 1);
    histories::<u32, LargeSpur>(ck, "u32/LargeSpur", 4, len - 1);
    ck.case("growth u32/Spur", || growth::<u32, Spur>(ck, ck.pick(5_000, 70_000), ck.pick(97, 997)));
    ck.case("growth u32/LargeSpur", || growth::<u32, LargeSpur>(ck, ck.pick(2_000, 20_000), 997));
    ck.case("growth colliding/Spur", || growth::<Collide, Spur>(ck, ck.pick(150, 600), 11));
    ck.case("growth String/Spur", || growth::<String, Spur>(ck, 600, 31));
    ck.case("exhaust MicroSpur", || exhaustion::<u32, MicroSpur>(ck, 255));
    ck.case("exhaust MicroSpur colliding", || exhaustion::<Collide, MicroSpur>(ck, 255));
    ck.case("exhaust MiniSpur", || exhaustion::<u32, MiniSpur>(ck, 65_535));
    ck.sample(|| json!({"history": "u8/Spur: ops [0,1,0,3,2] (3=clone)", "oracle": "linear search in the list of first occurrences"}));
    ck.note("bound", format!("all histories up to length {len} over 3 values + clone, 5 item/key type pairs; growth to {} values; key spaces of 255 and 65535 exhausted", ck.pick(5000, 70000)));
    ck.finish()
}
