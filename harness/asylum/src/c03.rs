use asylum::lasso::Spur;
use asylum::path::{PathInterner, PathKey};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use vc::{ensure, sequences, Ck, Outcome};

type Paths = PathInterner<Spur, PathKey<Spur, 8>>;

/// Textbook lexical normalization; None for a relative path
fn reference(path: &str) -> Option<Vec<String>> {
    let rest = path.strip_prefix('/')?;
    let mut out = vec!["/".to_string()];
    for c in rest.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                if out.len() > 1 {
                    out.pop();
                }
            }
            c => out.push(c.into()),
        }
    }
    Some(out)
}

#[derive(Default)]
struct World {
    p: Paths,
    known: BTreeMap<Vec<String>, PathKey<Spur, 8>>,
    by_key: HashMap<PathKey<Spur, 8>, Vec<String>>,
    used: BTreeSet<String>,
    seen: BTreeSet<String>,
    order: Vec<Vec<String>>,
}

impl World {
    fn intern(&mut self, path: &str) -> Outcome {
        let before = (self.p.len(), self.p.num_components(), self.p.max_path_len(), self.p.is_empty());
        let got = self.p.intern(path);
        match (reference(path), got) {
            (None, Err(e)) => {
                let after = (self.p.len(), self.p.num_components(), self.p.max_path_len(), self.p.is_empty());
                ensure!(before == after, "refused path changed the statistics");
                let msg = e.to_string();
                ensure!(msg.contains(&format!("{path:?}")), "error does not name the path: {msg}");
                Ok(())
            }
            (None, Ok(_)) => Err("relative path accepted".into()),
            (Some(_), Err(e)) => Err(format!("absolute path refused: {e}")),
            (Some(norm), Ok(key)) => {
                for c in path.split('/').filter(|c| !["", ".", ".."].contains(c)) {
                    self.seen.insert(c.into());
                }
                self.seen.insert("/".into());
                self.used.extend(norm.iter().cloned());
                match self.known.get(&norm) {
                    Some(k) => ensure!(*k == key, "key differs from that of an equivalent path"),
                    None => {
                        if let Some(other) = self.by_key.insert(key, norm.clone()) {
                            return Err(format!("shares its key with {other:?}"));
                        }
                        self.known.insert(norm.clone(), key);
                        self.order.push(norm.clone());
                    }
                }
                self.resolve(&norm, key)
            }
        }
    }

    fn resolve(&self, norm: &[String], key: PathKey<Spur, 8>) -> Outcome {
        let got = self.p.get(key);
        let comps: Vec<String> = got.components().map(|c| c.value().to_string()).collect();
        ensure!(comps == norm, "resolves to {comps:?} instead of {norm:?}");
        let rev: Vec<String> = got.components().rev().map(|c| c.value().to_string()).collect();
        ensure!(rev.iter().rev().eq(norm.iter()), "reversed components are {rev:?}");
        let text = if norm.len() == 1 { "/".into() } else { format!("/{}", norm[1..].join("/")) };
        ensure!(got.to_string() == text, "displays as {got} instead of {text}");
        ensure!(got.to_boxed_path().to_str() == Some(&text), "converts to {:?}", got.to_boxed_path());
        ensure!(got == self.p.get(key), "accessor differs from itself");
        Ok(())
    }

    fn check(&self) -> Outcome {
        ensure!(self.p.len() == self.known.len(), "{} paths reported, {} known", self.p.len(), self.known.len());
        ensure!(self.p.is_empty() == self.known.is_empty(), "wrong emptiness");
        let total: usize = self.known.keys().map(|k| k.len()).sum();
        ensure!(self.p.num_components() == total, "{} components reported, {total} expected", self.p.num_components());
        ensure!(self.p.max_path_len() == self.known.keys().map(|k| k.len()).max(), "max length {:?}", self.p.max_path_len());
        let n = self.p.num_unique_components();
        ensure!(n >= self.used.len() && n <= self.seen.len(), "{n} unique components, expected {}..={}", self.used.len(), self.seen.len());
        Ok(())
    }

    fn check_equality(&self) -> Outcome {
        // Accessors compare like the paths and components that they denote
        let few: Vec<_> = self.known.iter().take(24).collect();
        for (a, ka) in &few {
            for (b, kb) in &few {
                ensure!((self.p.get(**ka) == self.p.get(**kb)) == (a == b), "accessors to {a:?} and {b:?} compare wrongly");
            }
        }
        let paths: Vec<_> = few.iter().map(|(_, k)| self.p.get(**k)).collect();
        let comps: Vec<_> = paths.iter().flat_map(|p| p.components()).take(24).collect();
        for a in &comps {
            for b in &comps {
                ensure!((a == b) == (a.value() == b.value()), "components {:?} and {:?} compare wrongly", a.value(), b.value());
            }
        }
        Ok(())
    }

    fn check_all(self) -> Outcome {
        self.check()?;
        let mut comp_keys: BTreeMap<String, Spur> = BTreeMap::new();
        for (norm, key) in &self.known {
            self.resolve(norm, *key).map_err(|e| format!("{norm:?}: {e}"))?;
            for c in self.p.get(*key).components() {
                let k = *comp_keys.entry(c.value().into()).or_insert(c.key());
                ensure!(k == c.key(), "component {:?} has two keys", c.value());
            }
        }
        let distinct: BTreeSet<_> = comp_keys.values().collect();
        ensure!(distinct.len() == comp_keys.len(), "two components share a key");
        self.check_equality()?;
        let World { p, known, .. } = self;
        let frozen = p.finalize();
        for (norm, key) in &known {
            let got: Vec<String> = frozen.get(*key).components().map(|c| c.value().to_string()).collect();
            ensure!(got == *norm, "{norm:?} became {got:?} after freezing");
            let path = frozen.get(*key);
            for c in path.components() {
                ensure!(comp_keys.get(&*c.value()) == Some(&c.key()), "component {:?} changed its key by freezing", c.value());
            }
            let text = format!("/{}", norm[1..].join("/"));
            ensure!(path.to_string() == text, "{norm:?} displays as {path} after freezing");
            ensure!(path.to_boxed_path().to_str() == Some(&text), "{norm:?} converts to {:?} after freezing", path.to_boxed_path());
        }
        Ok(())
    }
}

pub fn run() {
    let ck = Ck::new("C03");
    let alpha = ["", "a", "b", ".", "..", "ü", "a b", "...", ".a"];
    // 1. one shared history of all short paths, for different orders of the
    // alphabet (so that equivalent paths come before/after each other)
    let len = ck.pick(5, 6);
    let rotations: Vec<usize> = (0..alpha.len()).collect();
    ck.par(&rotations, |_, &rot| {
        let mut w = World::default();
        let mut n = 0u64;
        for abs in [true, false] {
            sequences(alpha.len(), 0..=len, |s| {
                let body: Vec<&str> = s.iter().map(|&i| alpha[(i + rot) % alpha.len()]).collect();
                let path = format!("{}{}", if abs { "/" } else { "" }, body.join("/"));
                ck.case(&format!("path {path:?} (alphabet rotated by {rot})"), || {
                    w.intern(&path)?;
                    n += 1;
                    if n % 64 == 0 || n < 300 {
                        w.check()?;
                    }
                    Ok(())
                });
                ck.transitions(1);
                if let Some(norm) = reference(&path) {
                    ck.state(&norm);
                }
            });
        }
        ck.case(&format!("shared history rotated by {rot}"), || w.check_all());
    });
    // 2. all longer paths over the components that matter, fresh interner per first component
    let core = ["a", "..", "b", ".", ""];
    let firsts: Vec<usize> = (0..core.len() * core.len()).collect();
    ck.par(&firsts, |_, &first| {
        let mut w = World::default();
        sequences(core.len(), 0..=ck.pick(6, 8), |s| {
            let mut body = vec![core[first / core.len()], core[first % core.len()]];
            body.extend(s.iter().map(|&i| core[i]));
            let path = format!("/{}", body.join("/"));
            ck.case(&format!("path {path:?}"), || w.intern(&path));
            ck.transitions(1);
        });
        ck.case(&format!("history of paths starting with #{first}"), || w.check_all());
    });
    // 3. all short histories with statistics checked at every step
    let hist = ["/", "/a", "/a/..", "/a/b", "/a/b/../c", "a", "../a", "", "/b/./a//", "/.."];
    let starts: Vec<usize> = (0..hist.len()).collect();
    ck.par(&starts, |_, &f| {
        sequences(hist.len(), 0..=ck.pick(4, 5), |s| {
            let mut seq = vec![f];
            seq.extend_from_slice(s);
            let paths: Vec<_> = seq.iter().map(|&i| hist[i]).collect();
            ck.case(&format!("history {paths:?}"), || {
                let mut w = World::default();
                w.check()?;
                for p in &paths {
                    w.intern(p).map_err(|e| format!("{p:?}: {e}"))?;
                    w.check().map_err(|e| format!("after {p:?}: {e}"))?;
                    ck.transitions(1);
                }
                w.check_all()
            });
        })
    });
    // 4. long paths up to the 8-bit component count limit
    for n in 1..=254usize {
        ck.case(&format!("path of {n} components"), || {
            let mut w = World::default();
            let p: String = (0..n).map(|i| format!("/c{i}")).collect();
            w.intern(&p)?;
            let q: String = (0..n).rev().map(|i| format!("/c{i}")).collect();
            w.intern(&q)?;
            w.intern(&(p.clone() + "/.."))?;
            w.check()?;
            w.check_all()
        });
    }
    ck.sample(|| json!({"path": "/a/../../b//./ü", "normal": reference("/a/../../b//./ü")}));
    ck.note("bound", format!("all paths of up to {len} components over {alpha:?} (absolute and relative, 9 interning orders), up to {} over {core:?}; all histories of up to {} of {} paths", ck.pick(8, 10), ck.pick(5, 6), hist.len()));
    ck.finish()
}
