//! C18: compilation commands and databases
use crate::*;
use std::sync::atomic::{AtomicU64, Ordering};

const ALPHA: [char; 12] = ['a', 'o', '-', ' ', '\'', '"', '\\', '\t', '$', '\n', '#', 'é'];

/// What a POSIX shell makes of a command: None if that is not specified here
/// (unterminated quotes, expansions, comments, several lines)
fn shell(s: &str) -> Option<Vec<String>> {
    let mut words = vec![];
    let mut word: Option<String> = None;
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            ' ' | '\t' => words.extend(word.take()),
            '\n' | '$' | '`' | ';' | '&' | '|' | '<' | '>' | '(' | ')' | '*' | '?' | '[' | '~' | '!' | '{' => return None,
            '#' if word.is_none() => return None,
            '\\' => match it.next()? {
                // Line continuation
                '\n' => return None,
                c => word.get_or_insert_default().push(c),
            },
            '\'' => {
                let w = word.get_or_insert_default();
                loop {
                    match it.next()? {
                        '\'' => break,
                        c => w.push(c),
                    }
                }
            }
            '"' => {
                let w = word.get_or_insert_default();
                loop {
                    match it.next()? {
                        '"' => break,
                        '$' | '`' => return None,
                        '\\' => match it.next()? {
                            c @ ('"' | '\\' | '$' | '`') => w.push(c),
                            '\n' => {}
                            c => {
                                w.push('\\');
                                w.push(c);
                            }
                        },
                        c => w.push(c),
                    }
                }
            }
            c => word.get_or_insert_default().push(c),
        }
    }
    words.extend(word);
    Some(words)
}

/// Make sure that the reference agrees with the real shell
fn validate(ck: &Ck, max: usize) {
    let mut cases = vec![];
    let mut script = String::new();
    vc::sequences(ALPHA.len(), 0..=max, |seq| {
        let s: String = seq.iter().map(|i| ALPHA[*i]).collect();
        if let Some(words) = shell(&s) {
            script += &format!("f {s}\n");
            cases.push((s, words));
        }
    });
    let script = format!("f() {{ for x in \"$@\"; do printf '%s\\1' \"$x\"; done; printf '\\2'; }}\n{script}");
    let scratch = Scratch::new("sh");
    let path = scratch.0.join("script.sh");
    std::fs::write(&path, script).unwrap();
    let out = std::process::Command::new("/bin/sh").arg(&path).output().expect("sh is available");
    let text = String::from_utf8(out.stdout).unwrap();
    let got: Vec<_> = text.split_terminator('\u{2}').collect();
    assert_eq!(got.len(), cases.len(), "the reference splitter disagrees with sh: {}", String::from_utf8_lossy(&out.stderr));
    for (g, (s, words)) in got.iter().zip(&cases) {
        let g: Vec<_> = g.split_terminator('\u{1}').collect();
        assert_eq!(g, *words, "the reference splitter disagrees with sh on {s:?}");
    }
    ck.note("splitter_checked_against_sh", cases.len());
}

fn view(e: &DatabaseEntry) -> (Option<String>, Vec<String>) {
    (e.program().map(|p| p.as_ref().to_string()), e.args().map(|a| a.as_ref().to_string()).collect())
}

fn command(cmd: &str, unspecified: &AtomicU64) -> Outcome {
    let e = DatabaseEntry::new(PathBuf::from("/nowhere"), cmd, PathBuf::from("in.cpp"), None);
    let got = view(&e);
    let out = e.output();
    let Some(words) = shell(cmd) else {
        unspecified.fetch_add(1, Ordering::Relaxed);
        return Ok(());
    };
    let expected = (words.first().cloned(), words.get(1..).unwrap_or(&[]).to_vec());
    ensure!(got == expected, "understood as {got:?} instead of {expected:?}");
    outputs(Path::new("/nowhere"), &expected.1, out)
}

/// Could this be the output file of that command?
fn outputs(dir: &Path, args: &[String], got: Option<PathBuf>) -> Outcome {
    let mut candidates = vec![];
    for (i, a) in args.iter().enumerate() {
        if a != "-o" {
            continue;
        }
        // Either nothing follows, or something that cannot name a file, or
        // the output file. The role of further -o is up to the compiler.
        candidates.push(args.get(i + 1).and_then(|o| {
            let p = Path::new(o);
            Some((p.parent().map_or(dir.to_owned(), |p| dir.join(p)), p.file_name()?.to_owned()))
        }));
    }
    if candidates.is_empty() {
        candidates.push(None);
    }
    for c in &candidates {
        match (c, &got) {
            (None, None) => return Ok(()),
            (Some((parent, name)), Some(got)) if got.file_name() == Some(name) => {
                let gp = got.parent().unwrap_or(Path::new(""));
                let same = match (parent.canonicalize(), gp.canonicalize()) {
                    (Ok(a), Ok(b)) => a == b,
                    (Err(_), Err(_)) => gp.components().eq(parent.components()),
                    _ => false,
                };
                if same {
                    return Ok(());
                }
            }
            _ => {}
        }
    }
    Err(format!("output file understood as {got:?} instead of {candidates:?}"))
}

/// Quote an argument in some style
fn quote(arg: &str, style: usize) -> String {
    let special = |c: char| !(c.is_ascii_alphanumeric() || "-_./+=".contains(c));
    match style {
        0 if !arg.is_empty() => arg.chars().map(|c| if special(c) { format!("\\{c}") } else { c.to_string() }).collect(),
        1 => format!("\"{}\"", arg.chars().map(|c| if "\"\\$`".contains(c) { format!("\\{c}") } else { c.to_string() }).collect::<String>()),
        _ => format!("'{}'", arg.replace('\'', "'\\''")),
    }
}

pub fn run() -> ! {
    let ck = Ck::new("C18");
    ck.case_timeout(300);
    validate(ck, 4);
    let unspecified = AtomicU64::new(0);

    // All short commands
    let max = ck.pick(7, 8);
    let firsts: Vec<Option<usize>> = (0..ALPHA.len() * ALPHA.len()).map(Some).chain([None]).collect();
    ck.par(&firsts, |_, first| {
        let mut n = 0u64;
        let mut go = |s: &str| {
            n += 1;
            match vc::quietly(|| command(s, &unspecified)) {
                Ok(Ok(())) => {}
                Ok(Err(e)) => ck.violation(&format!("command {s:?}"), &e),
                Err(p) => ck.violation(&format!("command {s:?}"), &format!("unexpected panic: {p}")),
            }
        };
        match first {
            None => vc::sequences(ALPHA.len(), 0..=1, |seq| go(&seq.iter().map(|i| ALPHA[*i]).collect::<String>())),
            Some(p) => {
                let mut s = String::new();
                vc::sequences(ALPHA.len(), 0..=max - 2, |seq| {
                    s.clear();
                    s.push(ALPHA[p / ALPHA.len()]);
                    s.push(ALPHA[p % ALPHA.len()]);
                    s.extend(seq.iter().map(|i| ALPHA[*i]));
                    go(&s);
                })
            }
        }
        ck.distinct_states(n);
        ck.transitions(n);
        ck.traces(n);
    });
    ck.note("max_command_chars", max);

    // All short argument lists, in every quoting style and directory
    let scratch = Scratch::new("c18");
    let root = scratch.0.clone();
    std::fs::create_dir_all(root.join("build/sub/deep")).unwrap();
    std::os::unix::fs::symlink(root.join("build/sub/deep"), root.join("link")).unwrap();
    let abs = root.join("build/sub/y.o").display().to_string();
    let tokens = ["-o", "c++", "-c", "-oz.o", "--o", "", "x.o", "./x.o", "sub/x.o", "sub/../x.o", "../x.o", "missing/x.o", "..", "a b.o", "it's \"x\".o", "$x\\y.o", &abs, "/"];
    let dirs = [root.join("build"), root.join("link"), root.join("link/.."), root.join("nowhere")];
    let max = ck.pick(4, 5);
    let firsts: Vec<usize> = (0..tokens.len()).collect();
    ck.par(&firsts, |_, first| {
        let mut n = 0u64;
        vc::sequences(tokens.len(), 0..=max - 1, |seq| {
            let words: Vec<String> = std::iter::once(first).chain(seq).map(|i| tokens[*i].to_string()).collect();
            // Longer lists matter only when an output is specified
            if words.len() == max && words[1..].iter().filter(|w| *w == "-o").count() != 1 {
                return;
            }
            for style in 0..3 {
                let cmd = words.iter().map(|w| quote(w, style)).collect::<Vec<_>>().join([" ", "  ", " \t"][style]);
                for dir in &dirs[if words.len() == max { style..style + 1 } else { 0..dirs.len() }] {
                    for explicit in [None, Some(PathBuf::from("given/out.o"))] {
                        n += 1;
                        let e = DatabaseEntry::new(dir.clone(), &*cmd, PathBuf::from("in.cpp"), explicit.clone());
                        let res = vc::quietly(|| {
                            ensure!(shell(&cmd).as_ref() == Some(&words), "machinery: bad quoting");
                            let (program, args) = view(&e);
                            ensure!(program.as_ref() == words.first() && args == words[1..], "understood as {program:?} {args:?}");
                            ensure!(e.current_dir() == dir && e.input() == Path::new("in.cpp"), "wrong directory or input");
                            match explicit {
                                Some(p) => {
                                    ensure!(e.output() == Some(p), "recorded output replaced with {:?}", e.output());
                                    Ok(())
                                }
                                None => outputs(dir, &args, e.output()),
                            }
                        });
                        if let Some(e) = res.unwrap_or_else(|p| Err(format!("unexpected panic: {p}"))).err() {
                            ck.violation(&format!("command {cmd:?} in {dir:?}"), &e);
                        }
                    }
                }
            }
        });
        ck.distinct_states(n);
        ck.transitions(n);
        ck.traces(n);
    });
    ck.note("max_args", max);

    databases(ck, &scratch.0);
    drop(scratch);
    ck.note("unspecified_commands", unspecified.load(Ordering::Relaxed));
    ck.sample(|| json!({"command": "c++ 'a b' -o \"x\\\"y.o\"", "args": ["a b", "-o", "x\"y.o"]}));
    ck.finish()
}

#[derive(Clone)]
struct Entry {
    json: String,
    file: String,
    directory: &'static str,
    command: String,
    output: Option<&'static str>,
}

fn entries() -> Vec<Entry> {
    let files = ["a.cpp", "b.cpp", "A.cpp", "./a.cpp", "/abs/a.cpp", "dir/a.cpp", "a.cpp ", "é.cpp", "a\"\\.cpp", "-o", "日本/a.cpp", "a.cppx"];
    let mut out = vec![];
    for (i, f) in files.iter().enumerate() {
        let directory = ["/b1", "/b2", "/b 3"][i % 3];
        let command = format!("c{i} -c -o o{i} \"q {i}\"");
        let output = [None, Some("out/o.o"), Some("")][(i / 2) % 3];
        let mut fields = vec![
            format!("\"directory\": {}", json!(directory)),
            format!("\"command\": {}", json!(command)),
            format!("\"file\": {}", json!(f)),
        ];
        if let Some(o) = output {
            fields.push(format!("\"output\":{}", json!(o)));
        }
        // Order of fields does not matter
        let k = i % fields.len();
        fields.rotate_left(k);
        let mut json = format!("{{{}}}", fields.join(","));
        if *f == "é.cpp" {
            json = json.replace('é', "\\u00e9");
        }
        out.push(Entry { json, file: f.to_string(), directory, command, output });
    }
    out
}

/// Does this database contain exactly these entries?
fn same(db: &CompilationDatabase, sel: &[&Entry], all: &[Entry]) -> Outcome {
    ensure!(db.entries().count() == sel.len(), "{} entries instead of {}", db.entries().count(), sel.len());
    for e in all {
        let expected = sel.iter().find(|s| s.file == e.file);
        let got = db.entry(Path::new(&e.file));
        let listed = db.entries().filter(|x| x.input().to_str() == Some(&*e.file)).count();
        ensure!(listed == expected.is_some() as usize, "{:?} is listed {listed} times", e.file);
        match (expected, got) {
            (None, None) => {}
            (Some(s), Some(g)) => {
                ensure!(g.input().to_str() == Some(&*s.file), "lookup of {:?} found {:?}", s.file, g.input());
                ensure!(g.current_dir().to_str() == Some(s.directory), "directory of {:?}: {:?}", s.file, g.current_dir());
                ensure!(g.raw_command() == s.command, "command of {:?}: {:?}", s.file, g.raw_command());
                let words = shell(&s.command).unwrap();
                ensure!(view(g) == (words.first().cloned(), words[1..].to_vec()), "{:?} parsed as {:?}", s.file, view(g));
                match s.output {
                    Some(o) => ensure!(g.output() == Some(PathBuf::from(o)), "output of {:?}: {:?}", s.file, g.output()),
                    None => outputs(Path::new(s.directory), &words[1..], g.output())?,
                }
            }
            _ => return Err(format!("lookup of {:?} found {got:?}", e.file)),
        }
    }
    ensure!(db.entry(Path::new("unknown.cpp")).is_none(), "found an unknown file");
    Ok(())
}

fn databases(ck: &'static Ck, dir: &Path) {
    std::env::set_current_dir(dir).unwrap();
    let all = entries();
    let file = Path::new("compile_commands.json");
    let wreck = |key: &str, text: &[u8]| {
        // Malformed databases are refused, whichever way they are loaded
        ck.state(text);
        ck.transitions(1);
        ck.case(key, || {
            if let Ok(s) = std::str::from_utf8(text) {
                ensure!(CompilationDatabase::from_str(s).is_err(), "malformed database was accepted");
            }
            std::fs::write(file, text).unwrap();
            match CompilationDatabase::load() {
                Err(DatabaseLoadError::FileNotFound) => Err("reported as missing".into()),
                Err(e) => {
                    ensure!(!e.to_string().is_empty(), "no message");
                    Ok(())
                }
                Ok(_) => Err("malformed database file was accepted".into()),
            }
        });
    };
    let max = ck.pick(3, 4);
    vc::sequences(all.len(), 0..=max, |seq| {
        if (1..seq.len()).any(|i| seq[..i].contains(&seq[i])) {
            return;
        }
        let sel: Vec<_> = seq.iter().map(|i| &all[*i]).collect();
        let text = format!("[\n{}\n]\n", sel.iter().map(|e| e.json.clone()).collect::<Vec<_>>().join(",\n"));
        ck.state(&text);
        ck.transitions(seq.len() as u64 + 1);
        let names: Vec<_> = sel.iter().map(|e| &*e.file).collect();
        ck.case(&format!("database of {names:?}"), || {
            let db = CompilationDatabase::from_str(&text).map_err(|e| format!("refused: {e}"))?;
            same(&db, &sel, &all)?;
            // Built by hand
            let mut manual = CompilationDatabase::new();
            ensure!(manual.entries().next().is_none(), "new database is not empty");
            for s in &sel {
                let e = DatabaseEntry::from_str(&s.json).map_err(|e| format!("entry refused: {e}"))?;
                ensure!(e == DatabaseEntry::new(PathBuf::from(s.directory), &*s.command, PathBuf::from(&s.file), s.output.map(PathBuf::from)), "entry differs");
                manual.push(e);
            }
            same(&manual, &sel, &all)?;
            ensure!(manual == db && CompilationDatabase::from_entries(db.entries().cloned()) == db, "databases differ");
            if seq.len() <= 2 {
                std::fs::write(file, &text).unwrap();
                let loaded = CompilationDatabase::load().map_err(|e| format!("not loaded: {e}"))?;
                same(&loaded, &sel, &all)?;
            }
            manual.clear();
            same(&manual, &[], &all)
        });
        if seq.len() == 2 && seq[0] < 4 {
            // Every truncation
            let text = text.trim_end();
            for cut in 0..text.len() {
                if text.is_char_boundary(cut) {
                    wreck(&format!("database of {names:?} cut after {cut} bytes"), &text.as_bytes()[..cut]);
                }
            }
            for tail in ["]", ",", "x", "[]", "{}"] {
                wreck(&format!("database of {names:?} followed by {tail:?}"), format!("{text}{tail}").as_bytes());
            }
            // Every malformed field of every entry, at every position
            for pos in 0..2 {
                for field in ["directory", "command", "file", "output"] {
                    let bad = [json!(null), json!(1), json!(true), json!([]), json!(["a"]), json!({}), json!({"a": "b"})];
                    let variants = bad.iter().map(Some).chain([None]);
                    for v in variants {
                        let mut doc: Value = serde_json::from_str(text).unwrap();
                        let o = doc[pos].as_object_mut().unwrap();
                        match v {
                            // An absent output is fine
                            None | Some(Value::Null) if field == "output" => continue,
                            None => drop(o.remove(field)),
                            Some(v) => drop(o.insert(field.into(), v.clone())),
                        }
                        wreck(&format!("database of {names:?} with {field} of entry {pos} = {v:?}"), doc.to_string().as_bytes());
                    }
                }
                for v in [json!(null), json!("a"), json!(1), json!({})] {
                    let mut doc: Value = serde_json::from_str(text).unwrap();
                    doc[pos] = v.clone();
                    wreck(&format!("database of {names:?} with entry {pos} = {v}"), doc.to_string().as_bytes());
                }
            }
        }
    });
    for bad in ["", " ", "null", "{}", "\"a\"", "1", "[", "[[]]", "[null]"] {
        wreck(&format!("database {bad:?}"), bad.as_bytes());
    }
    wreck("database with invalid UTF-8", b"[{\"directory\":\"/\",\"command\":\"a\xff\",\"file\":\"a\"}]");
    ck.note("max_entries", max);
    // Absence and unreadable databases
    std::fs::remove_file(file).unwrap();
    ck.case("no database", || match CompilationDatabase::load() {
        Err(DatabaseLoadError::FileNotFound) => Ok(()),
        other => Err(format!("{other:?}")),
    });
    std::fs::create_dir(file).unwrap();
    ck.case("database is a directory", || match CompilationDatabase::load() {
        Err(DatabaseLoadError::FileNotFound) | Ok(_) => Err("wrong verdict".into()),
        Err(_) => Ok(()),
    });
    ck.transitions(2);
}
