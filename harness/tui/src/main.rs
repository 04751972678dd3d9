//! C23..: the interactive interface of the real `crofiler` program, in a
//! pseudo-terminal
mod app;
mod c23;
mod c24;
mod c24t;
mod c25;
mod c25e;
mod c26;
mod c27;
mod c28;
mod probe;
pub use serde_json::{json, Value};
use std::{path::PathBuf, sync::OnceLock};
pub use vc::{ensure, Ck, Outcome};

/// Scratch directory, removed at the end
pub fn scratch() -> &'static PathBuf {
    static DIR: OnceLock<PathBuf> = OnceLock::new();
    DIR.get_or_init(|| {
        let shm = PathBuf::from("/dev/shm");
        let base = if shm.is_dir() { shm } else { std::env::temp_dir() };
        // Left by earlier runs that were interrupted
        for e in base.read_dir().into_iter().flatten().flatten() {
            let name = e.file_name().to_string_lossy().into_owned();
            if let Some(pid) = name.strip_prefix("mc-tui-") {
                if !PathBuf::from(format!("/proc/{pid}")).exists() {
                    let _ = std::fs::remove_dir_all(e.path());
                }
            }
        }
        let dir = base.join(format!("mc-tui-{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        dir
    })
}

/// Finish a check: the scratch directory goes away
pub fn done(ck: &Ck) -> ! {
    let _ = std::fs::remove_dir_all(scratch());
    ck.finish()
}

fn main() {
    let me = std::env::args_os().next().unwrap();
    let me = std::path::Path::new(&me).file_name().unwrap().to_string_lossy().into_owned();
    if me == "clang++" || me == "cc" {
        app::compiler(&me);
    }
    let id = std::env::args().nth(1).expect("usage: mc-tui ID");
    scratch();
    match id.as_str() {
        "C23" => c23::run(),
        "C24" => c24::run(),
        "C25" => c25::run(),
        "C26" => c26::run(),
        "C27" => c27::run(),
        "C28" => c28::run(),
        "probe" => probe::run(),
        _ => panic!("unknown property {id}"),
    }
}
