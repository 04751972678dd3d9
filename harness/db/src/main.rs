//! C17-C19: compilation databases, freshness and stored profiles
mod c17;
mod c18;
mod c19;
pub use cmakeperf::{commands::*, output};
pub use serde_json::{json, Value};
pub use std::{path::*, str::FromStr, time::*};
pub use vc::{ensure, Ck, Outcome};

/// Scratch directory, removed at the end
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(what: &str) -> Self {
        let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let p = base.join(format!("mc-db-{what}-{}", std::process::id()));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p.canonicalize().unwrap())
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir("/");
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn main() {
    let id = std::env::args().nth(1).expect("usage: mc-db ID");
    match id.as_str() {
        "C17" => c17::run(),
        "C18" => c18::run(),
        "C19" => c19::run(),
        _ => panic!("unknown property {id}"),
    }
}
