//! C09-C11: clang time traces
mod c09;
mod c10;
mod c11;
mod real;
pub use clang_time_trace::*;
pub use serde_json::{json, Value};
pub use std::{collections::HashMap, str::FromStr};
pub use vc::{ensure, Ck, Outcome};

fn main() {
    let id = std::env::args().nth(1).expect("usage: mc-trace ID");
    match id.as_str() {
        "C09" => c09::run(),
        "C10" => c10::run(),
        "C11" => c11::run(),
        "load" => {
            let t = ClangTrace::from_file(std::env::args().nth(2).unwrap());
            match t {
                Ok(t) => println!("{} activities, {} roots", t.all_activities().count(), t.root_activities().count()),
                Err(e) => println!("{e}"),
            }
        }
        _ => panic!("unknown property {id}"),
    }
}
