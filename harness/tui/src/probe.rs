//! `mc-tui probe DIR COLSxROWS [ARG..] -- KEY..`: look at what the program shows
use crate::{app::{App, Setup}, scratch};
use std::{path::PathBuf, time::Duration};
pub fn run() {
    let a: Vec<String> = std::env::args().skip(2).collect();
    let dir = PathBuf::from(&a[0]);
    let (c, r) = a[1].split_once('x').unwrap();
    let sep = a.iter().position(|x| x == "--").unwrap();
    let args: Vec<&str> = a[2..sep].iter().map(|s| s.as_str()).collect();
    let ctl = scratch().join("c");
    std::fs::create_dir_all(ctl.join("bin")).unwrap();
    std::os::unix::fs::symlink(std::env::current_exe().unwrap(), ctl.join("bin/clang++")).unwrap();
    let mut app = App::start(&Setup { dir: &dir, ctl: &ctl, args: &args, cols: c.parse().unwrap(), rows: r.parse().unwrap(), hold: false, reads: None, cpu: 0 });
    app.wait_until(Duration::from_secs(3), |a| a.screen.has("Press H") || a.screen.has("<"));
    app.settle();
    println!("{}", app.screen.text());
    for k in &a[sep + 1..] {
        let k2 = match k.as_str() {
            "right" => "\x1b[C".into(),
            "left" => "\x1b[D".into(),
            "up" => "\x1b[A".into(),
            "down" => "\x1b[B".into(),
            "enter" => "\r".into(),
            "esc" => "\x1b".into(),
            "tab" => "\t".into(),
            k => k.to_string(),
        };
        app.key(&k2);
        app.settle_for(Duration::from_millis(200), Duration::from_secs(3));
        println!("=== {k} {:?}\n{}", app.status, app.screen.text());
        for y in 0..app.screen.rows {
            let m: std::collections::BTreeSet<u8> = app.screen.marks[y].iter().copied().collect();
            print!("{m:?} ");
        }
        println!();
    }
    println!("unknown {:?} stderr {}", app.screen.unknown, app.stderr());
    drop(app);
    let _ = std::fs::remove_dir_all(scratch());
}
