//! C29: the `simpp` utility
use crate::{ast::*, few, names};
use std::{
    fs::File,
    io::{Read, Write},
    os::fd::{FromRawFd, RawFd},
    process::{Command, Stdio},
    time::{Duration, Instant},
};
use vc::{ensure, Ck, Outcome};

/// What is connected to the standard input
#[derive(Clone, Debug)]
enum In {
    Null,
    Tty,
    /// A file with this content
    File(Vec<u8>),
    /// A pipe into which these pieces are written, then closed
    Pipe(Vec<Vec<u8>>),
    /// A pipe that nobody writes to, nor closes
    Open,
}

struct Got {
    code: Option<i32>,
    out: String,
    err: String,
}

fn pipe_in(p: &[&[u8]]) -> In {
    In::Pipe(p.iter().map(|p| p.to_vec()).collect())
}

fn run(args: &[&str], stdin: &In) -> Result<Got, String> {
    let mut cmd = Command::new(std::env::var_os("VERIF_SIMPP").expect("VERIF_SIMPP"));
    cmd.args(args).current_dir("/").env_clear().env("RUST_BACKTRACE", "0").stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut keep: Option<File> = None;
    match stdin {
        In::Null => cmd.stdin(Stdio::null()),
        In::Tty => {
            let (mut m, mut s): (RawFd, RawFd) = (0, 0);
            unsafe {
                let size = libc::winsize { ws_row: 20, ws_col: 70, ws_xpixel: 0, ws_ypixel: 0 };
                assert_eq!(libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null_mut(), &size as *const _ as *mut _), 0);
                libc::fcntl(m, libc::F_SETFD, libc::FD_CLOEXEC);
                libc::fcntl(s, libc::F_SETFD, libc::FD_CLOEXEC);
                keep = Some(File::from_raw_fd(m));
                cmd.stdin(File::from_raw_fd(s))
            }
        }
        In::File(content) => {
            let fd = unsafe { libc::memfd_create(c"name".as_ptr(), libc::MFD_CLOEXEC) };
            assert!(fd >= 0);
            let mut f = unsafe { File::from_raw_fd(fd) };
            f.write_all(content).unwrap();
            std::io::Seek::rewind(&mut f).unwrap();
            cmd.stdin(f)
        }
        In::Pipe(_) | In::Open => cmd.stdin(Stdio::piped()),
    };
    let mut child = cmd.spawn().map_err(|e| format!("cannot start simpp: {e}"))?;
    drop(cmd);
    let mut input = child.stdin.take();
    if let In::Pipe(pieces) = stdin {
        let mut w = input.take().unwrap();
        for p in pieces {
            let _ = w.write_all(p);
            let _ = w.flush();
            // Until it has been read
            let mut left: libc::c_int = 1;
            let end = Instant::now() + Duration::from_millis(200);
            while left > 0 && Instant::now() < end {
                unsafe { libc::ioctl(std::os::fd::AsRawFd::as_raw_fd(&w), libc::FIONREAD, &mut left) };
                std::thread::yield_now();
            }
        }
    }
    let mut o = child.stdout.take().unwrap();
    let mut e = child.stderr.take().unwrap();
    let errs = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = e.read_to_end(&mut b);
        b
    });
    let outs = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = o.read_to_end(&mut b);
        b
    });
    let end = Instant::now() + Duration::from_secs(20);
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break s;
        }
        if Instant::now() > end {
            let _ = child.kill();
            let _ = child.wait();
            return Err(format!("simpp {args:?} does not end"));
        }
        std::thread::sleep(Duration::from_micros(300));
    };
    drop((input, keep));
    Ok(Got {
        code: status.code(),
        out: String::from_utf8(outs.join().unwrap()).map_err(|e| format!("output is not UTF-8: {e}"))?,
        err: String::from_utf8_lossy(&errs.join().unwrap()).into(),
    })
}

fn prints(args: &[&str], stdin: &In, want: &str) -> Outcome {
    let got = run(args, stdin)?;
    ensure!(got.code == Some(0), "simpp {args:?} with {stdin:?} ends with {:?}: {}", got.code, got.err);
    ensure!(got.out == format!("{want}\n"), "simpp {args:?} with {stdin:?} prints {:?}, expected {want:?}", got.out);
    Ok(())
}

fn fails(args: &[&str], stdin: &In) -> Outcome {
    let got = run(args, stdin)?;
    ensure!(got.code != Some(0), "simpp {args:?} with {stdin:?} succeeds: {:?}", got.out);
    ensure!(got.out.is_empty(), "simpp {args:?} with {stdin:?} fails, but prints {:?}", got.out);
    ensure!(!got.err.trim().is_empty(), "simpp {args:?} with {stdin:?} fails without a message");
    Ok(())
}

/// Wide characters take two columns
pub fn cols(s: &str) -> usize {
    s.chars().map(|c| if ('\u{2e80}'..'\u{a000}').contains(&c) { 2 } else { 1 }).sum()
}

/// The simplifications of a name, from the shortest to the full one
pub fn levels(t: &Ty) -> Vec<String> {
    let full = t.full();
    let mut levels = vec![];
    loop {
        levels.push(t.at(levels.len()));
        if *levels.last().unwrap() == full {
            return levels;
        }
    }
}

pub fn fitting(levels: &[String], budget: usize) -> &str {
    levels.iter().rev().find(|l| cols(l) <= budget).map(|s| &s[..]).unwrap_or("…")
}

const README_NAME: &str = "Acts::EigenStepper<Acts::StepperExtensionList<Acts::detail::GenericDefaultExtension<double> >, Acts::detail::VoidAuctioneer>::step<Acts::Propagator<Acts::EigenStepper<>, Acts::Navigator>::State<Acts::PropagatorOptions<Acts::ActionList<ActsFatras::detail::SimulationActor<std::mersenne_twister_engine<long unsigned int, 32, 624, 397, 31, 2567483615, 11, 4294967295, 7, 2636928640, 15, 4022730752, 18, 1812433253>, ActsFatras::NoDecay> > > > >(Acts::Propagator<Acts::EigenStepper<Acts::StepperExtensionList<Acts::detail::GenericDefaultExtension<double> >, Acts::detail::VoidAuctioneer>, Acts::Navigator>::State<Acts::PropagatorOptions<Acts::ActionList<ActsFatras::detail::SimulationActor<ActsFatras::NoDecay, ActsFatras::AbsPdgSelector<(Acts::PdgParticle)11> >, (anonymous namespace)::HitSurfaceSelector> > > &) const";

pub fn check() -> ! {
    let ck = Ck::new("C29");
    let spellings: [fn(usize) -> Vec<String>; 4] = [
        |n| vec!["-c".into(), n.to_string()],
        |n| vec![format!("-c{n}")],
        |n| vec!["--cols".into(), n.to_string()],
        |n| vec![format!("--cols={n}")],
    ];
    let other = pipe_in(&[b"other<name>"]);
    // All names, with a budget for each level of detail
    names(ck, ck.pick(0, 1), ck.pick(1, 1), |t| {
        let full = t.full();
        if !ck.state(&full) {
            return;
        }
        let levels = levels(t);
        let n = vc::h(&full) as usize;
        let mut budgets: Vec<usize> = levels.iter().flat_map(|l| [cols(l).max(2) - 1, cols(l)]).collect();
        budgets.extend([1, 65535]);
        budgets.sort();
        budgets.dedup();
        if !ck.thorough() {
            // Every channel sees every level of some names
            let keep = budgets[n / 64 % budgets.len()];
            budgets.retain(|b| levels.len() < 2 || *b == keep);
        }
        for b in budgets {
            ck.transitions(1);
            ck.case(&format!("{full} in {b} columns"), || {
                let want = fitting(&levels, b);
                let mut args = spellings[n % 4](b);
                let stdin = match n / 4 % 6 {
                    0 | 1 if full.starts_with('-') => pipe_in(&[full.as_bytes()]),
                    0 => {
                        args.push(full.clone());
                        In::Null
                    }
                    1 => {
                        args.insert(0, full.clone());
                        In::Open
                    }
                    2 => In::File(full.clone().into_bytes()),
                    3 => In::File(format!("{full}\n").into_bytes()),
                    4 => pipe_in(&[full.as_bytes(), b"\n"]),
                    _ => {
                        let (a, b) = full.as_bytes().split_at(full.len() / 2);
                        pipe_in(&[a, b])
                    }
                };
                let args: Vec<&str> = args.iter().map(|a| &a[..]).collect();
                prints(&args, &stdin, want)
            });
        }
    });
    // A few names in all ways, and at all widths
    let few = few();
    ck.par(&few, |_, t| {
        let full = t.full();
        let levels = levels(t);
        for b in (1..=cols(&full) + 1).chain([255, 256, 65535]) {
            let want = fitting(&levels, b);
            for (i, s) in spellings.iter().enumerate() {
                let s = s(b);
                let flags: Vec<&str> = s.iter().map(|a| &a[..]).collect();
                let with = |pre: &[&str], post: &[&str]| -> Vec<String> { pre.iter().chain(&flags).chain(post).map(|s| s.to_string()).collect() };
                let mut ways: Vec<(Vec<String>, In)> = vec![
                    (with(&[], &[&full]), In::Null),
                    (with(&[&full], &[]), In::Tty),
                    (with(&[], &["--", &full]), In::Open),
                    (with(&[], &[&full]), other.clone()),
                    (with(&[], &[&full]), In::File(b"other<name>".to_vec())),
                    (with(&[], &[]), In::File(full.clone().into_bytes())),
                ];
                if i == 0 || ck.thorough() {
                    for end in ["", "\n", "\r\n", " \n", "\n\n"] {
                        ways.push((with(&[], &[]), In::File(format!("{full}{end}").into_bytes())));
                        ways.push((with(&[], &[]), pipe_in(&[full.as_bytes(), end.as_bytes()])));
                    }
                    // Written in two pieces, possibly amidst a character
                    for cut in 0..=full.len() {
                        if ck.thorough() || b % 16 == cut % 16 {
                            let (x, y) = full.as_bytes().split_at(cut);
                            ways.push((with(&[], &[]), pipe_in(&[x, y])));
                        }
                    }
                }
                for (args, stdin) in ways {
                    let args: Vec<&str> = args.iter().map(|a| &a[..]).collect();
                    ck.transitions(1);
                    ck.case(&format!("{args:?} with {stdin:?}"), || prints(&args, &stdin, want));
                }
            }
        }
    });
    // Mistakes
    let mut bad: Vec<(Vec<&str>, In)> = vec![];
    for stdin in [In::Null, In::Tty, pipe_in(&[]), pipe_in(&[b"\n"]), In::File(vec![]), In::File(b"a\xff".to_vec()), pipe_in(&[b"a<\xff>"])] {
        for flags in [&["-c", "80"][..], &["--cols=1"]] {
            bad.push((flags.to_vec(), stdin.clone()));
        }
    }
    for name in ["", "f(", "a<", "a>", "a b c", "a\0b", "a<b", "::", "a::", "f(x))", "<", "'"] {
        for flags in [&["-c", "80"][..], &["--cols=1"]] {
            let mut args = flags.to_vec();
            bad.push((args.clone(), In::File(name.as_bytes().to_vec())));
            if !name.contains('\0') {
                args.push(name);
                bad.push((args.clone(), In::Null));
                bad.push((args, other.clone()));
            }
        }
    }
    for stdin in [In::Null, other.clone()] {
        for args in [
            &["a"][..],
            &[],
            &["-c"],
            &["-c", "a"],
            &["-c", "0", "a<b>"],
            &["-c", "-1", "a"],
            &["-c", "65536", "a"],
            &["-c", "1.5", "a"],
            &["-c", "", "a"],
            &["-c", "80x", "a"],
            &["--cols=", "a"],
            &["-c80", "a", "b"],
            &["-c80", "-c81", "a"],
            &["-c80", "--other", "a"],
            &["-x", "-c80", "a"],
        ] {
            bad.push((args.to_vec(), stdin.clone()));
        }
    }
    ck.par(&bad, |_, (args, stdin)| {
        ck.transitions(1);
        ck.case(&format!("mistake: {args:?} with {stdin:?}"), || fails(args, stdin));
    });
    // The example of the documentation
    ck.case("documented example", || {
        let want = "Acts::EigenStepper<…>::step<…::State<…>>(…) const";
        prints(&["-c80", README_NAME], &In::Null, want)?;
        prints(&["-c80"], &In::File(format!("{README_NAME}\n").into_bytes()), want)
    });
    ck.note("names_in_all_ways", few.len());
    ck.note("mistakes", bad.len());
    ck.finish()
}
