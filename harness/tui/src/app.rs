//! One run of the real program in a pseudo-terminal, every file operation and
//! every compiler it starts being under the control of the driver.
use std::{
    fs::File,
    io::{Read, Write},
    os::{
        fd::{AsRawFd, FromRawFd, RawFd},
        unix::{
            net::{UnixListener, UnixStream},
            process::CommandExt,
        },
    },
    path::{Path, PathBuf},
    process::{Child, Command, ExitStatus},
    time::{Duration, Instant},
};

/// What the terminal shows
pub struct Screen {
    pub cols: usize,
    pub rows: usize,
    cells: Vec<Vec<char>>,
    /// Which cells are highlighted (reverse or coloured background)
    pub marks: Vec<Vec<u8>>,
    x: usize,
    y: usize,
    sgr: u8,
    esc: Vec<u8>,
    utf: Vec<u8>,
    state: u8,
    pub unknown: Vec<String>,
}
/// Second half of a wide character
const COVERED: char = '\0';
/// Does this character take two columns?
pub fn wide(c: char) -> bool {
    matches!(c, '\u{1100}'..='\u{115f}' | '\u{2e80}'..='\u{a4cf}' | '\u{ac00}'..='\u{d7a3}' | '\u{ff00}'..='\u{ff60}' | '\u{1f300}'..='\u{1faff}')
}
impl Screen {
    pub fn new(cols: usize, rows: usize) -> Self {
        Screen {
            cols,
            rows,
            cells: vec![vec![' '; cols]; rows],
            marks: vec![vec![0; cols]; rows],
            x: 0,
            y: 0,
            sgr: 0,
            esc: vec![],
            utf: vec![],
            state: 0,
            unknown: vec![],
        }
    }

    /// Returns whether something visible changed
    fn feed(&mut self, bytes: &[u8]) -> bool {
        let mut changed = false;
        for &b in bytes {
            match self.state {
                // ESC
                1 => match b {
                    b'[' => {
                        self.state = 2;
                        self.esc.clear();
                    }
                    b'(' | b')' => self.state = 3,
                    _ => self.state = 0,
                },
                // CSI
                2 => {
                    if (0x40..=0x7e).contains(&b) {
                        self.state = 0;
                        changed |= self.csi(b);
                    } else {
                        self.esc.push(b);
                    }
                }
                3 => self.state = 0,
                _ => match b {
                    0x1b => self.state = 1,
                    b'\r' => self.x = 0,
                    b'\n' => self.y = (self.y + 1).min(self.rows - 1),
                    8 => self.x = self.x.saturating_sub(1),
                    0..=0x1f => {}
                    _ => {
                        self.utf.push(b);
                        match std::str::from_utf8(&self.utf) {
                            Ok(s) => {
                                let c = s.chars().next().unwrap();
                                self.utf.clear();
                                changed |= self.put(c);
                            }
                            Err(e) if e.error_len().is_some() => self.utf.clear(),
                            Err(_) => {}
                        }
                    }
                },
            }
        }
        changed
    }

    fn put(&mut self, c: char) -> bool {
        let mut changed = false;
        if self.x < self.cols && self.y < self.rows {
            let cell = &mut self.cells[self.y][self.x];
            let mark = &mut self.marks[self.y][self.x];
            changed = *cell != c || *mark != self.sgr;
            *cell = c;
            *mark = self.sgr;
        }
        self.x += 1;
        if wide(c) {
            changed |= self.put(COVERED);
        }
        changed
    }

    fn csi(&mut self, end: u8) -> bool {
        let text = String::from_utf8_lossy(&self.esc).into_owned();
        let nums: Vec<usize> = text.split([';', ':']).map(|t| t.parse().unwrap_or(0)).collect();
        let n = |i: usize| nums.get(i).copied().unwrap_or(0);
        match end {
            b'H' | b'f' => {
                self.y = n(0).max(1) - 1;
                self.x = n(1).max(1) - 1;
            }
            b'A' => self.y = self.y.saturating_sub(n(0).max(1)),
            b'B' => self.y += n(0).max(1),
            b'C' => self.x += n(0).max(1),
            b'D' => self.x = self.x.saturating_sub(n(0).max(1)),
            b'G' => self.x = n(0).max(1) - 1,
            b'J' => {
                let changed = self.cells.iter().flatten().any(|c| *c != ' ');
                self.cells.iter_mut().flatten().for_each(|c| *c = ' ');
                self.marks.iter_mut().flatten().for_each(|c| *c = 0);
                return changed;
            }
            b'K' => {
                if self.y < self.rows {
                    for x in self.x.min(self.cols)..self.cols {
                        self.cells[self.y][x] = ' ';
                        self.marks[self.y][x] = 0;
                    }
                }
                return true;
            }
            b'm' => {
                // Bit 7: reverse video; low bits: background colour + 1
                let mut i = 0;
                while i < nums.len() {
                    match nums[i] {
                        0 => self.sgr = 0,
                        7 => self.sgr |= 0x80,
                        27 => self.sgr &= 0x7f,
                        40..=47 => self.sgr = self.sgr & 0x80 | (nums[i] - 39) as u8,
                        100..=107 => self.sgr = self.sgr & 0x80 | (nums[i] - 91) as u8,
                        49 => self.sgr &= 0x80,
                        38 | 48 => {
                            let bg = nums[i] == 48;
                            let v = match n(i + 1) {
                                5 => {
                                    i += 2;
                                    n(i)
                                }
                                2 => {
                                    i += 4;
                                    n(i - 2) * 7 + n(i - 1) * 3 + n(i)
                                }
                                _ => 0,
                            };
                            if bg {
                                self.sgr = self.sgr & 0x80 | ((v % 126) as u8 + 1);
                            }
                        }
                        _ => {}
                    }
                    i += 1;
                }
            }
            b'h' | b'l' | b'r' | b't' | b'n' | b'c' | b'q' => {}
            _ => self.unknown.push(format!("{text}{}", end as char)),
        }
        false
    }

    pub fn lines(&self) -> Vec<String> {
        self.cells.iter().map(|r| r.iter().filter(|c| **c != COVERED).collect::<String>().trim_end().to_string()).collect()
    }
    pub fn text(&self) -> String {
        self.lines().join("\n")
    }
    pub fn has(&self, what: &str) -> bool {
        self.cells.iter().any(|r| r.iter().filter(|c| **c != COVERED).collect::<String>().contains(what))
    }
    pub fn row(&self, y: usize) -> &[char] {
        &self.cells[y]
    }
}

/// Something that waits for the driver's permission
pub struct Conn {
    pub id: usize,
    stream: UnixStream,
    buf: Vec<u8>,
    pub kind: Kind,
    pub state: State,
}
#[derive(Clone, Debug)]
pub enum Kind {
    /// Connected, did not say what it is yet
    Unknown,
    /// File operation of the program
    Op { op: String, path: String, to: String },
    /// Compiler
    Proc { pid: i32, name: String, cwd: String, args: Vec<String> },
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum State {
    /// Waits for a command
    Parked,
    /// Does what it was told
    Running,
    /// Gone
    Closed,
}

pub struct App {
    master: File,
    pub child: Child,
    pub screen: Screen,
    pub status: Option<ExitStatus>,
    listener: UnixListener,
    pub conns: Vec<Conn>,
    ctl: PathBuf,
    eof: bool,
}

/// How long nothing must happen before the driver goes on
pub const QUIET: Duration = Duration::from_millis(110);

fn check(r: i32) -> std::io::Result<i32> {
    if r < 0 {
        Err(std::io::Error::last_os_error())
    } else {
        Ok(r)
    }
}

pub struct Setup<'a> {
    /// Working directory of the program
    pub dir: &'a Path,
    /// Directory of the control files
    pub ctl: &'a Path,
    pub args: &'a [&'a str],
    pub cols: u16,
    pub rows: u16,
    /// Ask before every file operation
    pub hold: bool,
    /// If so, also before reading files with this suffix, and before the end
    pub reads: Option<&'a str>,
    pub cpu: usize,
}

impl App {
    pub fn start(s: &Setup) -> App {
        let exe = std::env::var_os("VERIF_APP").expect("VERIF_APP must name the crofiler program");
        let (mut m, mut sl): (RawFd, RawFd) = (0, 0);
        let size = libc::winsize { ws_row: s.rows, ws_col: s.cols, ws_xpixel: 0, ws_ypixel: 0 };
        unsafe {
            let r = libc::openpty(&mut m, &mut sl, std::ptr::null_mut(), std::ptr::null_mut(), &size as *const _ as *mut _);
            check(r).expect("openpty");
            libc::fcntl(m, libc::F_SETFD, libc::FD_CLOEXEC);
            libc::fcntl(m, libc::F_SETFL, libc::O_NONBLOCK);
            libc::fcntl(sl, libc::F_SETFD, libc::FD_CLOEXEC);
        }
        let (master, slave) = unsafe { (File::from_raw_fd(m), File::from_raw_fd(sl)) };
        let sock = s.ctl.join("sock");
        let _ = std::fs::remove_file(&sock);
        let listener = UnixListener::bind(&sock).expect("control socket");
        listener.set_nonblocking(true).unwrap();
        let stderr = File::create(s.ctl.join("stderr")).unwrap();
        let mut cmd = Command::new(&exe);
        cmd.args(s.args)
            .current_dir(s.dir)
            .env_clear()
            .env("PATH", s.ctl.join("bin"))
            .env("TERM", "xterm")
            .env("HOME", s.ctl)
            .env("RUST_BACKTRACE", "0")
            .env("MC_SOCK", &sock)
            .env("MC_DIR", s.dir)
            .stdin(slave.try_clone().unwrap())
            .stdout(slave.try_clone().unwrap())
            .stderr(stderr);
        if s.hold {
            cmd.env("LD_PRELOAD", std::env::var_os("MC_SHIM").expect("MC_SHIM"));
            cmd.env("MC_APP", Path::new(&exe).file_name().unwrap());
            if let Some(suffix) = s.reads {
                cmd.env("MC_READS", suffix).env("MC_HOLD_EXIT", "1");
            }
        }
        let cpu = s.cpu;
        unsafe {
            cmd.pre_exec(move || {
                check(libc::setsid())?;
                check(libc::ioctl(0, libc::TIOCSCTTY, 0))?;
                // Few workers are enough, and they need not all run here
                let mut all: libc::cpu_set_t = std::mem::zeroed();
                check(libc::sched_getaffinity(0, std::mem::size_of_val(&all), &mut all))?;
                let usable: u32 = (0..libc::CPU_SETSIZE as usize).filter(|&i| libc::CPU_ISSET(i, &all)).count() as u32;
                let mut set: libc::cpu_set_t = std::mem::zeroed();
                let mut n = 0;
                for i in (0..libc::CPU_SETSIZE as usize).filter(|&i| libc::CPU_ISSET(i, &all)) {
                    if n == cpu % usable as usize || n == (cpu + 1) % usable as usize {
                        libc::CPU_SET(i, &mut set);
                    }
                    n += 1;
                }
                libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
                Ok(())
            });
        }
        let child = cmd.spawn().expect("starting crofiler");
        drop(slave);
        App {
            master,
            child,
            screen: Screen::new(s.cols as usize, s.rows as usize),
            status: None,
            listener,
            conns: vec![],
            ctl: s.ctl.into(),
            eof: false,
        }
    }

    /// Wait for something to happen; returns whether it did
    pub fn pump(&mut self, timeout: Duration) -> bool {
        let mut fds = vec![
            libc::pollfd { fd: if self.eof { -1 } else { self.master.as_raw_fd() }, events: libc::POLLIN, revents: 0 },
            libc::pollfd { fd: self.listener.as_raw_fd(), events: libc::POLLIN, revents: 0 },
        ];
        let live: Vec<usize> = (0..self.conns.len()).filter(|&i| self.conns[i].state != State::Closed).collect();
        for &i in &live {
            fds.push(libc::pollfd { fd: self.conns[i].stream.as_raw_fd(), events: libc::POLLIN, revents: 0 });
        }
        let r = unsafe { libc::poll(fds.as_mut_ptr(), fds.len() as _, timeout.as_millis() as i32) };
        let mut changed = false;
        if r > 0 {
            if fds[0].revents != 0 {
                let mut buf = [0; 65536];
                match self.master.read(&mut buf) {
                    Ok(0) => self.eof = true,
                    Ok(n) => changed |= self.screen.feed(&buf[..n]),
                    Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {}
                    Err(_) => self.eof = true,
                }
                changed |= self.eof;
            }
            if fds[1].revents != 0 {
                while let Ok((stream, _)) = self.listener.accept() {
                    stream.set_nonblocking(true).unwrap();
                    let id = self.conns.len();
                    self.conns.push(Conn { id, stream, buf: vec![], kind: Kind::Unknown, state: State::Running });
                    changed = true;
                }
            }
            for (k, &i) in live.iter().enumerate() {
                if fds[k + 2].revents != 0 {
                    changed = true;
                    self.receive(i);
                }
            }
        }
        if self.status.is_none() {
            if let Ok(Some(s)) = self.child.try_wait() {
                self.status = Some(s);
                changed = true;
            }
        }
        changed
    }

    fn receive(&mut self, i: usize) {
        let c = &mut self.conns[i];
        let mut buf = [0; 4096];
        match c.stream.read(&mut buf) {
            Ok(0) => c.state = State::Closed,
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => return,
            Err(_) => c.state = State::Closed,
            Ok(n) => c.buf.extend_from_slice(&buf[..n]),
        }
        while let Some(at) = c.buf.iter().position(|b| *b == b'\n') {
            let line: Vec<u8> = c.buf.drain(..=at).collect();
            let line = String::from_utf8_lossy(&line[..at]).into_owned();
            let parts: Vec<&str> = line.split('\t').collect();
            match parts[0] {
                "op" => {
                    c.kind = Kind::Op { op: parts[1].into(), path: parts[2].into(), to: parts[3].into() };
                    c.state = State::Parked;
                }
                "proc" => {
                    c.kind = Kind::Proc {
                        pid: parts[1].parse().unwrap_or(0),
                        name: parts[2].into(),
                        cwd: parts[3].into(),
                        args: parts[4..].iter().map(|s| s.to_string()).collect(),
                    };
                    c.state = State::Parked;
                }
                "ok" => c.state = State::Parked,
                _ => {}
            }
        }
        if c.state == State::Closed && matches!(c.kind, Kind::Unknown) {
            c.state = State::Closed;
        }
    }

    /// Wait until nothing happens any more (or the program has ended)
    pub fn settle(&mut self) {
        self.settle_for(QUIET, Duration::from_secs(8))
    }
    pub fn settle_for(&mut self, quiet: Duration, max: Duration) {
        let start = Instant::now();
        let mut last = start;
        loop {
            if self.pump(Duration::from_millis(15)) {
                last = Instant::now();
            }
            // An operation that was just allowed, or a compiler that was just
            // told to do something, is not done yet
            let busy = self.conns.iter().any(|c| c.state == State::Running) && last.elapsed() < Duration::from_millis(1500);
            if last.elapsed() >= quiet && !busy || start.elapsed() > max {
                return;
            }
            if self.status.is_some() && (self.eof || last.elapsed() > Duration::from_millis(300)) {
                // Whatever the program had asked for is void now
                self.pump(Duration::ZERO);
                return;
            }
        }
    }

    /// Wait for a condition
    pub fn wait_until(&mut self, max: Duration, f: impl Fn(&App) -> bool) -> bool {
        let start = Instant::now();
        loop {
            if f(self) {
                return true;
            }
            if start.elapsed() > max {
                return false;
            }
            self.pump(Duration::from_millis(15));
        }
    }

    /// The user changes the size of the terminal
    pub fn resize(&mut self, cols: u16, rows: u16) {
        let size = libc::winsize { ws_row: rows, ws_col: cols, ws_xpixel: 0, ws_ypixel: 0 };
        self.screen = Screen::new(cols as usize, rows as usize);
        unsafe {
            let _ = libc::ioctl(self.master.as_raw_fd(), libc::TIOCSWINSZ, &size);
        }
    }

    pub fn key(&mut self, bytes: &str) {
        let mut left = bytes.as_bytes();
        let end = Instant::now() + Duration::from_secs(5);
        while !left.is_empty() && Instant::now() < end {
            match self.master.write(left) {
                Ok(n) => left = &left[n..],
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {
                    self.pump(Duration::from_millis(5));
                }
                Err(_) => return,
            }
        }
    }

    /// Tell a parked one what to do
    pub fn tell(&mut self, id: usize, what: &str) {
        let c = &mut self.conns[id];
        let _ = c.stream.set_nonblocking(false);
        let r = c.stream.write_all(format!("{what}\n").as_bytes());
        let _ = c.stream.set_nonblocking(true);
        c.state = if r.is_ok() { State::Running } else { State::Closed };
    }

    pub fn stderr(&self) -> String {
        std::fs::read_to_string(self.ctl.join("stderr")).unwrap_or_default()
    }

    pub fn ended(&self) -> bool {
        self.status.is_some()
    }
}

impl Drop for App {
    fn drop(&mut self) {
        if self.status.is_none() {
            let _ = self.child.kill();
            let _ = self.child.wait();
        }
        // Compilers end when their connection does
        self.conns.clear();
    }
}

/// The stand-in for compilers: does what the driver says
pub fn compiler(name: &str) -> ! {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map(String::as_str) == Some("--version") {
        println!("Ubuntu clang version 18.1.3 (1ubuntu1)\nTarget: x86_64-pc-linux-gnu");
        std::process::exit(0);
    }
    let Some(sock) = std::env::var_os("MC_SOCK") else { std::process::exit(97) };
    let Ok(mut s) = UnixStream::connect(sock) else { std::process::exit(98) };
    let mut hello = format!("proc\t{}\t{name}\t{}", std::process::id(), std::env::current_dir().unwrap().display());
    for a in &args {
        hello.push('\t');
        hello.push_str(a);
    }
    hello.push('\n');
    if s.write_all(hello.as_bytes()).is_err() {
        std::process::exit(98);
    }
    let mut input = std::io::BufReader::new(s.try_clone().unwrap());
    loop {
        let mut line = String::new();
        match std::io::BufRead::read_line(&mut input, &mut line) {
            Ok(n) if n > 0 => {}
            _ => std::process::exit(99),
        }
        let parts: Vec<&str> = line.trim_end_matches('\n').split('\t').collect();
        match parts[0] {
            "write" => {
                if std::fs::write(parts[1], parts[2]).is_err() {
                    std::process::exit(96);
                }
            }
            "append" => {
                if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(parts[1]) {
                    let _ = f.write_all(parts[2].as_bytes());
                }
            }
            "remove" => {
                let _ = std::fs::remove_file(parts[1]);
            }
            "stdout" | "stderr" => {
                let n: usize = parts[1].parse().unwrap();
                let text = parts[2].repeat(n / parts[2].len() + 1);
                let text = &text.as_bytes()[..n];
                if parts[0] == "stdout" {
                    let _ = std::io::stdout().write_all(text);
                    let _ = std::io::stdout().flush();
                } else {
                    let _ = std::io::stderr().write_all(text);
                }
            }
            "copy" => {
                let text = std::fs::read(parts[2]).unwrap_or_default();
                if parts[1] == "1" {
                    let _ = std::io::stdout().write_all(&text);
                    let _ = std::io::stdout().flush();
                } else {
                    let _ = std::io::stderr().write_all(&text);
                }
            }
            "exit" => std::process::exit(parts[1].parse().unwrap()),
            "signal" => unsafe {
                libc::signal(parts[1].parse().unwrap(), libc::SIG_DFL);
                libc::raise(parts[1].parse().unwrap());
            },
            _ => {}
        }
        if s.write_all(b"ok\n").is_err() {
            std::process::exit(98);
        }
    }
}
