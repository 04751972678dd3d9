//! Replacements of libc functions
use super::{ME, active, cstr, point, sim, Actions, Block, PState, Proc, Real};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::ffi::CStr;
use libc::*;

macro_rules! real {
    ($name:literal, $ty:ty) => {{
        static PTR: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let mut p = PTR.load(SeqCst);
        if p == 0 {
            p = dlsym(RTLD_NEXT, concat!($name, "\0").as_ptr() as *const c_char) as usize;
            assert!(p != 0, concat!("no ", $name));
            PTR.store(p, SeqCst);
        }
        std::mem::transmute::<usize, $ty>(p)
    }};
}

unsafe fn set_errno(e: c_int) {
    *__errno_location() = e;
}

type Sys6 = unsafe extern "C" fn(c_long, usize, usize, usize, usize, usize, usize) -> c_long;

pub unsafe fn raw_futex(addr: *const u32, op: c_int, val: u32) {
    real!("syscall", Sys6)(SYS_futex, addr as usize, op as usize, val as usize, 0, 0, 0);
}

unsafe fn to_ns(t: *const timespec) -> u64 {
    (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if active() {
        if n == SYS_futex {
            let cmd = b as c_int & !(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
            match cmd {
                FUTEX_WAIT | FUTEX_WAIT_BITSET => {
                    let _r = Real::new();
                    if *(a as *const u32) != c as u32 {
                        set_errno(EAGAIN);
                        return -1;
                    }
                    let s = sim();
                    let deadline = (d != 0).then(|| {
                        let t = to_ns(d as *const timespec);
                        if cmd == FUTEX_WAIT { s.now.saturating_add(t) } else { t }
                    });
                    let mask = if cmd == FUTEX_WAIT { u32::MAX } else { f as u32 };
                    let me = s.current;
                    if deadline.map_or(false, |d| d <= s.now) {
                        set_errno(ETIMEDOUT);
                        return -1;
                    }
                    s.threads[me].last_op = (0, 0);
                    s.threads[me].block = Block::Futex { addr: a, mask, woken: false, deadline };
                    s.reschedule(false, false);
                    let s = sim();
                    let woken = matches!(s.threads[me].block, Block::Futex { woken: true, .. });
                    s.threads[me].block = Block::No;
                    if woken {
                        return 0;
                    }
                    set_errno(ETIMEDOUT);
                    return -1;
                }
                FUTEX_WAKE | FUTEX_WAKE_BITSET => {
                    point();
                    let _r = Real::new();
                    let mask = if cmd == FUTEX_WAKE { u32::MAX } else { f as u32 };
                    let s = sim();
                    let mut waiters: Vec<usize> = (0..s.threads.len())
                        .filter(|&t| matches!(s.threads[t].block, Block::Futex { addr, mask: m, woken: false, .. } if addr == a && m & mask != 0))
                        .collect();
                    let mut count = 0;
                    while count < c as i32 as i64 && !waiters.is_empty() {
                        let pick = if (c as i32 as i64) < waiters.len() as i64 { s.decide(waiters.len()) } else { 0 };
                        let t = waiters.remove(pick);
                        if let Block::Futex { woken, .. } = &mut s.threads[t].block {
                            *woken = true;
                        }
                        count += 1;
                    }
                    return count as c_long;
                }
                _ => sim().abort("UNSUPPORTED: futex operation"),
            }
        }
        if n == SYS_getrandom {
            std::ptr::write_bytes(a as *mut u8, 0x5a, b);
            return b as c_long;
        }
        if n == SYS_clone || n == SYS_fork || n == SYS_vfork || n == SYS_kill || n == SYS_exit_group || n == SYS_clone3 {
            sim().abort("UNSUPPORTED: raw system call");
        }
    }
    real!("syscall", Sys6)(n, a, b, c, d, e, f)
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    if active() {
        std::ptr::write_bytes(buf as *mut u8, 0x5a, len);
        return len as ssize_t;
    }
    real!("getrandom", unsafe extern "C" fn(*mut c_void, size_t, c_uint) -> ssize_t)(buf, len, flags)
}

// === Threads ===

type StartFn = extern "C" fn(*mut c_void) -> *mut c_void;
struct Tramp {
    id: usize,
    f: StartFn,
    arg: *mut c_void,
}

extern "C" fn trampoline(arg: *mut c_void) -> *mut c_void {
    let t = unsafe { Box::from_raw(arg as *mut Tramp) };
    ME.with(|m| m.set(t.id));
    let word: *const AtomicU32 = {
        let _r = Real::new();
        // The creator holds the token while we look
        &*sim().threads[t.id].go
    };
    unsafe {
        STARTED.store(1, SeqCst);
        raw_futex(STARTED.as_ptr(), FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1);
    }
    super::futex_block(unsafe { &*word });
    let ret = (t.f)(t.arg);
    let _r = Real::new();
    let s = sim();
    s.threads[t.id].block = Block::Done;
    s.reschedule(false, false);
    ME.with(|m| m.set(usize::MAX));
    ret
}
extern "C" {
    fn pthread_attr_setstack(attr: *mut pthread_attr_t, addr: *mut c_void, size: size_t) -> c_int;
}
const STACK: usize = 4 << 20;
unsafe fn stack(id: usize) -> *mut c_void {
    static mut COUNT: usize = 0;
    const BASE: usize = 0x1000_0000_0000;
    while id >= COUNT {
        let p = mmap(
            (BASE + COUNT * STACK) as *mut c_void,
            STACK,
            PROT_READ | PROT_WRITE,
            MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE,
            -1,
            0,
        );
        assert_eq!(p as usize, BASE + COUNT * STACK, "no room for stacks");
        mprotect(p, 4096, PROT_NONE);
        COUNT += 1;
    }
    (BASE + id * STACK) as *mut c_void
}

/// The standard library insists on a guard page
#[no_mangle]
pub unsafe extern "C" fn pthread_attr_getguardsize(attr: *const pthread_attr_t, size: *mut size_t) -> c_int {
    if ME.with(|m| m.get()) != usize::MAX {
        *size = 4096;
        return 0;
    }
    real!("pthread_attr_getguardsize", unsafe extern "C" fn(*const pthread_attr_t, *mut size_t) -> c_int)(attr, size)
}

pub unsafe fn real_join(handle: pthread_t) {
    real!("pthread_join", unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int)(handle, std::ptr::null_mut());
}

/// All simulated threads are joined in the end
#[no_mangle]
pub unsafe extern "C" fn pthread_detach(handle: pthread_t) -> c_int {
    if active() {
        return 0;
    }
    real!("pthread_detach", unsafe extern "C" fn(pthread_t) -> c_int)(handle)
}

static STARTED: AtomicU32 = AtomicU32::new(0);

pub unsafe fn start_thread(handle: *mut pthread_t, attr: *const pthread_attr_t, id: usize, f: StartFn, arg: *mut c_void) -> c_int {
    STARTED.store(0, SeqCst);
    let t = Box::into_raw(Box::new(Tramp { id, f, arg }));
    // Fixed stack addresses, so that pointers to local variables are the
    // same each time
    let _ = attr;
    let mut own: pthread_attr_t = std::mem::zeroed();
    pthread_attr_init(&mut own);
    pthread_attr_setstack(&mut own, stack(id), STACK);
    let rc = real!(
        "pthread_create",
        unsafe extern "C" fn(*mut pthread_t, *const pthread_attr_t, StartFn, *mut c_void) -> c_int
    )(handle, &own, trampoline, t as *mut c_void);
    pthread_attr_destroy(&mut own);
    if rc == 0 {
        super::futex_block(&STARTED);
        sim().threads[id].pthread = *handle;
    }
    rc
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(handle: *mut pthread_t, attr: *const pthread_attr_t, f: StartFn, arg: *mut c_void) -> c_int {
    if !active() {
        return real!(
            "pthread_create",
            unsafe extern "C" fn(*mut pthread_t, *const pthread_attr_t, StartFn, *mut c_void) -> c_int
        )(handle, attr, f, arg);
    }
    let rc = {
        let _r = Real::new();
        let id = sim().new_thread();
        start_thread(handle, attr, id, f, arg)
    };
    point();
    rc
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(handle: pthread_t, ret: *mut *mut c_void) -> c_int {
    if active() {
        let _r = Real::new();
        let s = sim();
        let me = s.current;
        if let Some(t) = s.threads.iter().rposition(|t| t.pthread == handle) {
            s.threads[me].block = Block::Join(t);
            s.reschedule(false, false);
            sim().threads[me].block = Block::No;
            if !ret.is_null() {
                *ret = std::ptr::null_mut();
            }
            return 0;
        }
    }
    real!("pthread_join", unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int)(handle, ret)
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if active() {
        let _r = Real::new();
        sim().reschedule(true, true);
        return 0;
    }
    real!("sched_yield", unsafe extern "C" fn() -> c_int)()
}

// === Time ===

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: clockid_t, ts: *mut timespec) -> c_int {
    if active() && (clk == CLOCK_MONOTONIC || clk == CLOCK_REALTIME || clk == CLOCK_BOOTTIME) {
        let mut now = sim().now;
        if clk == CLOCK_REALTIME {
            now += 1_700_000_000_000_000_000;
        }
        (*ts).tv_sec = (now / 1_000_000_000) as _;
        (*ts).tv_nsec = (now % 1_000_000_000) as _;
        return 0;
    }
    real!("clock_gettime", unsafe extern "C" fn(clockid_t, *mut timespec) -> c_int)(clk, ts)
}

unsafe fn sleep_until(t: u64) {
    let _r = Real::new();
    let s = sim();
    let me = s.current;
    s.threads[me].block = Block::Sleep(t);
    s.reschedule(false, false);
    sim().threads[me].block = Block::No;
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if active() {
        sleep_until(sim().now + to_ns(req));
        return 0;
    }
    real!("nanosleep", unsafe extern "C" fn(*const timespec, *mut timespec) -> c_int)(req, rem)
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: clockid_t, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if active() {
        let now = sim().now;
        sleep_until(if flags & TIMER_ABSTIME != 0 { to_ns(req) } else { now + to_ns(req) });
        return 0;
    }
    real!("clock_nanosleep", unsafe extern "C" fn(clockid_t, c_int, *const timespec, *mut timespec) -> c_int)(clk, flags, req, rem)
}

// === Blocking I/O ===

pub unsafe fn real_poll(fds: *mut pollfd, n: nfds_t, timeout: c_int) -> c_int {
    real!("poll", unsafe extern "C" fn(*mut pollfd, nfds_t, c_int) -> c_int)(fds, n, timeout)
}

unsafe fn sim_poll(fds: *mut pollfd, n: usize, timeout_ns: Option<u64>) -> c_int {
    point();
    let _r = Real::new();
    let r = real_poll(fds, n as _, 0);
    if r != 0 || timeout_ns == Some(0) {
        return r;
    }
    let s = sim();
    let me = s.current;
    let deadline = timeout_ns.map(|t| s.now.saturating_add(t));
    s.threads[me].block = Block::Poll { fds, n, deadline };
    s.reschedule(false, false);
    sim().threads[me].block = Block::No;
    real_poll(fds, n as _, 0)
}

#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut pollfd, n: nfds_t, timeout: c_int) -> c_int {
    if active() {
        return sim_poll(fds, n as usize, (timeout >= 0).then_some(timeout as u64 * 1_000_000));
    }
    real_poll(fds, n, timeout)
}

#[no_mangle]
pub unsafe extern "C" fn ppoll(fds: *mut pollfd, n: nfds_t, ts: *const timespec, mask: *const sigset_t) -> c_int {
    if active() {
        return sim_poll(fds, n as usize, (!ts.is_null()).then(|| to_ns(ts)));
    }
    real!("ppoll", unsafe extern "C" fn(*mut pollfd, nfds_t, *const timespec, *const sigset_t) -> c_int)(fds, n, ts, mask)
}

/// Wait until a blocking descriptor can be used
unsafe fn wait_fd(fd: c_int, events: c_short) {
    let _r = Real::new();
    if fcntl(fd, F_GETFL) & O_NONBLOCK != 0 {
        return;
    }
    let mut pfd = pollfd { fd, events, revents: 0 };
    if real_poll(&mut pfd, 1, 0) != 0 {
        return;
    }
    let s = sim();
    let me = s.current;
    s.threads[me].block = Block::Poll { fds: &mut pfd, n: 1, deadline: None };
    s.reschedule(false, false);
    sim().threads[me].block = Block::No;
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if active() {
        wait_fd(fd, POLLIN);
    }
    real!("read", unsafe extern "C" fn(c_int, *mut c_void, size_t) -> ssize_t)(fd, buf, n)
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    if active() {
        wait_fd(fd, POLLIN);
    }
    real!("readv", unsafe extern "C" fn(c_int, *const iovec, c_int) -> ssize_t)(fd, v, n)
}

// === The proc filesystem ===

unsafe fn redirect(path: *const c_char) -> Option<std::ffi::CString> {
    if !active() || path.is_null() {
        return None;
    }
    let p = CStr::from_ptr(path).to_bytes();
    let rest = if p == b"/proc" || p == b"/proc/" { &b""[..] } else { p.strip_prefix(b"/proc/")? };
    if rest.starts_with(b"self") || rest.starts_with(b"thread-self") || rest.starts_with(b"sys") {
        return None;
    }
    let _r = Real::new();
    if rest.starts_with(b"meminfo") {
        sim().refresh();
    }
    let root = sim().proc_root.to_str().unwrap().as_bytes().to_vec();
    Some(std::ffi::CString::new([&root[..], b"/", rest].concat()).unwrap())
}

type OpenFn = unsafe extern "C" fn(*const c_char, c_int, mode_t) -> c_int;
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let r = redirect(path);
    real!("open64", OpenFn)(r.as_ref().map_or(path, |p| p.as_ptr()), flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn mcsim_open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let r = redirect(path);
    real!("open", OpenFn)(r.as_ref().map_or(path, |p| p.as_ptr()), flags, mode)
}
type OpenAtFn = unsafe extern "C" fn(c_int, *const c_char, c_int, mode_t) -> c_int;
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let r = redirect(path);
    real!("openat64", OpenAtFn)(dir, r.as_ref().map_or(path, |p| p.as_ptr()), flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut DIR {
    let r = redirect(path);
    real!("opendir", unsafe extern "C" fn(*const c_char) -> *mut DIR)(r.as_ref().map_or(path, |p| p.as_ptr()))
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    let r = redirect(path);
    real!("stat64", unsafe extern "C" fn(*const c_char, *mut libc::stat64) -> c_int)(r.as_ref().map_or(path, |p| p.as_ptr()), st)
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: c_uint, st: *mut libc::statx) -> c_int {
    let r = redirect(path);
    real!("statx", unsafe extern "C" fn(c_int, *const c_char, c_int, c_uint, *mut libc::statx) -> c_int)(
        dir,
        r.as_ref().map_or(path, |p| p.as_ptr()),
        flags,
        mask,
        st,
    )
}

// === Processes ===

#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_init(a: *mut posix_spawn_file_actions_t) -> c_int {
    if active() {
        let _r = Real::new();
        sim().actions.insert(a as usize, Actions::default());
    }
    real!("posix_spawn_file_actions_init", unsafe extern "C" fn(*mut posix_spawn_file_actions_t) -> c_int)(a)
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_adddup2(a: *mut posix_spawn_file_actions_t, from: c_int, to: c_int) -> c_int {
    if active() {
        let _r = Real::new();
        sim().actions.entry(a as usize).or_default().dups.push((from, to));
    }
    real!("posix_spawn_file_actions_adddup2", unsafe extern "C" fn(*mut posix_spawn_file_actions_t, c_int, c_int) -> c_int)(a, from, to)
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_addchdir_np(a: *mut posix_spawn_file_actions_t, path: *const c_char) -> c_int {
    if active() {
        let _r = Real::new();
        sim().actions.entry(a as usize).or_default().cwd = Some(cstr(path));
    }
    real!(
        "posix_spawn_file_actions_addchdir_np",
        unsafe extern "C" fn(*mut posix_spawn_file_actions_t, *const c_char) -> c_int
    )(a, path)
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnattr_init(a: *mut posix_spawnattr_t) -> c_int {
    if active() {
        let _r = Real::new();
        sim().attrs.remove(&(a as usize));
    }
    real!("posix_spawnattr_init", unsafe extern "C" fn(*mut posix_spawnattr_t) -> c_int)(a)
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnattr_setpgroup(a: *mut posix_spawnattr_t, g: pid_t) -> c_int {
    if active() {
        let _r = Real::new();
        sim().attrs.insert(a as usize, g);
    }
    real!("posix_spawnattr_setpgroup", unsafe extern "C" fn(*mut posix_spawnattr_t, pid_t) -> c_int)(a, g)
}

type SpawnFn = unsafe extern "C" fn(
    *mut pid_t,
    *const c_char,
    *const posix_spawn_file_actions_t,
    *const posix_spawnattr_t,
    *const *mut c_char,
    *const *mut c_char,
) -> c_int;

#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(
    pid: *mut pid_t,
    file: *const c_char,
    actions: *const posix_spawn_file_actions_t,
    attr: *const posix_spawnattr_t,
    argv: *const *mut c_char,
    envp: *const *mut c_char,
) -> c_int {
    if !active() {
        return real!("posix_spawnp", SpawnFn)(pid, file, actions, attr, argv, envp);
    }
    point();
    let res = {
        let _r = Real::new();
        let s = sim();
        let mut args = vec![];
        let mut p = argv;
        while !(*p).is_null() {
            args.push(cstr(*p));
            p = p.add(1);
        }
        let acts = s.actions.get(&(actions as usize)).cloned().unwrap_or_default();
        let group = s.attrs.get(&(attr as usize)).copied();
        s.spawn(&cstr(file), args, acts, group)
    };
    match res {
        Ok(p) => {
            *pid = p;
            point();
            0
        }
        Err(e) => e,
    }
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn(
    pid: *mut pid_t,
    file: *const c_char,
    actions: *const posix_spawn_file_actions_t,
    attr: *const posix_spawnattr_t,
    argv: *const *mut c_char,
    envp: *const *mut c_char,
) -> c_int {
    if active() {
        return posix_spawnp(pid, file, actions, attr, argv, envp);
    }
    real!("posix_spawn", SpawnFn)(pid, file, actions, attr, argv, envp)
}

#[no_mangle]
pub unsafe extern "C" fn fork() -> pid_t {
    if active() {
        let _r = Real::new();
        sim().abort("UNSUPPORTED: fork");
    }
    real!("fork", unsafe extern "C" fn() -> pid_t)()
}

#[no_mangle]
pub unsafe extern "C" fn waitpid(pid: pid_t, status: *mut c_int, flags: c_int) -> pid_t {
    if !active() {
        return real!("waitpid", unsafe extern "C" fn(pid_t, *mut c_int, c_int) -> pid_t)(pid, status, flags);
    }
    point();
    let _r = Real::new();
    loop {
        let s = sim();
        let is = |p: &Proc| (p.pid == pid || (pid == -1 && p.root == p.pid)) && p.root == p.pid && p.state != PState::Gone;
        let Some(_) = s.procs.iter().find(|p| is(p)) else {
            set_errno(ECHILD);
            return -1;
        };
        if let Some(i) = s.procs.iter().position(|p| is(p) && matches!(p.state, PState::Zombie(_))) {
            let PState::Zombie(st) = s.procs[i].state else { unreachable!() };
            s.procs[i].state = PState::Gone;
            s.write_proc(i);
            if !status.is_null() {
                *status = st;
            }
            return s.procs[i].pid;
        }
        if flags & WNOHANG != 0 {
            return 0;
        }
        let me = s.current;
        s.threads[me].block = Block::WaitPid(pid);
        s.reschedule(false, false);
        sim().threads[me].block = Block::No;
    }
}
#[no_mangle]
pub unsafe extern "C" fn wait4(pid: pid_t, status: *mut c_int, flags: c_int, ru: *mut rusage) -> pid_t {
    if active() {
        if !ru.is_null() {
            *ru = std::mem::zeroed();
        }
        return waitpid(pid, status, flags);
    }
    real!("wait4", unsafe extern "C" fn(pid_t, *mut c_int, c_int, *mut rusage) -> pid_t)(pid, status, flags, ru)
}

#[no_mangle]
pub unsafe extern "C" fn kill(pid: pid_t, sig: c_int) -> c_int {
    if !active() {
        return real!("kill", unsafe extern "C" fn(pid_t, c_int) -> c_int)(pid, sig);
    }
    point();
    let _r = Real::new();
    let r = sim().kill(pid, sig);
    if r != 0 {
        set_errno(ESRCH);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn killpg(pid: pid_t, sig: c_int) -> c_int {
    if active() {
        return kill(-pid, sig);
    }
    real!("killpg", unsafe extern "C" fn(pid_t, c_int) -> c_int)(pid, sig)
}

type SigactionFn = unsafe extern "C" fn(c_int, *const sigaction, *mut sigaction) -> c_int;
#[no_mangle]
pub unsafe extern "C" fn sigaction(sig: c_int, new: *const libc::sigaction, old: *mut libc::sigaction) -> c_int {
    if sig == SIGCHLD && !new.is_null() && ME.with(|m| m.get()) != usize::MAX {
        if !old.is_null() {
            *old = std::mem::zeroed();
            (*old).sa_sigaction = SIGCHLD_HANDLER;
        }
        SIGCHLD_HANDLER = (*new).sa_sigaction;
        super::SIGCHLD = SIGCHLD_HANDLER;
        return 0;
    }
    real!("sigaction", SigactionFn)(sig, new, old)
}
static mut SIGCHLD_HANDLER: usize = 0;

// rustc insists on a variadic signature for this one
std::arch::global_asm!(".globl open", ".type open,@function", "open:", "jmp mcsim_open");
