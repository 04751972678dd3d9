//! Maps code addresses to what the explorer needs to know about them

use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    /// Code under test
    User,
    /// Plain atomic operations
    Atomic,
    /// Reference counting, logging and the like: no observable effect
    Quiet,
    /// Synchronization library: one call is one operation
    Lib,
    /// Anything else
    Other,
}

static mut TABLE: Option<Vec<(usize, usize, Kind)>> = None;
static mut CACHE: Option<HashMap<usize, Kind>> = None;

fn classify(name: &str) -> Kind {
    let name = name.strip_prefix("_ZN").unwrap_or(name);
    // Skip the length of the first component
    let path = name.trim_start_matches(|c: char| c.is_ascii_digit());
    let path = path.strip_prefix('_').unwrap_or(path);
    let first = path.strip_prefix("$LT$").unwrap_or(path).trim_start_matches('&');
    let starts = |s: &str| first.starts_with(s);
    if starts("cmakeperf") {
        Kind::User
    } else if name.contains("4core4sync6atomic") || name.contains("core..sync..atomic") {
        Kind::Atomic
    } else if name.contains("5alloc4sync") || name.contains("alloc..sync..") || name.contains("crossbeam_epoch") || starts("log") {
        Kind::Quiet
    } else if starts("crossbeam_deque") || name.contains("3std4sync") || name.contains("std..sync..") || name.contains("3std6thread") || name.contains("std..thread..") {
        Kind::Lib
    } else {
        Kind::Other
    }
}

/// Read the symbol table of the running program
pub fn init() {
    unsafe {
        if TABLE.is_some() {
            return;
        }
    }
    let data = std::fs::read("/proc/self/exe").expect("reading own binary");
    let u16a = |o: usize| u16::from_le_bytes(data[o..o + 2].try_into().unwrap()) as usize;
    let u32a = |o: usize| u32::from_le_bytes(data[o..o + 4].try_into().unwrap()) as usize;
    let u64a = |o: usize| u64::from_le_bytes(data[o..o + 8].try_into().unwrap()) as usize;
    let shoff = u64a(0x28);
    let (shentsize, shnum) = (u16a(0x3a), u16a(0x3c));
    let mut table = vec![];
    let mut anchor = 0;
    for i in 0..shnum {
        let sh = shoff + i * shentsize;
        if u32a(sh + 4) != 2 {
            continue; // not SHT_SYMTAB
        }
        let (off, size, link) = (u64a(sh + 0x18), u64a(sh + 0x20), u32a(sh + 0x28));
        let stroff = u64a(shoff + link * shentsize + 0x18);
        for s in (off..off + size).step_by(24) {
            if data[s + 4] & 15 != 2 {
                continue; // not a function
            }
            let n = stroff + u32a(s);
            let end = n + data[n..].iter().position(|b| *b == 0).unwrap();
            let name = std::str::from_utf8(&data[n..end]).unwrap_or("");
            let (addr, len) = (u64a(s + 8), u64a(s + 16));
            if name == "mcsim_anchor" {
                anchor = addr;
            }
            table.push((addr, addr + len, classify(name)));
        }
    }
    assert!(anchor != 0, "no symbol table");
    let base = (mcsim_anchor as *const () as usize) - anchor;
    for t in &mut table {
        t.0 += base;
        t.1 += base;
    }
    table.sort_by_key(|t| t.0);
    unsafe {
        TABLE = Some(table);
        CACHE = Some(HashMap::new());
    }
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn mcsim_anchor() {}

/// Only called by the thread that holds the token
pub fn kind(pc: usize) -> Kind {
    unsafe {
        if let Some(k) = CACHE.as_ref().unwrap().get(&pc) {
            return *k;
        }
        let t = TABLE.as_ref().unwrap();
        let i = t.partition_point(|e| e.0 < pc);
        let k = if i > 0 && pc <= t[i - 1].1 { t[i - 1].2 } else { Kind::Other };
        CACHE.as_mut().unwrap().insert(pc, k);
        k
    }
}

static mut NAMES: Option<Vec<(usize, String)>> = None;

/// For debugging: names of the calling functions
pub unsafe fn backtrace() -> String {
    let names = NAMES.get_or_insert_with(|| {
        let out = std::process::Command::new("nm").arg("-C").arg("/proc/self/exe".replace("self", &std::process::id().to_string())).output();
        let base = mcsim_anchor as *const () as usize;
        let mut v: Vec<(usize, String)> = String::from_utf8_lossy(&out.map(|o| o.stdout).unwrap_or_default())
            .lines()
            .filter_map(|l| {
                let mut f = l.splitn(3, ' ');
                Some((usize::from_str_radix(f.next()?, 16).ok()?, f.nth(1)?.to_string()))
            })
            .collect();
        let anchor = v.iter().find(|x| x.1 == "mcsim_anchor").map_or(0, |x| x.0);
        v.iter_mut().for_each(|x| x.0 = x.0.wrapping_sub(anchor).wrapping_add(base));
        v.sort();
        v
    });
    let mut fp: usize;
    std::arch::asm!("mov {}, rbp", out(reg) fp);
    let mut out = String::new();
    for _ in 0..40 {
        let (next, pc) = (*(fp as *const usize), *((fp + 8) as *const usize));
        let i = names.partition_point(|n| n.0 <= pc);
        if i > 0 && !names[i - 1].1.contains("mcsim") {
            out += "\n      ";
            out += &names[i - 1].1.chars().take(110).collect::<String>();
        }
        if next <= fp || next - fp > 1 << 20 {
            break;
        }
        fp = next;
    }
    out
}
