//! Atomic operations of instrumented code end up here
use super::{symbols::*, *};
use std::sync::atomic::*;

#[inline(always)]
fn rbp() -> usize {
    let r: usize;
    unsafe { std::arch::asm!("mov {}, rbp", out(reg) r) };
    r
}

/// Decide whether the atomic operation whose hook has frame `fp` is a
/// scheduling point
#[inline(never)]
fn hook(fp: usize) {
    if !active() {
        return;
    }
    let _r = Real::new();
    let mut fp = fp;
    let mut nearest = None; // innermost frame that is not core::sync::atomic
    let mut outer = Kind::Atomic; // frame called by the code under test
    for _ in 0..64 {
        let (next, pc) = unsafe { (*(fp as *const usize), *((fp + 8) as *const usize)) };
        let k = kind(pc - 1);
        match k {
            Kind::User => {
                if matches!(nearest, Some(Kind::Quiet)) {
                    return;
                }
                let s = sim();
                let t = &mut s.threads[s.current];
                match outer {
                    Kind::Atomic => t.last_op = (0, 0),
                    Kind::Lib => {
                        // One point per library call
                        if t.last_op == (next, pc) {
                            return;
                        }
                        t.last_op = (next, pc);
                    }
                    _ => return,
                }
                s.reschedule(true, false);
                return;
            }
            Kind::Atomic => {}
            k => {
                nearest.get_or_insert(k);
                if k != Kind::Other || outer == Kind::Atomic {
                    outer = k;
                }
            }
        }
        if next <= fp || next - fp > 1 << 20 {
            return;
        }
        fp = next;
    }
}

macro_rules! ops {
    ($($at:ident $ty:ty : $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident;)*) => { $(
        #[no_mangle] pub unsafe extern "C" fn $load(p: *const $at, _o: i32) -> $ty { hook(rbp()); (*p).load(SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $store(p: *const $at, v: $ty, _o: i32) { hook(rbp()); (*p).store(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $xchg(p: *const $at, v: $ty, _o: i32) -> $ty { hook(rbp()); (*p).swap(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $add(p: *const $at, v: $ty, _o: i32) -> $ty { hook(rbp()); (*p).fetch_add(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $sub(p: *const $at, v: $ty, _o: i32) -> $ty { hook(rbp()); (*p).fetch_sub(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $and(p: *const $at, v: $ty, _o: i32) -> $ty { hook(rbp()); (*p).fetch_and(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $or(p: *const $at, v: $ty, _o: i32) -> $ty { hook(rbp()); (*p).fetch_or(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $xor(p: *const $at, v: $ty, _o: i32) -> $ty { hook(rbp()); (*p).fetch_xor(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $nand(p: *const $at, v: $ty, _o: i32) -> $ty { hook(rbp()); (*p).fetch_nand(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $cas(p: *const $at, e: $ty, v: $ty, _o: i32, _f: i32) -> $ty {
            hook(rbp());
            match (*p).compare_exchange(e, v, SeqCst, SeqCst) { Ok(x) => x, Err(x) => x }
        }
    )* }
}
ops! {
    AtomicU8 u8: __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val;
    AtomicU16 u16: __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val;
    AtomicU32 u32: __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val;
    AtomicU64 u64: __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val;
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_o: i32) {
    fence(SeqCst);
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_o: i32) {}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_p: *mut c_void) {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub extern "C" fn __tsan_init() {}
