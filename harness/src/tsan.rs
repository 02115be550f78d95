//! Callbacks the compiler inserts for the atomic operations of the crate under test. Each one is
//! a scheduling point followed by the operation itself.
use crate::sched;
use std::sync::atomic::{AtomicU16, AtomicU32, AtomicU64, AtomicU8, Ordering::SeqCst};

macro_rules! atomics {
    ($t:ty, $a:ty, $load:ident, $store:ident, $xchg:ident, $add:ident, $sub:ident, $and:ident,
     $or:ident, $xor:ident, $nand:ident, $cas:ident, $cass:ident, $casw:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *const $t, mo: i32) -> $t {
            // A relaxed load is only ever a hint here (poison flags, spin loops).
            if mo != 0 {
                sched::point("ald", p as usize);
            }
            let v = (*(p as *const $a)).load(SeqCst);
            sched::low("ld", p as usize, v as u64);
            v
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *mut $t, v: $t, _mo: i32) {
            sched::point("ast", p as usize);
            (*(p as *const $a)).store(v, SeqCst);
            sched::low("st", p as usize, v as u64);
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xchg(p: *mut $t, v: $t, _mo: i32) -> $t {
            sched::point("axc", p as usize);
            let o = (*(p as *const $a)).swap(v, SeqCst);
            sched::low("xc", p as usize, ((o as u64) << 32) | v as u64 & 0xffff_ffff);
            o
        }
        #[no_mangle]
        pub unsafe extern "C" fn $add(p: *mut $t, v: $t, _mo: i32) -> $t {
            sched::point("aadd", p as usize);
            let o = (*(p as *const $a)).fetch_add(v, SeqCst);
            sched::low("add", p as usize, o as u64);
            o
        }
        #[no_mangle]
        pub unsafe extern "C" fn $sub(p: *mut $t, v: $t, _mo: i32) -> $t {
            sched::point("asub", p as usize);
            let o = (*(p as *const $a)).fetch_sub(v, SeqCst);
            sched::low("sub", p as usize, o as u64);
            o
        }
        #[no_mangle]
        pub unsafe extern "C" fn $and(p: *mut $t, v: $t, _mo: i32) -> $t {
            sched::point("aand", p as usize);
            (*(p as *const $a)).fetch_and(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $or(p: *mut $t, v: $t, _mo: i32) -> $t {
            sched::point("aor", p as usize);
            (*(p as *const $a)).fetch_or(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xor(p: *mut $t, v: $t, _mo: i32) -> $t {
            sched::point("axor", p as usize);
            (*(p as *const $a)).fetch_xor(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $nand(p: *mut $t, v: $t, _mo: i32) -> $t {
            sched::point("anand", p as usize);
            (*(p as *const $a)).fetch_nand(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *mut $t, c: $t, v: $t, _mo: i32, _fmo: i32) -> $t {
            sched::point("acas", p as usize);
            let o = match (*(p as *const $a)).compare_exchange(c, v, SeqCst, SeqCst) {
                Ok(x) => x,
                Err(x) => x,
            };
            sched::low("cas", p as usize, ((o as u64) << 32) | v as u64 & 0xffff_ffff);
            o
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cass(p: *mut $t, c: *mut $t, v: $t, _mo: i32, _f: i32) -> bool {
            sched::point("acas", p as usize);
            match (*(p as *const $a)).compare_exchange(*c, v, SeqCst, SeqCst) {
                Ok(_) => true,
                Err(x) => {
                    *c = x;
                    false
                }
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $casw(p: *mut $t, c: *mut $t, v: $t, mo: i32, f: i32) -> bool {
            $cass(p, c, v, mo, f)
        }
    };
}
atomics!(u8, AtomicU8, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange,
    __tsan_atomic8_fetch_add, __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and,
    __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor, __tsan_atomic8_fetch_nand,
    __tsan_atomic8_compare_exchange_val, __tsan_atomic8_compare_exchange_strong,
    __tsan_atomic8_compare_exchange_weak);
atomics!(u16, AtomicU16, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange,
    __tsan_atomic16_fetch_add, __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and,
    __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor, __tsan_atomic16_fetch_nand,
    __tsan_atomic16_compare_exchange_val, __tsan_atomic16_compare_exchange_strong,
    __tsan_atomic16_compare_exchange_weak);
atomics!(u32, AtomicU32, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange,
    __tsan_atomic32_fetch_add, __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and,
    __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor, __tsan_atomic32_fetch_nand,
    __tsan_atomic32_compare_exchange_val, __tsan_atomic32_compare_exchange_strong,
    __tsan_atomic32_compare_exchange_weak);
atomics!(u64, AtomicU64, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange,
    __tsan_atomic64_fetch_add, __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and,
    __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor, __tsan_atomic64_fetch_nand,
    __tsan_atomic64_compare_exchange_val, __tsan_atomic64_compare_exchange_strong,
    __tsan_atomic64_compare_exchange_weak);

#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_p: *const u8) {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_mo: i32) {
    std::sync::atomic::fence(SeqCst);
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_mo: i32) {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    std::ptr::copy_nonoverlapping(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    std::ptr::copy(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    std::ptr::write_bytes(d, c as u8, n);
    d
}
