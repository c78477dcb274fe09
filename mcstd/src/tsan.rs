//! The entry points that `-Zsanitizer=thread` makes the compiler call, answered by the explorer
//! instead of by the sanitizer's runtime: every plain memory access of the instrumented crates
//! (crate under test, harness and the parts of std instantiated in them) reaches the race detector.
//! This crate itself is not instrumented.
#![allow(non_snake_case)]
use crate::mc::mem_access;
use ::std::ffi::c_void;

macro_rules! access {
    ($($n:literal: $r:ident $w:ident $ur:ident $uw:ident $vr:ident $vw:ident $uvr:ident $uvw:ident $rw:ident $urw:ident),*) => {$(
        #[no_mangle] pub extern "C" fn $r(p: *mut c_void) { mem_access(p as usize, $n, false) }
        #[no_mangle] pub extern "C" fn $w(p: *mut c_void) { mem_access(p as usize, $n, true) }
        #[no_mangle] pub extern "C" fn $ur(p: *mut c_void) { mem_access(p as usize, $n, false) }
        #[no_mangle] pub extern "C" fn $uw(p: *mut c_void) { mem_access(p as usize, $n, true) }
        #[no_mangle] pub extern "C" fn $vr(p: *mut c_void) { mem_access(p as usize, $n, false) }
        #[no_mangle] pub extern "C" fn $vw(p: *mut c_void) { mem_access(p as usize, $n, true) }
        #[no_mangle] pub extern "C" fn $uvr(p: *mut c_void) { mem_access(p as usize, $n, false) }
        #[no_mangle] pub extern "C" fn $uvw(p: *mut c_void) { mem_access(p as usize, $n, true) }
        #[no_mangle] pub extern "C" fn $rw(p: *mut c_void) { mem_access(p as usize, $n, false); mem_access(p as usize, $n, true) }
        #[no_mangle] pub extern "C" fn $urw(p: *mut c_void) { mem_access(p as usize, $n, false); mem_access(p as usize, $n, true) }
    )*};
}
access!(
    1: __tsan_read1 __tsan_write1 __tsan_unaligned_read1 __tsan_unaligned_write1 __tsan_volatile_read1 __tsan_volatile_write1 __tsan_unaligned_volatile_read1 __tsan_unaligned_volatile_write1 __tsan_read_write1 __tsan_unaligned_read_write1,
    2: __tsan_read2 __tsan_write2 __tsan_unaligned_read2 __tsan_unaligned_write2 __tsan_volatile_read2 __tsan_volatile_write2 __tsan_unaligned_volatile_read2 __tsan_unaligned_volatile_write2 __tsan_read_write2 __tsan_unaligned_read_write2,
    4: __tsan_read4 __tsan_write4 __tsan_unaligned_read4 __tsan_unaligned_write4 __tsan_volatile_read4 __tsan_volatile_write4 __tsan_unaligned_volatile_read4 __tsan_unaligned_volatile_write4 __tsan_read_write4 __tsan_unaligned_read_write4,
    8: __tsan_read8 __tsan_write8 __tsan_unaligned_read8 __tsan_unaligned_write8 __tsan_volatile_read8 __tsan_volatile_write8 __tsan_unaligned_volatile_read8 __tsan_unaligned_volatile_write8 __tsan_read_write8 __tsan_unaligned_read_write8,
    16: __tsan_read16 __tsan_write16 __tsan_unaligned_read16 __tsan_unaligned_write16 __tsan_volatile_read16 __tsan_volatile_write16 __tsan_unaligned_volatile_read16 __tsan_unaligned_volatile_write16 __tsan_read_write16 __tsan_unaligned_read_write16
);

#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_pc: *mut c_void) {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub extern "C" fn __tsan_vptr_update(p: *mut c_void, _v: *mut c_void) {
    mem_access(p as usize, 8, true)
}
#[no_mangle]
pub extern "C" fn __tsan_vptr_read(p: *mut c_void) {
    mem_access(p as usize, 8, false)
}
#[no_mangle]
pub extern "C" fn __tsan_read_range(p: *mut c_void, n: usize) {
    mem_access(p as usize, n, false)
}
#[no_mangle]
pub extern "C" fn __tsan_write_range(p: *mut c_void, n: usize) {
    mem_access(p as usize, n, true)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void {
    mem_access(s as usize, n, false);
    mem_access(d as usize, n, true);
    ::std::ptr::copy(s as *const u8, d as *mut u8, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void {
    __tsan_memcpy(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut c_void, v: i32, n: usize) -> *mut c_void {
    mem_access(d as usize, n, true);
    ::std::ptr::write_bytes(d as *mut u8, v as u8, n);
    d
}

// Real atomics in instrumented code (the harness's own, std's reference counts): executed as they are.
use ::std::sync::atomic::{AtomicU16, AtomicU32, AtomicU64, AtomicU8, Ordering::SeqCst};
macro_rules! atomics {
    ($($t:ty, $a:ty: $ld:ident $st:ident $xc:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cs:ident $cw:ident $cv:ident),*) => {$(
        #[no_mangle] pub unsafe extern "C" fn $ld(p: *mut $t, _o: i32) -> $t { (*(p as *const $a)).load(SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $st(p: *mut $t, v: $t, _o: i32) { (*(p as *const $a)).store(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $xc(p: *mut $t, v: $t, _o: i32) -> $t { (*(p as *const $a)).swap(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $add(p: *mut $t, v: $t, _o: i32) -> $t { (*(p as *const $a)).fetch_add(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $sub(p: *mut $t, v: $t, _o: i32) -> $t { (*(p as *const $a)).fetch_sub(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $and(p: *mut $t, v: $t, _o: i32) -> $t { (*(p as *const $a)).fetch_and(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $or(p: *mut $t, v: $t, _o: i32) -> $t { (*(p as *const $a)).fetch_or(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $xor(p: *mut $t, v: $t, _o: i32) -> $t { (*(p as *const $a)).fetch_xor(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $nand(p: *mut $t, v: $t, _o: i32) -> $t { (*(p as *const $a)).fetch_nand(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $cs(p: *mut $t, c: *mut $t, v: $t, _o: i32, _f: i32) -> i32 {
            match (*(p as *const $a)).compare_exchange(*c, v, SeqCst, SeqCst) { Ok(_) => 1, Err(x) => { *c = x; 0 } }
        }
        #[no_mangle] pub unsafe extern "C" fn $cw(p: *mut $t, c: *mut $t, v: $t, o: i32, f: i32) -> i32 { $cs(p, c, v, o, f) }
        #[no_mangle] pub unsafe extern "C" fn $cv(p: *mut $t, c: $t, v: $t, _o: i32, _f: i32) -> $t {
            match (*(p as *const $a)).compare_exchange(c, v, SeqCst, SeqCst) { Ok(x) => x, Err(x) => x }
        }
    )*};
}
atomics!(
    u8, AtomicU8: __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_strong __tsan_atomic8_compare_exchange_weak __tsan_atomic8_compare_exchange_val,
    u16, AtomicU16: __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_strong __tsan_atomic16_compare_exchange_weak __tsan_atomic16_compare_exchange_val,
    u32, AtomicU32: __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_strong __tsan_atomic32_compare_exchange_weak __tsan_atomic32_compare_exchange_val,
    u64, AtomicU64: __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_strong __tsan_atomic64_compare_exchange_weak __tsan_atomic64_compare_exchange_val
);
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_o: i32) {
    ::std::sync::atomic::fence(SeqCst)
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_o: i32) {}
