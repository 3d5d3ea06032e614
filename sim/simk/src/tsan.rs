//! Run-time library for code compiled with ThreadSanitizer instrumentation: every atomic operation and every
//! access to a shared memory region becomes a scheduling point.
use crate::sched::{in_sim, kenter, yield_now, Yk};
use std::ffi::c_void;
use std::sync::atomic::*;

#[inline(always)]
fn at(a: usize) {
    if in_sim() {
        let k = if crate::in_arena(a) { Yk::Shared } else { Yk::Atomic };
        let _g = kenter();
        yield_now(k);
    }
}
#[inline(always)]
fn mem(a: usize) {
    if crate::in_arena(a) && in_sim() {
        let _g = kenter();
        yield_now(Yk::Shared);
    }
}

macro_rules! nops { ($($n:ident($($a:ident),*);)*) => { $(#[no_mangle] pub extern "C" fn $n($($a: usize),*) { $(let _ = $a;)* })* } }
nops! {
    __tsan_init(); __tsan_func_entry(a); __tsan_func_exit(); __tsan_vptr_read(a); __tsan_vptr_update(a, b);
    __tsan_ignore_thread_begin(); __tsan_ignore_thread_end(); __tsan_atomic_signal_fence(a);
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_m: i32) {
    fence(Ordering::SeqCst);
}
macro_rules! mems { ($($n:ident),*) => { $(#[no_mangle] pub extern "C" fn $n(a: usize) { mem(a) })* } }
mems!{__tsan_read1, __tsan_read2, __tsan_read4, __tsan_read8, __tsan_read16, __tsan_write1, __tsan_write2, __tsan_write4, __tsan_write8, __tsan_write16, __tsan_unaligned_read1, __tsan_unaligned_read2, __tsan_unaligned_read4, __tsan_unaligned_read8, __tsan_unaligned_read16, __tsan_unaligned_write1, __tsan_unaligned_write2, __tsan_unaligned_write4, __tsan_unaligned_write8, __tsan_unaligned_write16, __tsan_volatile_read1, __tsan_volatile_read2, __tsan_volatile_read4, __tsan_volatile_read8, __tsan_volatile_read16, __tsan_volatile_write1, __tsan_volatile_write2, __tsan_volatile_write4, __tsan_volatile_write8, __tsan_volatile_write16, __tsan_unaligned_volatile_read1, __tsan_unaligned_volatile_read2, __tsan_unaligned_volatile_read4, __tsan_unaligned_volatile_read8, __tsan_unaligned_volatile_read16, __tsan_unaligned_volatile_write1, __tsan_unaligned_volatile_write2, __tsan_unaligned_volatile_write4, __tsan_unaligned_volatile_write8, __tsan_unaligned_volatile_write16, __tsan_read_write1, __tsan_unaligned_read_write1, __tsan_read_write2, __tsan_unaligned_read_write2, __tsan_read_write4, __tsan_unaligned_read_write4, __tsan_read_write8, __tsan_unaligned_read_write8, __tsan_read_write16, __tsan_unaligned_read_write16}

#[no_mangle]
pub extern "C" fn __tsan_read_range(a: usize, _n: usize) {
    mem(a)
}
#[no_mangle]
pub extern "C" fn __tsan_write_range(a: usize, _n: usize) {
    mem(a)
}
extern "C" {
    fn memcpy(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void;
    fn memmove(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void;
    fn memset(d: *mut c_void, c: i32, n: usize) -> *mut c_void;
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void {
    if (crate::in_arena(d as usize) || crate::in_arena(s as usize)) && n > 1 && in_sim() {
        // a bulk copy of shared memory is not atomic
        mem(d as usize);
        mem(s as usize);
        let h = n / 2;
        memcpy(d, s, h);
        mem(d as usize);
        mem(s as usize);
        memcpy(d.add(h), s.add(h), n - h);
        return d;
    }
    memcpy(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void {
    mem(d as usize);
    mem(s as usize);
    memmove(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut c_void, c: i32, n: usize) -> *mut c_void {
    mem(d as usize);
    memset(d, c, n)
}
macro_rules! atomics { ($t:ty, $at:ty, $load:ident, $store:ident, $xchg:ident, $add:ident, $sub:ident, $and:ident, $or:ident, $xor:ident, $nand:ident, $cs:ident, $cw:ident, $cv:ident) => {
    #[no_mangle] pub unsafe extern "C" fn $load(a: *const $at, _m: i32) -> $t { at(a as usize); (*a).load(Ordering::SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $store(a: *const $at, v: $t, _m: i32) { at(a as usize); (*a).store(v, Ordering::SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $xchg(a: *const $at, v: $t, _m: i32) -> $t { at(a as usize); (*a).swap(v, Ordering::SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $add(a: *const $at, v: $t, _m: i32) -> $t { at(a as usize); (*a).fetch_add(v, Ordering::SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $sub(a: *const $at, v: $t, _m: i32) -> $t { at(a as usize); (*a).fetch_sub(v, Ordering::SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $and(a: *const $at, v: $t, _m: i32) -> $t { at(a as usize); (*a).fetch_and(v, Ordering::SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $or(a: *const $at, v: $t, _m: i32) -> $t { at(a as usize); (*a).fetch_or(v, Ordering::SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $xor(a: *const $at, v: $t, _m: i32) -> $t { at(a as usize); (*a).fetch_xor(v, Ordering::SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $nand(a: *const $at, v: $t, _m: i32) -> $t { at(a as usize); (*a).fetch_nand(v, Ordering::SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $cs(a: *const $at, e: *mut $t, v: $t, _m: i32, _f: i32) -> i32 { at(a as usize);
        match (*a).compare_exchange(*e, v, Ordering::SeqCst, Ordering::SeqCst) { Ok(_) => 1, Err(o) => { *e = o; 0 } } }
    #[no_mangle] pub unsafe extern "C" fn $cw(a: *const $at, e: *mut $t, v: $t, m: i32, f: i32) -> i32 { $cs(a, e, v, m, f) }
    #[no_mangle] pub unsafe extern "C" fn $cv(a: *const $at, e: $t, v: $t, _m: i32, _f: i32) -> $t { at(a as usize);
        match (*a).compare_exchange(e, v, Ordering::SeqCst, Ordering::SeqCst) { Ok(o) => o, Err(o) => o } }
} }
atomics!(u8, AtomicU8, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_fetch_add, __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor, __tsan_atomic8_fetch_nand, __tsan_atomic8_compare_exchange_strong, __tsan_atomic8_compare_exchange_weak, __tsan_atomic8_compare_exchange_val);
atomics!(u16, AtomicU16, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_fetch_add, __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor, __tsan_atomic16_fetch_nand, __tsan_atomic16_compare_exchange_strong, __tsan_atomic16_compare_exchange_weak, __tsan_atomic16_compare_exchange_val);
atomics!(u32, AtomicU32, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_fetch_add, __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor, __tsan_atomic32_fetch_nand, __tsan_atomic32_compare_exchange_strong, __tsan_atomic32_compare_exchange_weak, __tsan_atomic32_compare_exchange_val);
atomics!(u64, AtomicU64, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_fetch_add, __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor, __tsan_atomic64_fetch_nand, __tsan_atomic64_compare_exchange_strong, __tsan_atomic64_compare_exchange_weak, __tsan_atomic64_compare_exchange_val);
