//! The runtime behind the compiler's memory-access instrumentation
//! (`-Zsanitizer=thread`).  The real ThreadSanitizer runtime is not linked;
//! every load, store and atomic operation of the instrumented crates calls
//! these functions instead.
use crate::mem;
use crate::rt::*;
use std::sync::atomic::*;

#[inline(always)]
fn access(addr: usize, size: usize, write: bool) {
    if MODE.get() & HOOK == 0 {
        return;
    }
    mem::check(addr, size, write, false, true);
}

#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_pc: usize) {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub extern "C" fn __tsan_vptr_update(a: usize, _v: usize) {
    access(a, 8, true)
}
#[no_mangle]
pub extern "C" fn __tsan_vptr_read(a: usize) {
    access(a, 8, false)
}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_begin() {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_end() {}

macro_rules! plain {
    ($($name:ident $size:expr, $w:expr;)*) => {
        $(#[no_mangle] pub extern "C" fn $name(a: usize) { access(a, $size, $w) })*
    }
}
plain! {
    __tsan_read1 1, false; __tsan_read2 2, false; __tsan_read4 4, false; __tsan_read8 8, false; __tsan_read16 16, false;
    __tsan_write1 1, true; __tsan_write2 2, true; __tsan_write4 4, true; __tsan_write8 8, true; __tsan_write16 16, true;
    __tsan_unaligned_read2 2, false; __tsan_unaligned_read4 4, false; __tsan_unaligned_read8 8, false; __tsan_unaligned_read16 16, false;
    __tsan_unaligned_write2 2, true; __tsan_unaligned_write4 4, true; __tsan_unaligned_write8 8, true; __tsan_unaligned_write16 16, true;
    __tsan_volatile_read1 1, false; __tsan_volatile_read2 2, false; __tsan_volatile_read4 4, false; __tsan_volatile_read8 8, false; __tsan_volatile_read16 16, false;
    __tsan_volatile_write1 1, true; __tsan_volatile_write2 2, true; __tsan_volatile_write4 4, true; __tsan_volatile_write8 8, true; __tsan_volatile_write16 16, true;
    __tsan_unaligned_volatile_read2 2, false; __tsan_unaligned_volatile_read4 4, false; __tsan_unaligned_volatile_read8 8, false; __tsan_unaligned_volatile_read16 16, false;
    __tsan_unaligned_volatile_write2 2, true; __tsan_unaligned_volatile_write4 4, true; __tsan_unaligned_volatile_write8 8, true; __tsan_unaligned_volatile_write16 16, true;
    __tsan_read_write1 1, true; __tsan_read_write2 2, true; __tsan_read_write4 4, true; __tsan_read_write8 8, true; __tsan_read_write16 16, true;
    __tsan_unaligned_read_write2 2, true; __tsan_unaligned_read_write4 4, true; __tsan_unaligned_read_write8 8, true; __tsan_unaligned_read_write16 16, true;
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    if n > 0 {
        access(s as usize, n, false);
        access(d as usize, n, true);
    }
    core::ptr::copy(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    if n > 0 {
        access(s as usize, n, false);
        access(d as usize, n, true);
    }
    core::ptr::copy(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, v: i32, n: usize) -> *mut u8 {
    if n > 0 {
        access(d as usize, n, true);
    }
    core::ptr::write_bytes(d, v as u8, n);
    d
}

// ------------------------------------------------------------ atomics

fn acquires(mo: i32) -> bool {
    mo == 1 || mo == 2 || mo == 4 || mo == 5
}
fn releases(mo: i32) -> bool {
    mo == 3 || mo == 4 || mo == 5
}

#[derive(PartialEq, Clone, Copy)]
enum Kind {
    Load,
    Store,
    Rmw,
}

/// Scheduling point and validity check before an atomic operation.
#[inline(never)]
fn pre(addr: usize, size: usize, write: bool) {
    let m = MODE.replace(0);
    let t = TID.get() as usize;
    if st().th[t].watch.0 != 0 {
        resolve(t);
    }
    point(K_ATOMIC);
    mem::check(addr, size, write, true, false);
    MODE.set(m);
}

/// Clock bookkeeping; `before` is the value found, `after` the value left.
#[inline(never)]
fn sync(addr: usize, kind: Kind, before: u128, after: u128, mo: i32) {
    let m = MODE.replace(0);
    let s = st();
    let t = TID.get() as usize;
    event(7, (addr >= mem::BASE && addr < mem::BASE + mem::SIZE) as u64 * (addr - mem::BASE.min(addr)) as u64 ^ after as u64);
    let arena = mem::in_arena(addr);
    let State { sync, th, n, foreign, .. } = s;
    let known = sync.contains_key(&addr);
    let l = sync.entry(addr).or_default();
    let is_foreign = if known { l.last != before } else { !arena };
    if is_foreign {
        // the location was written by code we do not see (precompiled std):
        // assume it synchronised with everybody
        *foreign += 1;
        for i in 0..*n {
            let v = th[i].vc;
            join_vc(&mut l.vc, &v);
        }
    }
    if kind != Kind::Store {
        if acquires(mo) {
            join_vc(&mut th[t].vc, &l.vc);
        } else {
            let v = l.vc;
            join_vc(&mut th[t].acq_pending, &v);
        }
    }
    if kind != Kind::Load {
        if releases(mo) {
            let v = th[t].vc;
            if kind == Kind::Store {
                l.vc = v;
            } else {
                join_vc(&mut l.vc, &v);
            }
            th[t].vc[t] += 1;
        } else {
            let v = th[t].fence_rel;
            if kind == Kind::Store {
                l.vc = v;
            } else {
                join_vc(&mut l.vc, &v);
            }
        }
    }
    l.last = after;
    MODE.set(m);
}

/// The slow paths of std's locks are precompiled: after the instrumented fast
/// path found the lock taken, they acquire it with an operation that is not
/// seen.  At the next event of the thread, a value that no instrumented
/// operation left there shows that this happened.
#[inline(never)]
pub fn resolve(t: usize) {
    let s = st();
    let (addr, size) = s.th[t].watch;
    s.th[t].watch = (0, 0);
    let m = MODE.replace(0);
    let State { sync, th, n, foreign, .. } = s;
    if let Some(l) = sync.get_mut(&addr) {
        let now = unsafe {
            match size {
                1 => (*(addr as *const AtomicU8)).load(Ordering::SeqCst) as u128,
                2 => (*(addr as *const AtomicU16)).load(Ordering::SeqCst) as u128,
                4 => (*(addr as *const AtomicU32)).load(Ordering::SeqCst) as u128,
                _ => (*(addr as *const AtomicU64)).load(Ordering::SeqCst) as u128,
            }
        };
        if now != l.last {
            *foreign += 1;
            for i in 0..*n {
                let v = th[i].vc;
                join_vc(&mut l.vc, &v);
            }
            let v = l.vc;
            join_vc(&mut th[t].vc, &v);
            l.last = now;
        }
    }
    MODE.set(m);
}

#[inline(always)]
fn watch(addr: usize, size: u8) {
    st().th[TID.get() as usize].watch = (addr, size);
}

#[inline(always)]
fn hooked() -> bool {
    MODE.get() & HOOK != 0
}

macro_rules! atomic {
    ($ty:ty, $at:ty, $size:expr, $load:ident, $store:ident, $xchg:ident, $add:ident, $sub:ident, $and:ident, $or:ident, $xor:ident, $nand:ident, $cas:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(a: *const $ty, mo: i32) -> $ty {
            let p = &*(a as *const $at);
            if !hooked() {
                return p.load(Ordering::SeqCst);
            }
            pre(a as usize, $size, false);
            let v = p.load(Ordering::SeqCst);
            sync(a as usize, Kind::Load, v as u128, v as u128, mo);
            watch(a as usize, $size);
            v
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(a: *mut $ty, v: $ty, mo: i32) {
            let p = &*(a as *const $at);
            if !hooked() {
                return p.store(v, Ordering::SeqCst);
            }
            pre(a as usize, $size, true);
            let old = p.swap(v, Ordering::SeqCst);
            sync(a as usize, Kind::Store, old as u128, v as u128, mo);
        }
        atomic!(@rmw $ty, $at, $size, $xchg, |_o: $ty, v: $ty| v);
        atomic!(@rmw $ty, $at, $size, $add, |o: $ty, v: $ty| o.wrapping_add(v));
        atomic!(@rmw $ty, $at, $size, $sub, |o: $ty, v: $ty| o.wrapping_sub(v));
        atomic!(@rmw $ty, $at, $size, $and, |o: $ty, v: $ty| o & v);
        atomic!(@rmw $ty, $at, $size, $or, |o: $ty, v: $ty| o | v);
        atomic!(@rmw $ty, $at, $size, $xor, |o: $ty, v: $ty| o ^ v);
        atomic!(@rmw $ty, $at, $size, $nand, |o: $ty, v: $ty| !(o & v));
        #[no_mangle]
        pub unsafe extern "C" fn $cas(a: *mut $ty, e: $ty, v: $ty, mo: i32, fmo: i32) -> $ty {
            let p = &*(a as *const $at);
            if !hooked() {
                return match p.compare_exchange(e, v, Ordering::SeqCst, Ordering::SeqCst) {
                    Ok(o) => o,
                    Err(o) => o,
                };
            }
            pre(a as usize, $size, true);
            match p.compare_exchange(e, v, Ordering::SeqCst, Ordering::SeqCst) {
                Ok(o) => {
                    sync(a as usize, Kind::Rmw, o as u128, v as u128, mo);
                    o
                }
                Err(o) => {
                    sync(a as usize, Kind::Load, o as u128, o as u128, fmo);
                    probe(0);
                    watch(a as usize, $size);
                    o
                }
            }
        }
    };
    (@rmw $ty:ty, $at:ty, $size:expr, $name:ident, $f:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(a: *mut $ty, v: $ty, mo: i32) -> $ty {
            let p = &*(a as *const $at);
            let f = $f;
            if !hooked() {
                return p.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |o| Some(f(o, v))).unwrap();
            }
            pre(a as usize, $size, true);
            let o = p.load(Ordering::SeqCst);
            let n = f(o, v);
            p.store(n, Ordering::SeqCst);
            sync(a as usize, Kind::Rmw, o as u128, n as u128, mo);
            o
        }
    };
}

atomic!(u8, AtomicU8, 1, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_fetch_add, __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor, __tsan_atomic8_fetch_nand, __tsan_atomic8_compare_exchange_val);
atomic!(u16, AtomicU16, 2, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_fetch_add, __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor, __tsan_atomic16_fetch_nand, __tsan_atomic16_compare_exchange_val);
atomic!(u32, AtomicU32, 4, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_fetch_add, __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor, __tsan_atomic32_fetch_nand, __tsan_atomic32_compare_exchange_val);
atomic!(u64, AtomicU64, 8, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_fetch_add, __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor, __tsan_atomic64_fetch_nand, __tsan_atomic64_compare_exchange_val);

#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(mo: i32) {
    fence(Ordering::SeqCst);
    if !hooked() {
        return;
    }
    let s = st();
    let t = TID.get() as usize;
    if acquires(mo) {
        let v = s.th[t].acq_pending;
        join_vc(&mut s.th[t].vc, &v);
    }
    if releases(mo) {
        s.th[t].fence_rel = s.th[t].vc;
        s.th[t].vc[t] += 1;
    }
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_mo: i32) {}
