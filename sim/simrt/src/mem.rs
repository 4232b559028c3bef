//! The simulated heap: a bump arena at a fixed address, with a shadow that
//! knows every block, so that any access outside a live block is seen when it
//! happens.  In most runs memory is never reused; in the others the next
//! request of the same size gets the block released last, as with common
//! allocators, so that code which takes an address for an identity is caught.
use crate::raw;
use crate::rt::*;
use std::alloc::{GlobalAlloc, Layout, System};

pub const BASE: usize = 0x2000_0000_0000;
pub const SIZE: usize = 1 << 30;
const GRAN_BASE: usize = 0x2100_0000_0000; // u32 per 16 bytes
const CELL_BASE: usize = 0x2200_0000_0000; // 32 bytes per 8 bytes
const BLK_BASE: usize = 0x2300_0000_0000;
pub const MAXBLK: usize = 4 << 20;
const REDZONE: usize = 32;
pub const BIG: usize = 192 << 20;

#[repr(C)]
pub struct Block {
    pub start: usize,
    pub size: usize,
    pub align: u32,
    pub live: u8,
    pub alloc_tid: u8,
    pub free_tid: u8,
    pub flags: u8, // 1: allocated in an op that failed (leak tolerated)
    pub touched: u32,
    pub alloc_op: u32,
    pub free_op: u32,
    pub serial: u32,
    pub clk: [u32; MAXT],
}

pub static mut BUMP: usize = 0;
pub static mut NBLK: usize = 1;
pub static mut LIVE: usize = 0;
pub static mut LIVE_BYTES: usize = 0;
pub static mut MAPPED: bool = false;
pub static mut REUSE: bool = false;
static mut FREE: Option<Map<u64, Vec<usize>>> = None;

#[allow(static_mut_refs)]
fn free_list(padded: usize, align: usize) -> &'static mut Vec<usize> {
    unsafe { FREE.get_or_insert_with(Map::default).entry(((padded as u64) << 16) | align as u64).or_default() }
}

/// Maps the arena and its shadow (untouched, so free until used).
pub fn map() {
    unsafe {
        if MAPPED {
            return;
        }
        raw::mmap(BASE, SIZE, false);
        raw::mmap(GRAN_BASE, SIZE / 4, false);
        raw::mmap(CELL_BASE, SIZE * 4, false);
        raw::mmap(BLK_BASE, MAXBLK * core::mem::size_of::<Block>(), false);
        MAPPED = true;
    }
}

#[inline(always)]
pub fn blk(i: usize) -> &'static mut Block {
    unsafe { &mut *((BLK_BASE as *mut Block).add(i)) }
}

#[inline(always)]
unsafe fn gran(off: usize) -> *mut u32 {
    (GRAN_BASE as *mut u32).add(off >> 4)
}

#[inline(always)]
pub fn in_arena(a: usize) -> bool {
    a.wrapping_sub(BASE) < SIZE
}

/// Block id containing the address, 0 if none.
pub fn block_of(a: usize) -> usize {
    if !in_arena(a) {
        return 0;
    }
    unsafe { *gran(a - BASE) as usize }
}

pub fn is_live(b: usize) -> bool {
    b != 0 && blk(b).live == 1
}

pub struct SimAlloc;

unsafe fn arena_alloc(size: usize, align: usize) -> *mut u8 {
    let m = MODE.replace(0);
    let s = st();
    let t = TID.get() as usize;
    if m & FAULT != 0 {
        if size == 0 {
            violate("zero_alloc", "zero-sized request passed to the allocator (undefined behaviour)");
        }
        let th = &mut s.th[t];
        th.alloc_n += 1;
        if size > th.max_request {
            th.max_request = size;
        }
        if th.alloc_fail_at != 0
            && th.alloc_n >= th.alloc_fail_at
            && th.alloc_n < th.alloc_fail_at + th.alloc_fail_len
            && !std::thread::panicking()
        {
            th.alloc_fired += 1;
            count_fault(F_ALLOC);
            event(3, size as u64);
            MODE.set(m);
            return core::ptr::null_mut();
        }
    }
    let a = align.max(16);
    let padded = (size + 15) & !15;
    let old = if REUSE && size > 0 { free_list(padded, a).pop() } else { None };
    let start = match old {
        Some(o) => o,
        None => (BUMP + REDZONE + a - 1) & !(a - 1),
    };
    let cap = s.th[t].alloc_cap;
    if size > BIG && m & FAULT != 0 && cap == 0 {
        violate("unbounded_memory", &format!("{} bytes requested, out of all proportion to the operands", size));
    }
    if size > BIG || (cap != 0 && size > cap && m & FAULT != 0) || start + padded + REDZONE > SIZE || NBLK >= MAXBLK {
        // the simulated machine is out of memory
        s.th[t].alloc_fired += 1;
        event(4, size as u64);
        MODE.set(m);
        return core::ptr::null_mut();
    }
    let id = NBLK;
    NBLK += 1;
    if old.is_none() {
        BUMP = start + padded.max(16);
    } else {
        // (allocators order the release of a block before its reuse)
        core::ptr::write_bytes((CELL_BASE as *mut [u64; 4]).add(start >> 3), 0, padded >> 3);
    }
    LIVE += 1;
    LIVE_BYTES += size;
    let p = (BASE + start) as *mut u8;
    core::ptr::write_bytes(p.sub(REDZONE.min(start)), 0xFF, padded + 2 * REDZONE.min(start));
    let g = gran(start);
    for i in 0..(padded / 16).max(if size == 0 { 0 } else { 1 }) {
        *g.add(i) = id as u32;
    }
    let b = blk(id);
    b.start = start;
    b.size = size;
    b.align = align as u32;
    b.live = 1;
    b.alloc_tid = t as u8;
    b.touched = 1 << t;
    b.alloc_op = s.th[t].op;
    b.serial = s.th[t].op_idx;
    b.clk = [0; MAXT];
    b.clk[t] = s.th[t].vc[t];
    event(5, size as u64);
    MODE.set(m);
    p
}

unsafe fn arena_free(p: *mut u8, size: usize, align: usize) {
    let m = MODE.replace(0);
    let off = p as usize - BASE;
    let id = *gran(off) as usize;
    if id == 0 {
        violate("bad_free", &format!("free of an address that is not a heap block (size {})", size));
    }
    let b = blk(id);
    let t = TID.get() as usize;
    let s = st();
    if b.live != 1 {
        violate(
            "double_free",
            &format!(
                "block of {} bytes allocated in {} by thread {} was already freed in {} by thread {}",
                b.size, crate::run::op_name(b.alloc_op), b.alloc_tid, crate::run::op_name(b.free_op), b.free_tid
            ),
        );
    }
    if b.start != off || b.size != size || b.align as usize != align {
        violate(
            "bad_free",
            &format!("free with layout size {} align {} at offset {} of a block of size {} align {}",
                size, align, off - b.start, b.size, b.align),
        );
    }
    // everything that touched the block must happen before its release
    if s.multi {
        for i in 0..s.n {
            if i != t && b.clk[i] > s.th[t].vc[i] {
                violate(
                    "race_free",
                    &format!("storage of {} bytes is released while an access to it by thread {} is not ordered before", b.size, i),
                );
            }
        }
    }
    if REUSE && b.size > 0 {
        free_list((b.size + 15) & !15, (b.align as usize).max(16)).push(b.start);
    }
    b.live = 2;
    b.free_tid = t as u8;
    b.free_op = s.th[t].op;
    LIVE -= 1;
    LIVE_BYTES -= size;
    core::ptr::write_bytes(p, 0xFE, size);
    event(6, size as u64);
    MODE.set(m);
}

unsafe impl GlobalAlloc for SimAlloc {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if MODE.get() & ARENA != 0 {
            arena_alloc(l.size(), l.align())
        } else {
            System.alloc(l)
        }
    }
    #[inline]
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if MODE.get() & ARENA != 0 {
            let p = arena_alloc(l.size(), l.align());
            if !p.is_null() {
                core::ptr::write_bytes(p, 0, l.size());
            }
            p
        } else {
            System.alloc_zeroed(l)
        }
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_arena(p as usize) {
            arena_free(p, l.size(), l.align())
        } else if (p as usize) < 4096 || MODE.get() & FAULT != 0 && !plausible(p) {
            violate("bad_free", &format!("free of invalid address {:#x}, size {}", p as usize, l.size()));
        } else {
            System.dealloc(p, l)
        }
    }
    #[inline]
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if in_arena(p as usize) {
            let m = MODE.get();
            MODE.set(m | ARENA);
            let q = arena_alloc(n, l.align());
            MODE.set(m);
            if !q.is_null() {
                core::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                arena_free(p, l.size(), l.align());
            }
            q
        } else {
            System.realloc(p, l, n)
        }
    }
}

/// A pointer the real allocator could have returned (not near null, 16-aligned,
/// canonical).  Freeing a dangling sentinel (e.g. `align as *mut T`) is caught.
fn plausible(p: *mut u8) -> bool {
    (p as usize) >= 0x1_0000 && (p as usize) < 0x8000_0000_0000
}

// ------------------------------------------------------------ access checks

#[inline(always)]
fn pack(clk: u32, tid: usize, mask: u8) -> u64 {
    ((clk as u64) << 16) | ((tid as u64) << 8) | mask as u64
}

#[inline(always)]
fn conflicts(c: u64, mask: u8, tid: usize, vc: &Vc) -> bool {
    if c == 0 {
        return false;
    }
    let ct = (c >> 8) as u8 as usize;
    (c as u8) & mask != 0 && ct != tid && (c >> 16) as u32 > vc[ct]
}

/// Runs of a property that says nothing about data races go on after one.
pub static mut RACE_SOFT: bool = false;

fn race(kind: &str, c: u64, write: bool, what: &str) {
    if unsafe { RACE_SOFT } {
        return;
    }
    let ct = (c >> 8) as u8 as usize;
    let s = st();
    violate(
        "data_race",
        &format!(
            "{} of {} is not ordered with an earlier {} by thread {} (op#{} {})",
            if write { "write" } else { "read" }, what, kind, ct, s.th[ct].op_idx, crate::run::op_name(s.th[ct].op)
        ),
    )
}

#[inline(always)]
fn cell_access(cell: &mut [u64; 4], mask: u8, tid: usize, write: bool, what: &str) {
    let s = st();
    let vc = &s.th[tid].vc;
    let me = pack(vc[tid], tid, mask);
    if cell[0] == me || (!write && (cell[1] == me || cell[2] == me)) {
        if write {
            if cell[0] == me && cell[1] == 0 && cell[2] == 0 && cell[3] == 0 {
                return;
            }
        } else {
            return;
        }
    }
    if conflicts(cell[0], mask, tid, vc) {
        race("write", cell[0], write, what);
    }
    if write {
        for i in 1..4 {
            if conflicts(cell[i], mask, tid, vc) {
                race("read", cell[i], write, what);
            }
            cell[i] = 0;
        }
        cell[0] = me;
    } else {
        // same thread slot, free slot, a slot ordered before us, else evict
        let mut slot = 0;
        for i in 1..4 {
            let c = cell[i];
            if c == 0 || (c >> 8) as u8 as usize == tid {
                slot = i;
                break;
            }
        }
        if slot == 0 {
            for i in 1..4 {
                let c = cell[i];
                let ct = (c >> 8) as u8 as usize;
                if (c >> 16) as u32 <= vc[ct] {
                    slot = i;
                    break;
                }
            }
        }
        if slot == 0 {
            slot = 1 + (vc[tid] as usize + tid) % 3;
        }
        let same = cell[slot] != 0 && cell[slot] >> 8 == me >> 8;
        cell[slot] = if same { cell[slot] | mask as u64 } else { me };
    }
}

#[inline(never)]
fn bad_access(addr: usize, size: usize, write: bool) -> ! {
    MODE.set(0);
    let off = addr - BASE;
    let id = unsafe { *gran(off) as usize };
    let w = if write { "write" } else { "read" };
    if id != 0 && blk(id).live == 2 {
        let b = blk(id);
        violate(
            "use_after_free",
            &format!(
                "{} of {} bytes at offset {} of a block of {} bytes released by thread {} in {}",
                w, size, off.wrapping_sub(b.start), b.size, b.free_tid, crate::run::op_name(b.free_op)
            ),
        );
    }
    // nearest block before
    let mut o = off & !15;
    let mut id = 0;
    for _ in 0..1_000_000 {
        let g = unsafe { *gran(o) };
        if g != 0 {
            id = g as usize;
            break;
        }
        if o < 16 {
            break;
        }
        o -= 16;
    }
    if id != 0 {
        let b = blk(id);
        violate(
            "out_of_bounds",
            &format!(
                "{} of {} bytes at offset {} of the nearest block of {} bytes (allocated in {} by thread {})",
                w, size, off as isize - b.start as isize, b.size, crate::run::op_name(b.alloc_op), b.alloc_tid
            ),
        );
    }
    violate("out_of_bounds", &format!("{} of {} bytes outside any block", w, size))
}

/// Validity + race check of an access by the running thread.
#[inline(never)]
pub fn check(addr: usize, size: usize, write: bool, atomic: bool, preempt: bool) {
    let s = st();
    let tid = TID.get() as usize;
    s.hooks += 1;
    let th = &mut s.th[tid];
    th.op_work += 1;
    if th.watch.0 != 0 {
        crate::tsan::resolve(tid);
    }
    if th.op_work > s.work_budget {
        violate("no_progress", "one operation exceeded its step budget (it does not terminate or does unbounded work)");
    }
    let off = addr.wrapping_sub(BASE);
    if off < SIZE {
        let mut id = unsafe { *gran(off) as usize };
        if preempt && s.multi && id != 0 && blk(id).touched != 1 << tid {
            point(K_PLAIN);
            id = unsafe { *gran(off) as usize };
        }
        if id == 0 {
            bad_access(addr, size, write);
        }
        let b = blk(id);
        if b.live != 1 || off - b.start + size > b.size {
            bad_access(addr, size, write);
        }
        b.touched |= 1 << tid;
        let clk = s.th[tid].vc[tid];
        b.clk[tid] = clk;
        if s.multi && !atomic {
            words(addr, size, |w, mask| unsafe {
                let cell = &mut *((CELL_BASE as *mut [u64; 4]).add((w - BASE) >> 3));
                cell_access(cell, mask, tid, write, "heap memory");
            });
        }
    } else if addr >= s.exe_lo && addr < s.exe_hi {
        if s.multi && !atomic {
            if preempt {
                point(K_PLAIN);
            }
            let m = MODE.replace(0);
            words(addr, size, |w, mask| {
                let cell = st().statics.entry(w).or_insert([0; 4]);
                cell_access(cell, mask, tid, write, "a static variable");
            });
            MODE.set(m);
        }
    } else if addr < 4096 {
        violate("null_access", &format!("{} of {} bytes at address {:#x}", if write { "write" } else { "read" }, size, addr));
    }
}

#[inline(always)]
fn words(addr: usize, size: usize, mut f: impl FnMut(usize, u8)) {
    let mut a = addr;
    let end = addr + size;
    while a < end {
        let w = a & !7;
        let e = (w + 8).min(end);
        let n = e - a;
        let mask = ((((1u32 << n) - 1) << (a - w)) & 0xff) as u8;
        f(w, mask);
        a = e;
    }
}

/// Marks the storage as shared between threads so that its accesses are
/// scheduling points from the start.
pub fn mark_shared(addr: usize) {
    let b = block_of(addr);
    if b != 0 {
        blk(b).touched |= 1 << 31;
    }
}

/// Live blocks, newest first (for leak reports).
pub fn live_blocks() -> Vec<usize> {
    unsafe { (1..NBLK).filter(|&i| blk(i).live == 1).collect() }
}
