//! Scheduler, happens-before clocks, modes and violation reporting.
use crate::raw;
use crate::rng::Rng;
use std::cell::Cell;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::sync::atomic::{AtomicU32, Ordering};

pub const MAXT: usize = 16;
pub type Vc = [u32; MAXT];

// Mode bits of the running thread.
pub const ARENA: u32 = 1; // allocate from the simulated heap
pub const HOOK: u32 = 2; // memory hooks are live
pub const FAULT: u32 = 4; // allocation faults may fire
pub const OP: u32 = 7; // inside a library operation
pub const USER: u32 = 1; // inside user code called by the library
pub const OFF: u32 = 0; // harness

#[thread_local]
pub static MODE: Cell<u32> = Cell::new(0);
#[thread_local]
pub static TID: Cell<i32> = Cell::new(-1);

#[derive(Default, Clone, Copy)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = crate::rng::mix(self.0 ^ *x as u64);
        }
    }
    fn write_usize(&mut self, x: usize) {
        self.0 = crate::rng::mix(self.0 ^ x as u64);
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = crate::rng::mix(self.0 ^ x);
    }
}
pub type Map<K, V> = HashMap<K, V, BuildHasherDefault<IdHasher>>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ts {
    Unused,
    Runnable,
    Futex(usize, u32),       // address, bitset
    FutexTimed(usize, u32, u64),
    Sleep(u64),
    Join(usize),
    JoinAll,
    Stalled,
    Finished,
}

pub struct Th {
    pub state: Ts,
    pub vc: Vc,
    pub fence_rel: Vc,
    pub acq_pending: Vc,
    /// the atomic this thread read last (address, size): precompiled std code
    /// may go on to acquire it where the instrumentation does not see it
    pub watch: (usize, u8),
    pub park: AtomicU32,
    pub steps: u64,
    pub run_len: u64,
    pub prio: i64,
    pub pth: usize,
    pub exiting: bool,
    pub external: bool, // created by library code through pthread_create
    pub detached: bool,
    pub joined: bool,
    pub retval: usize,
    pub futex_timed_out: bool,
    // allocation fault of the current operation
    pub alloc_n: u64,
    pub alloc_fail_at: u64, // 0: none; n: the n-th allocation of the op
    pub alloc_fail_len: u64,
    pub alloc_fired: u64,
    pub max_request: usize,
    /// larger requests of the library fail (0: the size of the machine)
    pub alloc_cap: usize,
    // bookkeeping for reports
    pub op: u32,
    pub op_idx: u32,
    pub op_work: u64,
}

#[derive(Clone, Default)]
pub struct SyncVar {
    pub vc: Vc,
    pub last: u128,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Sched {
    /// 0: follow `list` (default: keep running), 1: random walk, 2: PCT
    pub kind: u8,
    pub seed: u64,
    /// per point kind, mean distance between preemptions (0: never)
    pub p: [u32; NKIND],
    pub depth: u32,
    pub len: u64,
    pub list: Vec<(u8, u32, u8)>,
}

// point kinds
pub const K_ATOMIC: usize = 0;
pub const K_PLAIN: usize = 1;
pub const K_USER: usize = 2;
pub const K_OP: usize = 3;
pub const K_IO: usize = 4;
pub const NKIND: usize = 5;

// fault counters
pub const FAULT_NAMES: [&str; 24] = [
    "preemption", "alloc_fail", "callback_panic", "clone_panic", "callback_stall", "nested_op",
    "thread_death", "short_read", "eintr_read", "eio_read", "eintr_open", "open_error",
    "stat_error", "stat_lies", "file_append", "file_truncate", "file_replace", "file_overwrite",
    "dup_entropy", "torn_write", "lost_block", "bit_flip", "clock_jump", "weird_entropy",
];
pub const F_PREEMPT: usize = 0;
pub const F_ALLOC: usize = 1;
pub const F_CB_PANIC: usize = 2;
pub const F_CLONE_PANIC: usize = 3;
pub const F_STALL: usize = 4;
pub const F_NEST: usize = 5;
pub const F_DEATH: usize = 6;
pub const F_SHORT: usize = 7;
pub const F_EINTR: usize = 8;
pub const F_EIO: usize = 9;
pub const F_EINTR_OPEN: usize = 10;
pub const F_OPEN_ERR: usize = 11;
pub const F_STAT_ERR: usize = 12;
pub const F_STAT_LIE: usize = 13;
pub const F_APPEND: usize = 14;
pub const F_TRUNC: usize = 15;
pub const F_REPLACE: usize = 16;
pub const F_OVERWRITE: usize = 17;
pub const F_DUP_ENTROPY: usize = 18;
pub const F_TORN: usize = 19;
pub const F_LOST: usize = 20;
pub const F_FLIP: usize = 21;
pub const F_CLOCK: usize = 22;
pub const F_WEIRD_ENTROPY: usize = 23;
pub const NFAULT: usize = 24;

pub struct State {
    pub active: bool,
    pub multi: bool,
    pub cur: usize,
    pub n: usize,
    pub th: [Th; MAXT],
    pub sched: Sched,
    pub rng: Rng,
    pub cd: [u64; NKIND],
    pub pct: Vec<u64>,
    pub list: Map<u64, u8>,
    pub points: u64,
    pub hooks: u64,
    pub switches: u64,
    pub point_budget: u64,
    /// `points` when an operation last completed
    pub last_progress: u64,
    pub work_budget: u64,
    pub vtime: u64,
    pub pending_join: usize, // tid+1
    pub sync: Map<usize, SyncVar>,
    pub statics: Map<usize, [u64; 4]>,
    pub futex_vc: Vc,
    pub chan: [Vc; 64],
    pub hash: u64,
    pub sched_hash: u64,
    pub entropy: Rng,
    pub entropy_mode: u32, // 0 random, 1 same bytes for every call, 2 zeros, 3 repeats per thread
    pub entropy_seed: u64,
    pub entropy_calls: u64,
    pub stall_released: u64,
    pub exe_lo: usize,
    pub exe_hi: usize,
    pub trace: bool,
    pub fairness: u64,
    pub real_create: usize,
    pub real_join: usize,
    pub foreign: u64,
}

pub static mut ST: Option<State> = None;

#[inline(always)]
pub fn st() -> &'static mut State {
    unsafe { ST.as_mut().unwrap_unchecked() }
}

#[inline(always)]
pub fn on() -> bool {
    unsafe { ST.is_some() }
}

/// True when the calling thread is a simulated thread of an active run.
#[inline(always)]
pub fn simulated() -> bool {
    on() && TID.get() >= 0 && st().active
}

fn new_th() -> Th {
    Th {
        state: Ts::Unused,
        vc: [0; MAXT],
        fence_rel: [0; MAXT],
        acq_pending: [0; MAXT],
        watch: (0, 0),
        park: AtomicU32::new(0),
        steps: 0,
        run_len: 0,
        prio: 0,
        pth: 0,
        exiting: false,
        external: false,
        detached: false,
        joined: false,
        retval: 0,
        futex_timed_out: false,
        alloc_n: 0,
        alloc_fail_at: 0,
        alloc_fail_len: 0,
        alloc_fired: 0,
        max_request: 0,
        alloc_cap: 0,
        op: 0,
        op_idx: 0,
        op_work: 0,
    }
}

extern "C" {
    static __executable_start: u8;
    static _end: u8;
    fn dlsym(h: *mut u8, name: *const i8) -> *mut u8;
}

/// Called in the forked child before anything else.
pub fn init(sched: Sched, entropy_seed: u64, entropy_mode: u32) {
    let mut rng = Rng::new(sched.seed ^ 0x5eed);
    let mut cd = [u64::MAX; NKIND];
    if sched.kind == 1 {
        for k in 0..NKIND {
            if sched.p[k] > 0 {
                cd[k] = rng.geometric(sched.p[k] as u64);
            }
        }
    }
    let mut pct: Vec<u64> = Vec::new();
    if sched.kind == 2 {
        for _ in 0..sched.depth {
            pct.push(1 + rng.below(sched.len.max(1)));
        }
        pct.sort();
        pct.reverse();
    }
    let mut list: Map<u64, u8> = Map::default();
    for (t, s, to) in &sched.list {
        list.insert(((*t as u64) << 40) | *s as u64, *to);
    }
    unsafe {
        ST = Some(State {
            active: false,
            multi: false,
            cur: 0,
            n: 1,
            th: std::array::from_fn(|_| new_th()),
            sched,
            rng,
            cd,
            pct,
            list,
            points: 0,
            hooks: 0,
            switches: 0,
            point_budget: 60_000_000,
            last_progress: 0,
            work_budget: 400_000_000,
            vtime: 1_000_000_000,
            pending_join: 0,
            sync: Map::default(),
            statics: Map::default(),
            futex_vc: [0; MAXT],
            chan: [[0; MAXT]; 64],
            hash: 0,
            sched_hash: 0,
            entropy: Rng::new(entropy_seed),
            entropy_mode,
            entropy_seed,
            entropy_calls: 0,
            stall_released: 0,
            exe_lo: &__executable_start as *const u8 as usize,
            exe_hi: &_end as *const u8 as usize,
            trace: false,
            fairness: 20_000,
            real_create: dlsym(usize::MAX as *mut u8, b"pthread_create\0".as_ptr() as *const i8) as usize,
            real_join: dlsym(usize::MAX as *mut u8, b"pthread_join\0".as_ptr() as *const i8) as usize,
            foreign: 0,
        });
    }
    let s = st();
    for i in 0..MAXT {
        s.th[i].vc[i] = 1;
        s.th[i].prio = 1000 + (s.rng.below(1000) as i64);
    }
    s.th[0].state = Ts::Runnable;
    TID.set(0);
    s.active = true;
}

// ------------------------------------------------------------ violations

/// Result of one simulated run, in memory shared with the driver.
#[repr(C)]
pub struct Shared {
    pub status: u32, // 0 unfinished, 1 ok, 2 violation, 3 ended in the allocation-error path, 4 harness error
    pub class_len: u32,
    pub class: [u8; 48],
    pub msg_len: u32,
    pub msg: [u8; 6000],
    pub hash: u64,
    pub sched_hash: u64,
    pub state_hash: u64,
    pub points: u64,
    pub hooks: u64,
    pub switches: u64,
    pub vtime: u64,
    pub ops: u64,
    pub faults: [u64; NFAULT],
    pub probes: [u64; 64],
    pub cur_tid: u32,
    pub cur_op: [u32; MAXT],
    pub cur_op_idx: [u32; MAXT],
    pub ndec: u32,
    pub dec_overflow: u32,
    pub dec: [(u8, u8, u32); MAXDEC],
    pub data_len: u32,
    pub data: [u8; 65536],
}
pub const MAXDEC: usize = 60_000;

pub static mut SHARED: *mut Shared = core::ptr::null_mut();

#[inline(always)]
pub fn sh() -> &'static mut Shared {
    unsafe { &mut *SHARED }
}

pub fn flush() {
    let h = sh();
    let s = st();
    h.hash = s.hash;
    h.sched_hash = s.sched_hash;
    h.points = s.points;
    h.hooks = s.hooks;
    h.switches = s.switches;
    h.vtime = s.vtime;
    h.cur_tid = s.cur as u32;
}

pub fn set_text(class: &str, msg: &str) {
    let h = sh();
    let c = class.as_bytes();
    let n = c.len().min(48);
    h.class[..n].copy_from_slice(&c[..n]);
    h.class_len = n as u32;
    let c = msg.as_bytes();
    let n = c.len().min(6000);
    h.msg[..n].copy_from_slice(&c[..n]);
    h.msg_len = n as u32;
}

/// Records a violation and ends the run.
pub fn violate(class: &str, msg: &str) -> ! {
    MODE.set(0);
    flush();
    let t = TID.get();
    let m = if t >= 0 {
        let th = &st().th[t as usize];
        format!("[thread {} op#{} {}] {}", t, th.op_idx, crate::run::op_name(th.op), msg)
    } else {
        msg.to_string()
    };
    set_text(class, &m);
    sh().status = 2;
    raw::exit_group(0)
}

pub fn finish_ok() -> ! {
    MODE.set(0);
    flush();
    sh().status = 1;
    raw::exit_group(0)
}

/// The program ended through the standard allocation-error path.
pub fn finish_alloc_error() -> ! {
    MODE.set(0);
    flush();
    sh().status = 3;
    raw::exit_group(0)
}

pub fn harness_error(msg: &str) -> ! {
    MODE.set(0);
    set_text("harness", msg);
    sh().status = 4;
    raw::exit_group(0)
}

pub fn count_fault(k: usize) {
    sh().faults[k] += 1;
    event(0x100 + k as u64, 0);
}

pub fn probe(k: usize) {
    sh().probes[k] += 1;
}

#[inline(always)]
pub fn event(kind: u64, v: u64) {
    let s = st();
    s.hash = (s.hash ^ kind.wrapping_mul(0x9E3779B97F4A7C15) ^ v ^ ((s.cur as u64) << 56))
        .rotate_left(23)
        .wrapping_mul(0xD6E8FEB86659FD93);
}

// ------------------------------------------------------------ scheduling

fn record(tid: usize, step: u64, to: usize) {
    let h = sh();
    if (h.ndec as usize) < MAXDEC {
        h.dec[h.ndec as usize] = (tid as u8, to as u8, step as u32);
        h.ndec += 1;
    } else {
        h.dec_overflow = 1;
    }
}

fn runnable(s: &State, i: usize) -> bool {
    s.th[i].state == Ts::Runnable
}

/// A scheduling point: the scheduler decides whether another thread runs now.
#[inline(never)]
pub fn point(kind: usize) {
    let s = st();
    if !s.active {
        return;
    }
    let me = TID.get() as usize;
    if s.th[me].exiting {
        return;
    }
    s.points += 1;
    s.vtime += 1000;
    let step = s.th[me].steps + 1;
    s.th[me].steps = step;
    if s.points - s.last_progress > s.point_budget {
        violate("no_progress", "the run exceeded its step budget (livelock or unbounded work)");
    }
    if !s.multi {
        return;
    }
    s.th[me].run_len += 1;
    let mut to = me;
    match s.sched.kind {
        0 => {
            if !s.list.is_empty() {
                if let Some(t) = s.list.get(&(((me as u64) << 40) | step)) {
                    let t = *t as usize;
                    if t < s.n && runnable(s, t) {
                        to = t;
                    }
                }
            }
        }
        1 => {
            if s.sched.p[kind] > 0 {
                if s.cd[kind] == 0 {
                    s.cd[kind] = s.rng.geometric(s.sched.p[kind] as u64);
                    to = pick_random(s, me);
                } else {
                    s.cd[kind] -= 1;
                }
            }
        }
        _ => {
            if let Some(&p) = s.pct.last() {
                if s.points >= p {
                    s.pct.pop();
                    let lowest = s.pct.len() as i64;
                    s.th[me].prio = lowest;
                    to = pick_prio(s).unwrap_or(me);
                }
            }
        }
    }
    if to == me && s.th[me].run_len > s.fairness {
        // fairness: a spinning thread does not starve the others
        s.th[me].run_len = 0;
        s.th[me].prio -= 2000;
        for d in 1..s.n {
            let c = (me + d) % s.n;
            if runnable(s, c) {
                switch(c);
                return;
            }
        }
        return;
    }
    if to != me {
        record(me, step, to);
        sh().faults[F_PREEMPT] += 1;
        switch(to);
    }
}

fn pick_random(s: &mut State, me: usize) -> usize {
    let mut c = [0usize; MAXT];
    let mut n = 0;
    for i in 0..s.n {
        if i != me && runnable(s, i) {
            c[n] = i;
            n += 1;
        }
    }
    if n == 0 {
        me
    } else {
        c[s.rng.usize(n)]
    }
}

fn pick_prio(s: &State) -> Option<usize> {
    let mut best = None;
    for i in 0..s.n {
        if runnable(s, i) && best.map_or(true, |b: usize| s.th[i].prio > s.th[b].prio) {
            best = Some(i);
        }
    }
    best
}

fn hand_to(to: usize) {
    let s = st();
    s.cur = to;
    s.switches += 1;
    s.th[to].run_len = 0;
    s.sched_hash = (s.sched_hash ^ to as u64).rotate_left(9).wrapping_mul(0x9E3779B97F4A7C15);
    event(1, to as u64);
    s.th[to].park.store(1, Ordering::Release);
    raw::futex_wake(&s.th[to].park);
}

fn park(me: usize) {
    let w = &st().th[me].park;
    while w.load(Ordering::Acquire) == 0 {
        raw::futex_wait(w, 0);
    }
    w.store(0, Ordering::Relaxed);
    after_resume();
}

fn switch(to: usize) {
    let me = st().cur;
    let s = st();
    s.sched_hash = (s.sched_hash ^ s.th[me].steps).rotate_left(17).wrapping_mul(0xD6E8FEB86659FD93);
    hand_to(to);
    park(me);
}

fn after_resume() {
    let s = st();
    if s.pending_join != 0 {
        let t = s.pending_join - 1;
        s.pending_join = 0;
        unsafe {
            let f: extern "C" fn(usize, *mut usize) -> i32 = core::mem::transmute(s.real_join);
            f(s.th[t].pth, core::ptr::null_mut());
        }
        s.th[t].state = Ts::Finished;
        wake_joiners(t);
    }
}

fn wake_joiners(t: usize) {
    let s = st();
    let mut all_done = true;
    for i in 1..s.n {
        if s.th[i].state != Ts::Finished {
            all_done = false;
        }
    }
    for i in 0..s.n {
        match s.th[i].state {
            Ts::Join(x) if x == t => s.th[i].state = Ts::Runnable,
            Ts::JoinAll if all_done => s.th[i].state = Ts::Runnable,
            _ => {}
        }
    }
}

/// The running thread cannot continue (its state is set): run another one.
/// With `exit` the thread never comes back.
fn forced_switch(exit: bool) {
    let s = st();
    let me = s.cur;
    s.th[me].steps += 1;
    s.points += 1;
    if s.points - s.last_progress > s.point_budget {
        violate("no_progress", "the run exceeded its step budget (livelock or unbounded work)");
    }
    let step = s.th[me].steps;
    loop {
        let lowest = (0..s.n).find(|&i| runnable(s, i));
        if let Some(lowest) = lowest {
            let to = match s.sched.kind {
                0 => match s.list.get(&(((me as u64) << 40) | step | (1 << 31))) {
                    Some(&t) if (t as usize) < s.n && runnable(s, t as usize) => t as usize,
                    _ => lowest,
                },
                1 => {
                    let mut c = [0usize; MAXT];
                    let mut n = 0;
                    for i in 0..s.n {
                        if runnable(s, i) {
                            c[n] = i;
                            n += 1;
                        }
                    }
                    c[s.rng.usize(n)]
                }
                _ => pick_prio(s).unwrap(),
            };
            if to != lowest {
                record(me, step | (1 << 31), to);
            }
            if to == me {
                return; // woken by the virtual clock
            }
            hand_to(to);
            if exit {
                return;
            }
            park(me);
            return;
        }
        // nobody is runnable
        // an exiting thread that still has to be joined counts as progress
        if exit {
            // joiners become runnable once the exiting thread is gone; let one of them join it
            let s = st();
            let joiner = (0..s.n).find(|&i| match s.th[i].state {
                Ts::Join(x) => x == me,
                Ts::JoinAll => (1..s.n).all(|j| j == me || s.th[j].state == Ts::Finished),
                _ => false,
            });
            if let Some(j) = joiner {
                s.th[j].state = Ts::Runnable;
                continue;
            }
        }
        // 1. timers
        let mut next: Option<(u64, usize)> = None;
        for i in 0..s.n {
            let d = match s.th[i].state {
                Ts::Sleep(d) => Some(d),
                Ts::FutexTimed(_, _, d) => Some(d),
                _ => None,
            };
            if let Some(d) = d {
                if next.map_or(true, |n| d < n.0) {
                    next = Some((d, i));
                }
            }
        }
        if let Some((d, i)) = next {
            s.vtime = s.vtime.max(d);
            s.th[i].futex_timed_out = true;
            s.th[i].state = Ts::Runnable;
            continue;
        }
        let blocked: Vec<usize> = (0..s.n).filter(|&i| matches!(s.th[i].state, Ts::Futex(..))).collect();
        let stalled: Vec<usize> = (0..s.n).filter(|&i| s.th[i].state == Ts::Stalled).collect();
        if !stalled.is_empty() {
            if !blocked.is_empty() {
                let b = blocked[0];
                violate(
                    "blocked_by_stall",
                    &format!(
                        "thread {} is blocked in op#{} {} while thread {} is suspended inside a user callback of op#{} {}",
                        b, s.th[b].op_idx, crate::run::op_name(s.th[b].op),
                        stalled[0], s.th[stalled[0]].op_idx, crate::run::op_name(s.th[stalled[0]].op)
                    ),
                );
            }
            // everybody else is done: let the suspended thread continue
            s.th[stalled[0]].state = Ts::Runnable;
            s.stall_released += 1;
            continue;
        }
        let mut m = String::from("deadlock:");
        for i in 0..s.n {
            m.push_str(&format!(" thread {} {:?} op#{} {};", i, s.th[i].state, s.th[i].op_idx, crate::run::op_name(s.th[i].op)));
        }
        violate("deadlock", &m);
    }
}

/// Blocks the running thread in `state` until something makes it runnable.
pub fn block(state: Ts) {
    let s = st();
    let me = TID.get() as usize;
    if s.th[me].exiting {
        violate("deadlock", "a thread blocked while running its thread-local destructors");
    }
    s.th[me].state = state;
    s.th[me].futex_timed_out = false;
    forced_switch(false);
}

/// Suspends the running thread (inside a user callback) until all others are done.
pub fn stall() {
    let s = st();
    if !s.multi {
        return;
    }
    count_fault(F_STALL);
    block(Ts::Stalled);
}

// ------------------------------------------------------------ threads

struct Start {
    tid: usize,
    f: extern "C" fn(*mut u8) -> *mut u8,
    arg: *mut u8,
}

extern "C" fn trampoline(p: *mut u8) -> *mut u8 {
    let start = unsafe { Box::from_raw(p as *mut Start) };
    let tid = start.tid;
    let (f, arg) = (start.f, start.arg);
    TID.set(tid as i32);
    park(tid);
    drop(start);
    let external = st().th[tid].external;
    MODE.set(if external { OP } else { OFF });
    let r = f(arg);
    MODE.set(OFF);
    // exit: the next thread joins us (our thread-local destructors run until then)
    let s = st();
    s.th[tid].retval = r as usize;
    s.th[tid].exiting = true;
    s.th[tid].state = Ts::Unused;
    s.pending_join = tid + 1;
    // destructors of thread-locals run under hooks
    let keep = OP & !FAULT;
    // hand over; the successor immediately waits for this thread to be gone,
    // so the destructors still run alone
    forced_switch(true);
    MODE.set(keep);
    r
}

/// Creates a simulated thread; it becomes runnable at once.
pub fn spawn_raw(f: extern "C" fn(*mut u8) -> *mut u8, arg: *mut u8, external: bool) -> Option<usize> {
    let s = st();
    let me = s.cur;
    let tid = if s.n < MAXT {
        s.n += 1;
        s.n - 1
    } else {
        // the slot of a thread that ended and was joined
        match (1..MAXT).find(|&i| s.th[i].state == Ts::Finished && s.th[i].joined) {
            Some(i) => {
                let th = &mut s.th[i];
                th.fence_rel = [0; MAXT];
                th.acq_pending = [0; MAXT];
                th.watch = (0, 0);
                th.park.store(0, Ordering::Relaxed);
                th.vc[i] += 1;
                th.exiting = false;
                th.detached = false;
                th.joined = false;
                th.retval = 0;
                i
            }
            None => return None,
        }
    };
    s.multi = true;
    let pvc = s.th[me].vc;
    for i in 0..MAXT {
        let v = &mut s.th[tid].vc[i];
        *v = (*v).max(pvc[i]);
    }
    s.th[me].vc[me] += 1;
    s.th[tid].external = external;
    if external {
        s.th[tid].op = s.th[me].op;
        s.th[tid].op_idx = s.th[me].op_idx;
    }
    let start = Box::into_raw(Box::new(Start { tid, f, arg }));
    let mut h: usize = 0;
    unsafe {
        let create: extern "C" fn(*mut usize, *const u8, extern "C" fn(*mut u8) -> *mut u8, *mut u8) -> i32 =
            core::mem::transmute(s.real_create);
        let rc = create(&mut h, core::ptr::null(), trampoline, start as *mut u8);
        if rc != 0 {
            harness_error("pthread_create failed");
        }
    }
    s.th[tid].pth = h;
    s.th[tid].state = Ts::Runnable;
    event(2, tid as u64);
    Some(tid)
}

struct Clo(Box<dyn FnOnce()>);

extern "C" fn run_clo(p: *mut u8) -> *mut u8 {
    let c = unsafe { Box::from_raw(p as *mut Clo) };
    (c.0)();
    core::ptr::null_mut()
}

/// Spawns a workload thread.
pub fn spawn(f: Box<dyn FnOnce()>) -> usize {
    let p = Box::into_raw(Box::new(Clo(f))) as *mut u8;
    spawn_raw(run_clo, p, false).unwrap_or_else(|| harness_error("too many threads"))
}

pub fn join(t: usize) {
    let s = st();
    let me = s.cur;
    if s.th[t].state != Ts::Finished {
        block(Ts::Join(t));
    }
    let v = st().th[t].vc;
    join_vc(&mut st().th[me].vc, &v);
    st().th[t].joined = true;
}

pub fn join_all() {
    let s = st();
    let me = s.cur;
    loop {
        let done = (1..st().n).all(|i| st().th[i].state == Ts::Finished);
        if done {
            break;
        }
        block(Ts::JoinAll);
    }
    for i in 1..st().n {
        let v = st().th[i].vc;
        join_vc(&mut st().th[me].vc, &v);
    }
    let _ = s;
}

// ------------------------------------------------------------ happens-before

#[inline]
pub fn join_vc(a: &mut Vc, b: &Vc) {
    for i in 0..MAXT {
        if b[i] > a[i] {
            a[i] = b[i];
        }
    }
}

/// Release/acquire edge through a harness channel (a real program would use a
/// queue or a lock there).
pub fn chan_release(c: usize) {
    let s = st();
    let me = s.cur;
    let v = s.th[me].vc;
    join_vc(&mut s.chan[c], &v);
    s.th[me].vc[me] += 1;
}

pub fn chan_acquire(c: usize) {
    let s = st();
    let me = s.cur;
    let v = s.chan[c];
    join_vc(&mut s.th[me].vc, &v);
}

/// A full barrier between everything so far and the running thread.
pub fn join_everything() {
    let s = st();
    let me = s.cur;
    for i in 0..s.n {
        let v = s.th[i].vc;
        join_vc(&mut s.th[me].vc, &v);
    }
}

pub fn entropy_fill(buf: &mut [u8]) {
    let s = st();
    s.entropy_calls += 1;
    match s.entropy_mode {
        1 => {
            let mut r = Rng::new(s.entropy_seed);
            for b in buf.iter_mut() {
                *b = r.u64() as u8;
            }
            count_fault(F_DUP_ENTROPY);
        }
        2 => {
            for b in buf.iter_mut() {
                *b = 0;
            }
            count_fault(F_WEIRD_ENTROPY);
        }
        _ => {
            for b in buf.iter_mut() {
                *b = s.entropy.u64() as u8;
            }
        }
    }
}
