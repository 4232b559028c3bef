//! Search over seeds, minimisation, replay, evidence.
use crate::gen;
use crate::ops;
use crate::spec::*;
use crate::user::*;
use simrt::rng::hash2;
use simrt::rt::{self, Shared, FAULT_NAMES, NFAULT};
use simrt::{mem, raw};
use std::collections::HashSet;
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Out {
    pub status: u32,
    pub class: String,
    pub msg: String,
    pub hash: u64,
    pub sched_hash: u64,
    pub points: u64,
    pub switches: u64,
    pub hooks: u64,
    pub vtime: u64,
    pub ops: u64,
    pub faults: [u64; NFAULT],
    pub probes: [u64; 64],
    pub op: u32,
    pub dec: Vec<(u8, u32, u8)>,
    pub overflow: bool,
}

/// Executes the run in this process; does not return.
fn body(spec: &Spec) -> ! {
    let z = if spec.scen == SC_RNGVAL { Some(crate::rngsc::Zygote::start(spec)) } else { None };
    mem::map();
    unsafe {
        let n: Vec<String> = (0..name_count(spec.scen)).map(|c| name(spec.scen, c as u16)).collect();
        let n: Vec<&'static str> = n.into_iter().map(|s| &*Box::leak(s.into_boxed_str())).collect();
        simrt::run::NAMES = Box::leak(n.into_boxed_slice());
    }
    rt::init(spec.sched.clone(), spec.ent_seed, spec.ent_mode);
    unsafe {
        simrt::mem::REUSE = spec.reuse & 1 != 0;
        simrt::mem::RACE_SOFT = matches!(spec.prop, 1 | 3 | 4 | 10 | 11);
    }
    crate::user::init();
    crate::user::uc().tag = crate::user::new_tag();
    match spec.scen {
        SC_WORLD => match spec.elem {
            0 => crate::world::run::<P>(spec),
            1 => crate::world::run::<B>(spec),
            2 => crate::world::run::<A>(spec),
            3 => crate::world::run::<S>(spec),
            4 => crate::world::run::<Z>(spec),
            _ => crate::world::run::<f32>(spec),
        },
        SC_RNG => crate::rngsc::run(spec),
        SC_RNGVAL => crate::rngsc::run_val(spec, z.unwrap()),
        SC_FILE => crate::iosc::run_file(spec),
        SC_WAV => crate::iosc::run_wav(spec),
        _ => crate::sendsc::run(spec),
    }
    rt::finish_ok()
}

fn name_count(scen: u8) -> usize {
    match scen {
        SC_WORLD | SC_SEND => ops::names().len(),
        SC_RNG | SC_RNGVAL => crate::rngsc::NAMES.len(),
        _ => crate::iosc::NAMES.len(),
    }
}

fn reset(s: &mut Shared) {
    s.status = 0;
    s.class_len = 0;
    s.msg_len = 0;
    s.hash = 0;
    s.sched_hash = 0;
    s.points = 0;
    s.hooks = 0;
    s.switches = 0;
    s.vtime = 0;
    s.ops = 0;
    s.faults = [0; NFAULT];
    s.probes = [0; 64];
    s.cur_tid = 0;
    s.cur_op = [0; rt::MAXT];
    s.cur_op_idx = [0; rt::MAXT];
    s.ndec = 0;
    s.dec_overflow = 0;
    s.data_len = 0;
}

pub fn shared() -> *mut Shared {
    unsafe { raw::mmap(0, std::mem::size_of::<Shared>(), true) as *mut Shared }
}

/// One simulated run, in a process of its own.
pub fn run_one(sh: *mut Shared, spec: &Spec) -> Out {
    unsafe {
        reset(&mut *sh);
        rt::SHARED = sh;
        let pid = raw::fork();
        if pid < 0 {
            panic!("fork failed");
        }
        if pid == 0 {
            raw::die_with_parent();
            raw::rlimit(0, 60); // cpu seconds
            raw::rlimit(4, 0); // core
            raw::rlimit(3, 8 << 20); // stack
            if std::env::var_os("SIM_STDERR").is_none() {
                let fd = raw::sys6(raw::SYS_OPENAT, -100isize as usize, b"/dev/null\0".as_ptr() as usize, 1, 0, 0, 0);
                raw::dup2(fd as i32, 2);
                raw::dup2(fd as i32, 1);
            }
            body(spec);
        }
        let st = raw::waitpid(pid);
        let s = &mut *sh;
        let mut class = String::from_utf8_lossy(&s.class[..s.class_len as usize]).to_string();
        let mut msg = String::from_utf8_lossy(&s.msg[..s.msg_len as usize]).to_string();
        let mut status = s.status;
        let sig = st & 0x7f;
        if status == 0 {
            status = 2;
            let t = s.cur_tid as usize;
            let at = format!("(last known operation {})", if s.cur_op[t] > 0 { name(spec.scen, s.cur_op[t] as u16 - 1) } else { "none".into() });
            if sig == 24 || sig == 9 {
                class = "no_progress".into();
                msg = format!("the run did not end within its CPU budget {}", at);
            } else if sig != 0 {
                class = "crash".into();
                msg = format!("the process died with signal {} {}", sig, at);
            } else {
                class = "crash".into();
                msg = format!("the process exited by itself with status {} {}", st >> 8, at);
            }
        }
        Out {
            status,
            class,
            msg,
            hash: s.hash,
            sched_hash: s.sched_hash,
            points: s.points,
            switches: s.switches,
            hooks: s.hooks,
            vtime: s.vtime,
            ops: s.ops,
            faults: s.faults,
            probes: s.probes,
            op: s.cur_op[s.cur_tid as usize & 15],
            dec: s.dec[..s.ndec as usize].iter().map(|d| (d.0, d.2, d.1)).collect(),
            overflow: s.dec_overflow != 0,
        }
    }
}

const MEM: &[&str] = &[
    "bad_free", "double_free", "race_free", "use_after_free", "out_of_bounds", "null_access", "double_drop", "bad_element",
    "misaligned", "crash", "bad_fd",
];
const HANG: &[&str] = &["deadlock", "no_progress", "blocked_by_stall", "unbounded_memory"];

/// Does a violation of this class break the property?
pub fn belongs(prop: u8, o: &Out) -> bool {
    let c = o.class.as_str();
    let has = |l: &[&str]| l.contains(&c);
    let m = has(MEM);
    let panics = o.faults[rt::F_CB_PANIC] + o.faults[rt::F_CLONE_PANIC] > 0;
    match prop {
        1 => m || has(&["freed_early", "storage_leak", "leak_growth", "element_leak"]),
        2 => has(&["data_race", "race_free", "contents_changed", "freed_early", "use_after_free", "thread_unsafe"]),
        3 => {
            panics
                && (m || has(HANG)
                    || has(&[
                        "contents_changed", "wrong_result", "freed_early", "panic_swallowed", "unexpected_panic", "storage_leak",
                        "element_leak",
                    ]))
        }
        4 => {
            c == "zero_alloc"
                || (o.faults[rt::F_ALLOC] > 0
                    && (m || has(HANG)
                        || has(&["contents_changed", "wrong_result", "freed_early", "unexpected_panic", "storage_leak", "element_leak"])))
        }
        9 => m || has(HANG) || has(&["data_race", "wrong_result", "unexpected_panic", "invalid_accepted", "contents_changed"]),
        10 => has(HANG) || (c == "crash" && o.faults[rt::F_NEST] > 0)
            || (c == "unexpected_panic" && o.faults[rt::F_NEST] + o.faults[rt::F_STALL] + o.faults[rt::F_DEATH] > 0),
        11 => {
            has(&["callback_order", "callback_after_panic", "panic_swallowed"])
                || ((m || has(&["wrong_result", "unexpected_panic"])) && o.op > 0 && ops::group(o.op as u16 - 1) & ops::CBK != 0)
        }
        _ => true,
    }
}

// ------------------------------------------------------------ search

#[repr(C)]
pub struct Stats {
    pub runs: u64,
    pub ok: u64,
    pub oom: u64,
    pub viol: u64,
    pub foreign: u64,
    pub harness: u64,
    pub nondet: u64,
    pub points: u64,
    pub switches: u64,
    pub hooks: u64,
    pub vtime: u64,
    pub ops: u64,
    pub faults: [u64; NFAULT],
    pub probes: [u64; 64],
    pub min_index: u64,
    pub text_len: u64,
    pub text: [u8; 4096],
    pub foreign_len: u64,
    pub foreign_text: [u8; 1024],
    pub opcount: [u64; 256],
    pub nh: u64,
}
const MAXH: usize = 4_000_000;

fn put_text(dst: &mut [u8], len: &mut u64, s: &str) {
    let b = s.as_bytes();
    let n = b.len().min(dst.len());
    dst[..n].copy_from_slice(&b[..n]);
    *len = n as u64;
}

pub struct Batch {
    pub prop: u8,
    pub seed: u64,
    pub from: u64,
    pub to: u64,
    pub stride: u64,
    pub rel: bool,
    pub workers: u64,
    pub secs: f64,
}

pub fn make(prop: u8, seed: u64, i: u64, rel: bool) -> Spec {
    let mut s = gen::spec(prop, hash2(seed.wrapping_mul(0x9E37_79B9).wrapping_add(prop as u64 * 1_000_003), i));
    s.rel = rel;
    s
}

/// Runs the indices `from, from+stride, ..`; the results are written as text.
pub fn batch(b: &Batch, out: &str) {
    unsafe {
        let per = std::mem::size_of::<Stats>();
        let base = raw::mmap(0, per * b.workers as usize, true);
        let hashes = raw::mmap(0, MAXH * 16, true) as *mut [u64; 2];
        let slice = MAXH / b.workers as usize;
        // lowest violating index found so far, shared by the workers
        let low = raw::mmap(0, 4096, true) as *mut u64;
        *low = u64::MAX;
        let t0 = Instant::now();
        let mut pids = Vec::new();
        for w in 0..b.workers {
            let st = base.add(per * w as usize) as *mut Stats;
            (*st).min_index = u64::MAX;
            let pid = raw::fork();
            if pid == 0 {
                raw::die_with_parent();
                worker(b, w, &mut *st, hashes.add(slice * w as usize), slice, low, t0);
                raw::exit_group(0);
            }
            pids.push(pid);
        }
        for p in pids {
            raw::waitpid(p);
        }
        let mut o = String::new();
        let all: Vec<&Stats> = (0..b.workers).map(|w| &*(base.add(per * w as usize) as *const Stats)).collect();
        let sum = |f: fn(&Stats) -> u64| -> u64 { all.iter().map(|s| f(s)).sum() };
        o.push_str(&format!("runs {}\nok {}\noom {}\nviol {}\nforeign {}\nharness {}\nnondet {}\n", sum(|s| s.runs), sum(|s| s.ok),
            sum(|s| s.oom), sum(|s| s.viol), sum(|s| s.foreign), sum(|s| s.harness), sum(|s| s.nondet)));
        o.push_str(&format!("points {}\nswitches {}\nhooks {}\nvtime {}\nops {}\n", sum(|s| s.points), sum(|s| s.switches),
            sum(|s| s.hooks), sum(|s| s.vtime), sum(|s| s.ops)));
        for k in 0..NFAULT {
            o.push_str(&format!("fault {} {}\n", k, all.iter().map(|s| s.faults[k]).sum::<u64>()));
        }
        for k in 0..64 {
            o.push_str(&format!("probe {} {}\n", k, all.iter().map(|s| s.probes[k]).sum::<u64>()));
        }
        for k in 0..256 {
            let n = all.iter().map(|s| s.opcount[k]).sum::<u64>();
            if n > 0 {
                o.push_str(&format!("opcount {} {}\n", k, n));
            }
        }
        let mut hs: HashSet<u64> = HashSet::new();
        let mut ev: HashSet<u64> = HashSet::new();
        for w in 0..b.workers as usize {
            for k in 0..all[w].nh as usize {
                let h = *hashes.add(slice * w + k);
                if h[0] != 0 {
                    hs.insert(h[0]);
                }
                if h[1] != 0 {
                    ev.insert(h[1]);
                }
            }
        }
        o.push_str(&format!("interleavings {}\nhistories {}\n", hs.len(), ev.len()));
        o.push_str(&format!("wall {:.3}\n", t0.elapsed().as_secs_f64()));
        if let Some(s) = all.iter().filter(|s| s.min_index != u64::MAX).min_by_key(|s| s.min_index) {
            o.push_str(&format!("first {} {}\n", s.min_index, String::from_utf8_lossy(&s.text[..s.text_len as usize]).replace('\n', "\\n")));
        }
        for s in all.iter().filter(|s| s.foreign_len > 0).take(3) {
            o.push_str(&format!("other {}\n", String::from_utf8_lossy(&s.foreign_text[..s.foreign_len as usize]).replace('\n', "\\n")));
        }
        std::fs::write(out, o).unwrap();
    }
}

unsafe fn worker(b: &Batch, w: u64, st: &mut Stats, hashes: *mut [u64; 2], cap: usize, low: *mut u64, t0: Instant) {
    let sh = shared();
    let mut k = w;
    loop {
        let i = b.from + k * b.stride;
        if i >= b.to || t0.elapsed().as_secs_f64() > b.secs || std::ptr::read_volatile(low) < i {
            return;
        }
        k += b.workers;
        let spec = make(b.prop, b.seed, i, b.rel);
        let o = run_one(sh, &spec);
        st.runs += 1;
        st.points += o.points;
        st.switches += o.switches;
        st.hooks += o.hooks;
        st.vtime += o.vtime.saturating_sub(1_000_000_000);
        st.ops += o.ops;
        for f in 0..NFAULT {
            st.faults[f] += o.faults[f];
        }
        for f in 0..64 {
            st.probes[f] += o.probes[f];
        }
        for t in &spec.threads {
            for op in t {
                st.opcount[op.code as usize & 255] += 1;
            }
        }
        if (st.nh as usize) < cap {
            let nontrivial = o.ops > 0 && (o.switches > 0 || o.faults.iter().sum::<u64>() > 0);
            *hashes.add(st.nh as usize) = [if o.switches > 0 { o.sched_hash } else { 0 }, if nontrivial { o.hash } else { 0 }];
            st.nh += 1;
        }
        // the same seed has to give the same execution
        if k / b.workers % 97 == 5 && o.status != 4 {
            let p = run_one(sh, &spec);
            if p.hash != o.hash || p.status != o.status || p.sched_hash != o.sched_hash || p.class != o.class {
                st.nondet += 1;
                put_text(&mut st.foreign_text, &mut st.foreign_len, &format!("index {} is not deterministic: {:x} {:x} / {} {}", i, o.hash, p.hash, o.class, p.class));
            }
        }
        match o.status {
            1 => st.ok += 1,
            3 => st.oom += 1,
            4 => {
                st.harness += 1;
                put_text(&mut st.foreign_text, &mut st.foreign_len, &format!("index {} harness error: {}", i, o.msg));
            }
            _ => {
                if belongs(b.prop, &o) {
                    st.viol += 1;
                    if st.min_index == u64::MAX {
                        st.min_index = i;
                        put_text(&mut st.text, &mut st.text_len, &format!("{}: {}", o.class, o.msg));
                    }
                    if i < std::ptr::read_volatile(low) {
                        std::ptr::write_volatile(low, i);
                    }
                } else {
                    st.foreign += 1;
                    put_text(&mut st.foreign_text, &mut st.foreign_len, &format!("index {} {}: {}", i, o.class, o.msg));
                }
            }
        }
    }
}

// ------------------------------------------------------------ minimisation

pub struct Min {
    pub tries: u64,
    pub spec: Spec,
    pub out: Out,
}

pub fn minimise(spec: &Spec, secs: f64, log: bool) -> Option<Min> {
    let sh = shared();
    let t0 = Instant::now();
    let o = run_one(sh, spec);
    if o.status != 2 || !belongs(spec.prop, &o) {
        return None;
    }
    let class = o.class.clone();
    let mut tries = 1u64;
    let mut best = spec.clone();
    let mut bout = o;
    let accept = |s: &Spec, tries: &mut u64| -> Option<Out> {
        *tries += 1;
        let o = run_one(sh, s);
        if o.status == 2 && o.class == class && belongs(s.prop, &o) {
            Some(o)
        } else {
            None
        }
    };
    // an explicit schedule instead of the random one
    let as_list = |s: &Spec, o: &Out| -> Spec {
        let mut n = s.clone();
        n.sched = rt::Sched { kind: 0, list: o.dec.clone(), ..Default::default() };
        n
    };
    let time = |f: f64| t0.elapsed().as_secs_f64() < secs * f;
    // operations: whole threads, halves, single ones
    let mut chunk = spec.threads.iter().map(|t| t.len()).max().unwrap_or(0);
    while chunk >= 1 && time(0.5) {
        let mut changed = false;
        for t in 0..best.threads.len() {
            let mut i = 0;
            while i < best.threads[t].len() && time(0.5) {
                let mut n = best.clone();
                let e = (i + chunk).min(n.threads[t].len());
                n.threads[t].drain(i..e);
                let mut got = accept(&n, &mut tries);
                if got.is_none() && best.sched.kind != 0 {
                    // another schedule may be needed for the shorter program
                    for k in 0..6 {
                        n.sched.seed = hash2(n.sched.seed, k);
                        got = accept(&n, &mut tries);
                        if got.is_some() {
                            break;
                        }
                    }
                }
                if let Some(o) = got {
                    best = n;
                    bout = o;
                    changed = true;
                } else {
                    i += chunk;
                }
            }
        }
        if !changed || chunk > 1 {
            chunk = if chunk == 1 { 0 } else { (chunk + 1) / 2 };
            if chunk == 0 {
                break;
            }
        }
    }
    // faults
    for t in 0..best.threads.len() {
        for i in 0..best.threads[t].len() {
            if best.threads[t][i].fk != FK_NONE && time(0.6) {
                let mut n = best.clone();
                n.threads[t][i].fk = FK_NONE;
                n.threads[t][i].at = 0;
                if let Some(o) = accept(&n, &mut tries) {
                    best = n;
                    bout = o;
                }
            }
        }
    }
    for f in 0..4 {
        let mut n = best.clone();
        match f {
            0 => n.rounds = 1,
            1 => n.nbase = n.nbase.saturating_sub(1),
            2 => n.ent_mode = 0,
            _ => n.size = 0,
        }
        if n != best {
            if let Some(o) = accept(&n, &mut tries) {
                best = n;
                bout = o;
            }
        }
    }
    // schedule: no preemption at all, then fewer and fewer
    if !bout.overflow {
        let mut n = best.clone();
        n.sched = rt::Sched { kind: 0, ..Default::default() };
        if let Some(o) = accept(&n, &mut tries) {
            best = n;
            bout = o;
        } else {
            let n = as_list(&best, &bout);
            if let Some(o) = accept(&n, &mut tries) {
                best = n;
                bout = o;
                let mut chunk = (best.sched.list.len() + 1) / 2;
                while chunk >= 1 && time(1.0) {
                    let mut i = 0;
                    while i < best.sched.list.len() && time(1.0) {
                        let mut n = best.clone();
                        let e = (i + chunk).min(n.sched.list.len());
                        n.sched.list.drain(i..e);
                        if let Some(o) = accept(&n, &mut tries) {
                            best = n;
                            bout = o;
                        } else {
                            i += chunk;
                        }
                    }
                    chunk = if chunk == 1 { 0 } else { (chunk + 1) / 2 };
                }
            }
        }
    }
    // the file replays exactly
    let a = run_one(sh, &best);
    if a.hash != bout.hash || a.class != bout.class {
        if log {
            eprintln!("warning: the minimised run is not deterministic");
        }
    }
    Some(Min { tries, spec: best, out: a })
}

pub fn replay_text(m: &Min, orig: &str) -> String {
    let mut s = String::new();
    s.push_str(&format!("# {}\n# violation {}\n", orig, m.out.class));
    for l in m.out.msg.lines() {
        s.push_str(&format!("#   {}\n", l));
    }
    s.push_str(&format!("# expect class={} hash={:x}\n", m.out.class, m.out.hash));
    s.push_str(&m.spec.text());
    s
}

/// Exit code 1 if the violation is reproduced exactly, 0 if the run is clean,
/// 3 if something else happened.
pub fn replay(file: &str) -> i32 {
    let text = std::fs::read_to_string(file).expect("cannot read the replay file");
    let spec = Spec::parse(&text);
    let mut class = String::new();
    let mut hash = 0;
    for l in text.lines() {
        if let Some(x) = l.strip_prefix("# expect class=") {
            let (a, b) = x.split_once(" hash=").unwrap();
            class = a.to_string();
            hash = u64::from_str_radix(b, 16).unwrap();
        }
    }
    let o = run_one(shared(), &spec);
    match o.status {
        2 => {
            println!("{}: {}", o.class, o.msg);
            println!("VIOLATION property=C{:02} replay={}", spec.prop, file);
            println!("recorded class={} hash={:x}; replayed class={} hash={:x}: {}", class, hash, o.class, o.hash,
                if o.class == class && o.hash == hash { "identical" } else { "DIFFERENT" });
            if o.class == class {
                1
            } else {
                3
            }
        }
        4 => {
            println!("harness error: {}", o.msg);
            3
        }
        _ => {
            println!("no violation (status {})", o.status);
            0
        }
    }
}

pub fn fault_name(k: usize) -> &'static str {
    FAULT_NAMES[k]
}
