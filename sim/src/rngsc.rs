//! Random-number scenarios: the process-wide seed under concurrency (C07) and
//! the independence of streams (C08).
use crate::spec::*;
use crate::user::*;
use crate::world::*;
use essay_tensor::init::{random_normal, random_uniform, Normal, Uniform};
use essay_tensor::random::{random_seed, Rand32, Rand64};
use essay_tensor::tensor::Tensor;
use simrt::raw;
use simrt::rng::Rng;
use simrt::rt::{self, MODE};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const NAMES: [&str; 16] = [
    "seed", "raw64", "raw32", "normal", "uniform", "seeded_normal", "seeded_uniform", "rand32_seq", "rand64_seq",
    "rand_str", "failed_init", "nested_init", "bad_shape", "seeded_opts", "seeded_failed", "pause",
];
pub const SEED: u16 = 0;
const RAW64: u16 = 1;
const PAUSE: u16 = 15;
/// Operations that draw from the calling thread's stream.
fn draws(code: u16) -> bool {
    matches!(code, 1 | 2 | 3 | 4 | 10 | 11 | 12)
}

// ------------------------------------------------------------ generator

pub fn gen(r: &mut Rng, s: &mut Spec) {
    let nt = r.range(2, 5) as usize;
    s.rounds = if r.one_in(3) { 2 + (nt <= 3 && r.one_in(2)) as u8 } else { 1 };
    if r.one_in(60) {
        // hundreds of streams
        s.rounds = 20 + r.below(60) as u8;
    }
    s.ent_mode = if r.one_in(2) { 1 + r.below(3) as u32 } else { 0 };
    let seeds: Vec<u64> = (0..3).map(|_| if r.one_in(4) { 0 } else { r.u64() >> r.below(63) }).collect();
    let never = r.one_in(4);
    for _ in 0..nt {
        let mut v = Vec::new();
        for _ in 0..1 + r.below(4) {
            let k = r.below(10);
            let code = if k < 3 && !never { SEED } else if k == 9 { PAUSE } else { 1 + r.below(4) as u16 };
            // operations without content use the seed field as their argument
            let seed = if code == SEED { seeds[r.usize(3)] } else { r.u64() >> 40 };
            v.push(Op { code, seed, fk: FK_NONE, at: 0, len: 0 });
        }
        s.threads.push(v);
    }
}

pub fn gen_val(r: &mut Rng, s: &mut Spec) {
    let nt = r.range(1, 4) as usize;
    s.rounds = 1;
    s.ent_mode = if r.one_in(4) { 1 + r.below(3) as u32 } else { 0 };
    let seeds: Vec<u64> = (0..3).map(|_| 1 + (r.u64() >> r.below(60))).collect();
    // few explicit seeds, used by several threads
    let mut ex: Vec<u64> = (0..3).map(|_| if r.one_in(8) { [0, 1, u64::MAX, 42][r.usize(4)] } else { r.u64() >> r.below(62) }).collect();
    if r.one_in(4) {
        // seeds that share most of their bits
        ex[1] = ex[0] ^ 1 << r.below(64);
    }
    if r.one_in(6) {
        ex[2] = seeds[0];
    }
    let long = r.one_in(20);
    for _ in 0..nt {
        let mut v = Vec::new();
        for _ in 0..if long { 30 + r.below(100) } else { 2 + r.below(8) } {
            let mut code = r.below(NAMES.len() as u64) as u16;
            if code == SEED && r.one_in(2) {
                code = 5;
            }
            let seed = if code == SEED {
                seeds[r.usize(3)]
            } else if draws(code) || code == PAUSE {
                r.u64() >> 30
            } else {
                ex[r.usize(3)]
            };
            let fk = if matches!(code, 10 | 14) { FK_PANIC } else { FK_NONE };
            v.push(Op { code, seed, fk, at: if fk == FK_NONE { 0 } else { 1 + r.below(4) as u32 }, len: r.below(1 << 16) as u32 });
        }
        s.threads.push(v);
    }
}

// ------------------------------------------------------------ reference model

/// The documented 64-bit generator (an LCG with a permuted output).
struct R64(u128);
impl R64 {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_mul(0xACAEAEFB4BF4A6A78B6E278B66409E7D).wrapping_add(0x351402A3544A25016AEE39FBBADBB38D);
        let mut r = (self.0 >> 32) as u64;
        r ^= r >> 32;
        r.wrapping_mul(0xA18E4C689403AE2D)
    }
}
fn step64(s: u64) -> u64 {
    R64(s as u128).next()
}

#[derive(Clone, Debug)]
enum What {
    Seed(u64),
    /// first draw and the raw draws that follow it
    First(Vec<u64>),
}

#[derive(Clone, Debug)]
struct Ev {
    tid: usize,
    inv: u64,
    res: u64,
    what: What,
}

static mut CLOCK: u64 = 0;
fn tick() -> u64 {
    unsafe {
        CLOCK += 1;
        CLOCK
    }
}

/// Is there an order of the events, compatible with real time, that the
/// sequential specification explains?  `next`: the seed of the next stream.
fn explain(h: &[Ev], done: &mut Vec<bool>, next: Option<u64>, left: usize, memo: &mut std::collections::HashSet<(u64, Option<u64>)>) -> bool {
    if left == 0 {
        return true;
    }
    // events are sorted by invocation: all before `lo` are done, few after it are
    let lo = done.iter().position(|d| !*d).unwrap();
    let mut mask = 0u64;
    for (k, d) in done[lo..].iter().enumerate() {
        if *d {
            if k > 47 {
                rt::harness_error("history too concurrent");
            }
            mask |= 1 << k;
        }
    }
    if !memo.insert(((lo as u64) << 48 | mask, next)) {
        return false;
    }
    let mut first_res = u64::MAX;
    for i in lo..h.len() {
        if h[i].inv > first_res {
            break;
        }
        if !done[i] {
            first_res = first_res.min(h[i].res);
        }
    }
    for i in lo..h.len() {
        if h[i].inv > first_res {
            break;
        }
        if done[i] {
            continue;
        }
        let n2 = match &h[i].what {
            What::Seed(0) => None,
            What::Seed(s) => Some(step64(*s)),
            What::First(d) => {
                // before a seed was set any stream will do
                if let Some(n) = next {
                    let mut g = R64(n as u128);
                    if d.iter().any(|x| *x != g.next()) {
                        continue;
                    }
                    Some(d[0])
                } else {
                    None
                }
            }
        };
        done[i] = true;
        if explain(h, done, n2, left - 1, memo) {
            return true;
        }
        done[i] = false;
    }
    false
}

pub fn run(spec: &Spec) {
    let hist: Vec<Ev> = Vec::new();
    let mut hist = Box::new(hist);
    let hp = &mut *hist as *mut Vec<Ev>;
    for round in 0..spec.rounds.max(1) {
        let mut tids = Vec::new();
        for ops in spec.threads.iter() {
            let ops: *const Vec<Op> = ops;
            tids.push(rt::spawn(Box::new(move || {
                let tid = rt::TID.get() as usize;
                let mut draws: Vec<u64> = Vec::new();
                let mut span = (0, 0);
                for (i, op) in unsafe { &*ops }.iter().enumerate() {
                    enter(op, i);
                    rt::point(rt::K_OP);
                    match op.code {
                        SEED => {
                            let inv = tick();
                            let s = op.seed.wrapping_add(round as u64 * (op.seed != 0) as u64);
                            if call(Want::Ok, move || random_seed(s)).is_some() {
                                let res = tick();
                                unsafe { &mut *hp }.push(Ev { tid, inv, res, what: What::Seed(s) });
                            }
                        }
                        PAUSE => rt::point(rt::K_OP),
                        k => {
                            let inv = tick();
                            let k = if draws.is_empty() { k.min(2) } else { k };
                            let d: Option<Result<u64, Vec<f32>>> = call(Want::Ok, || match k {
                                1 => Ok(Rand64::new().0 as u64),
                                2 => Ok(Rand32::new().0),
                                3 => {
                                    let t = random_normal([3], None);
                                    Err(t.as_slice().to_vec())
                                }
                                _ => {
                                    let t = random_uniform([3], None);
                                    Err(t.as_slice().to_vec())
                                }
                            });
                            let res = tick();
                            match d {
                                Some(Ok(d)) => {
                                    if draws.is_empty() {
                                        span = (inv, res);
                                    }
                                    draws.push(d);
                                }
                                _ => break, // later draws of this thread are not recorded
                            }
                        }
                    }
                    rt::event(51, draws.last().copied().unwrap_or(0));
                }
                if !draws.is_empty() {
                    unsafe { &mut *hp }.push(Ev { tid, inv: span.0, res: span.1, what: What::First(draws) });
                }
            })));
        }
        for t in tids {
            rt::join(t);
        }
    }
    hist.sort_by_key(|e| e.inv);
    let nf = hist.iter().filter(|e| matches!(e.what, What::First(_))).count();
    if nf > 1 {
        rt::probe(2);
    }
    let overlap = hist.iter().enumerate().any(|(i, a)| hist[i + 1..].iter().any(|b| b.inv < a.res && matches!(a.what, What::First(_))));
    if overlap {
        rt::probe(3);
    }
    let mut done = vec![false; hist.len()];
    if !explain(&hist, &mut done, None, hist.len(), &mut Default::default()) {
        let mut m = String::from("no sequential order explains this history (time, thread, call):");
        for e in hist.iter().take(60) {
            m.push_str(&match &e.what {
                What::Seed(s) => format!("\n  [{}..{}] thread {} random_seed({})", e.inv, e.res, e.tid, s),
                What::First(d) => format!("\n  [{}..{}] thread {} first draw {:?}", e.inv, e.res, e.tid, d),
            });
        }
        rt::violate("rng_history", &m);
    }
    // no stream twice between two settings of the seed: two streams with the
    // same first draw need a setting that may have come between them
    let seeds: Vec<(u64, u64)> = hist.iter().filter(|e| matches!(e.what, What::Seed(_))).map(|e| (e.inv, e.res)).collect();
    let firsts: Vec<(u64, u64, u64)> = hist
        .iter()
        .filter_map(|e| match &e.what {
            What::First(d) => Some((d[0], e.inv, e.res)),
            _ => None,
        })
        .collect();
    for (i, a) in firsts.iter().enumerate() {
        for b in &firsts[i + 1..] {
            let between = |x: &(u64, u64, u64), y: &(u64, u64, u64)| seeds.iter().any(|s| s.1 > x.1 && s.0 < y.2);
            if a.0 == b.0 && !between(a, b) && !between(b, a) {
                rt::violate("rng_shared_stream", "two threads got the same stream without a re-seeding in between");
            }
        }
    }
}

// ------------------------------------------------------------ C08

/// Executes one call; the result depends on the operation and, for those that
/// draw, on the calling thread's stream.
fn exec(op: &Op) -> Vec<u64> {
    let mut r = Rng::new(op.seed ^ 0x55 ^ (op.len as u64) << 32);
    let shape: Vec<usize> = match r.below(12) {
        0 => vec![1 + r.usize(20), 1 + r.usize(40)],
        1 => vec![],
        2 => vec![1 + r.usize(9)],
        3 => vec![1 + r.usize(3), 1 + r.usize(3), 1 + r.usize(3)],
        4 => vec![0],
        _ => vec![1 + r.usize(3), 1 + r.usize(4)],
    };
    let shape = shape.as_slice();
    let variant = r.below(10);
    let reps = match r.below(60) {
        0 => 300 + r.usize(2000),
        1..=6 => 3 + r.usize(60),
        _ => 3,
    };
    // ordinary, empty, reversed and extreme ranges
    const P: [f32; 10] = [0., 1., -1., 2., 0.5, 3., -0., 1e30, 1e-30, -7.25];
    let pa = P[r.usize(10)];
    let pb = if r.one_in(3) { pa } else { P[r.usize(10)] };
    let arg = op.seed;
    let at = op.at as usize;
    let v: Result<Vec<u64>, _> = catch_unwind(AssertUnwindSafe(|| {
        let bits = |t: Tensor<f32>| -> Vec<u64> { t.as_slice().iter().map(|x| x.to_bits() as u64).collect() };
        match op.code {
            SEED => {
                random_seed(arg);
                vec![]
            }
            1 => vec![Rand64::new().0 as u64],
            2 => vec![Rand32::new().0],
            3 => bits(match variant {
                0 => random_normal(shape, Normal::mean(pa)),
                1 => random_normal(shape, Normal::std(pb)),
                2 => random_normal(shape, (pa, pb)),
                3 => Tensor::random_normal(shape, Normal::default()),
                4 => random_normal(shape, Normal::std(pb).with_mean(pa)),
                5 => random_normal(shape, Normal::mean(pa).with_std(pb)),
                _ => random_normal(shape, None),
            }),
            4 => bits(match variant {
                0 => random_uniform(shape, Uniform::min(pa)),
                1 => random_uniform(shape, Uniform::max(pb)),
                2 => Tensor::random_uniform(shape, Uniform::default()),
                3 => random_uniform(shape, None),
                4 => random_uniform(shape, Uniform::max(pb).with_min(pa)),
                5 => random_uniform(shape, (0.5, 2.0)),
                _ => random_uniform(shape, (pa, pb)),
            }),
            5 => bits(random_normal(shape, Some(arg))),
            6 => bits(random_uniform(shape, Some(arg))),
            7 => {
                let mut g = Rand32(arg);
                let mut v = Vec::new();
                for _ in 0..reps {
                    v.push(g.next() as u64);
                    v.push(g.next_uniform().to_bits() as u64);
                    v.push(g.next_normal().to_bits() as u64);
                }
                v
            }
            8 => {
                let mut g = Rand64(arg as u128 * 3);
                let mut v = Vec::new();
                for _ in 0..reps {
                    v.push(g.next());
                    v.push(g.next_uniform().to_bits());
                    v.push(g.next_normal().to_bits());
                }
                v
            }
            9 => {
                let s = format!("s{}", arg % 1000);
                let (mut a, mut b) = (Rand32::from(s.as_str()), Rand64::from(s.as_str()));
                vec![a.next() as u64, b.next(), a.next() as u64, b.next()]
            }
            10 => {
                let mut n = 0;
                let t = Tensor::<f32>::init([8], || {
                    n += 1;
                    if n == at {
                        std::panic::panic_any(Injected);
                    }
                    Rand32::new().0 as f32
                });
                bits(t)
            }
            11 => {
                let t = Tensor::<f32>::init([3], || {
                    let t = random_normal([2], Some(7));
                    let u = random_uniform([2], None);
                    t.as_slice()[0] + u.as_slice()[1]
                });
                bits(t)
            }
            12 => bits(random_uniform([usize::MAX / 2, 5], None)),
            13 => bits(match variant {
                0 => random_normal(shape, Normal::mean(pa).with_std(pb).with_seed(arg)),
                1 => random_uniform(shape, Uniform::min(pa).with_max(pb).with_seed(arg)),
                2 => random_normal(shape, Normal::seed(arg).with_mean(pa)),
                3 => random_normal(shape, Normal::seed(arg).with_std(pb)),
                4 => random_uniform(shape, Uniform::seed(arg).with_min(pa)),
                5 => random_uniform(shape, Uniform::seed(arg).with_max(pb)),
                6 => random_normal(shape, Normal::std(pb).with_seed(arg)),
                7 => random_uniform(shape, Uniform::max(pb).with_seed(arg)),
                8 => Tensor::random_normal(shape, Normal::from((pa, pb)).with_seed(arg).with_mean(0.5)),
                _ => Tensor::random_uniform(shape, Uniform::from((pa, pb)).with_seed(arg)),
            }),
            14 => {
                let mut g = Rand32(arg);
                let mut n = 0;
                let t = Tensor::<f32>::init([8], || {
                    n += 1;
                    if n == at {
                        std::panic::panic_any(Injected);
                    }
                    g.next_normal()
                });
                bits(t)
            }
            _ => vec![],
        }
    }));
    match v {
        Ok(v) => v,
        Err(_) => vec![0xdead_0000_0000_0001],
    }
}

const RES: usize = 1 << 16;

/// A process that has never used the library; forks one child per request.
pub struct Zygote {
    req: i32,
    ans: i32,
    buf: *mut u64,
}

impl Zygote {
    /// Has to be called before the run starts.
    pub fn start(spec: &Spec) -> Zygote {
        unsafe {
            let buf = raw::mmap(0, RES * 8, true) as *mut u64;
            let mut a = [0i32; 2];
            let mut b = [0i32; 2];
            if raw::pipe(&mut a) < 0 || raw::pipe(&mut b) < 0 {
                rt::harness_error("pipe");
            }
            let pid = raw::fork();
            if pid < 0 {
                rt::harness_error("fork of the reference process failed");
            }
            if pid == 0 {
                raw::close(a[1]);
                raw::close(b[0]);
                std::panic::set_hook(Box::new(|_| {}));
                let mut q = [0u64; 3];
                loop {
                    let n = raw::read(a[0], q.as_mut_ptr() as *mut u8, 24);
                    if n != 24 {
                        raw::exit_group(0);
                    }
                    let c = raw::fork();
                    if c == 0 {
                        serve(spec, q, buf);
                        raw::exit_group(0);
                    }
                    raw::waitpid(c);
                    raw::write(b[1], q.as_ptr() as *const u8, 1);
                }
            }
            raw::close(a[0]);
            raw::close(b[1]);
            Zygote { req: a[1], ans: b[0], buf }
        }
    }
    fn ask(&self, q: [u64; 3]) -> Vec<u64> {
        unsafe {
            *self.buf = u64::MAX;
            raw::write(self.req, q.as_ptr() as *const u8, 24);
            let mut x = 0u8;
            if raw::read(self.ans, &mut x, 1) != 1 || *self.buf == u64::MAX {
                rt::harness_error("the reference process gave no answer");
            }
            let n = *self.buf as usize;
            (0..n).map(|i| *self.buf.add(1 + i)).collect()
        }
    }
    /// The result of one call in a fresh process.
    fn one(&self, t: usize, i: usize) -> Vec<u64> {
        self.ask([0, t as u64, i as u64])
    }
    /// All drawing calls of a thread, in a fresh process whose next stream is
    /// the one that follows `prev`.
    fn stream(&self, t: usize, prev: u64) -> Vec<u64> {
        self.ask([1, t as u64, prev])
    }
}

fn serve(spec: &Spec, q: [u64; 3], buf: *mut u64) {
    let ops = &spec.threads[q[1] as usize];
    let mut out: Vec<u64> = Vec::new();
    if q[0] == 0 {
        out = exec(&ops[q[2] as usize]);
    } else {
        random_seed(q[2]);
        out.push(Rand64::new().0 as u64);
        for op in ops.iter().filter(|o| draws(o.code)) {
            let v = exec(op);
            out.push(v.len() as u64);
            out.extend(v);
        }
    }
    if out.len() + 1 > RES {
        return;
    }
    unsafe {
        for (i, x) in out.iter().enumerate() {
            *buf.add(1 + i) = *x;
        }
        *buf = out.len() as u64;
    }
}

pub fn run_val(spec: &Spec, z: Zygote) {
    let nt = spec.threads.len();
    // results of every call
    let mut res: Box<Vec<Vec<Vec<u64>>>> = Box::new(vec![Vec::new(); nt]);
    let mut first: Box<Vec<Option<u64>>> = Box::new(vec![None; nt]);
    let rp = &mut *res as *mut Vec<Vec<Vec<u64>>>;
    let fp = &mut *first as *mut Vec<Option<u64>>;
    let s0 = spec.seed | 1;
    call(Want::Ok, || random_seed(s0));
    let mut tids = Vec::new();
    for (ti, ops) in spec.threads.iter().enumerate() {
        let ops: *const Vec<Op> = ops;
        tids.push(rt::spawn(Box::new(move || {
            for (i, op) in unsafe { &*ops }.iter().enumerate() {
                enter(op, i);
                uc().plan = Plan::default();
                rt::point(rt::K_OP);
                if op.code == PAUSE {
                    (unsafe { &mut *rp })[ti].push(vec![]);
                    continue;
                }
                if draws(op.code) && unsafe { &*fp }[ti].is_none() {
                    MODE.set(rt::OP);
                    let d = Rand64::new().0 as u64;
                    MODE.set(rt::OFF);
                    (unsafe { &mut *fp })[ti] = Some(d);
                }
                MODE.set(rt::OP);
                let v = exec(op);
                MODE.set(rt::OFF);
                if v == [0xdead_0000_0000_0001] {
                    rt::count_fault(rt::F_CB_PANIC);
                }
                let v: Vec<u64> = v.iter().copied().collect();
                rt::event(52, v.last().copied().unwrap_or(0));
                (unsafe { &mut *rp })[ti].push(v);
            }
        })));
    }
    for t in tids {
        rt::join(t);
    }
    // streams that the seeds of this run can start
    let mut chain: Vec<(u64, u64)> = Vec::new(); // (first draw, previous seed)
    let mut seeds = vec![s0];
    for t in &spec.threads {
        for o in t.iter().filter(|o| o.code == SEED) {
            seeds.push(o.seed);
        }
    }
    for s in seeds {
        let mut p = s;
        for _ in 0..nt + 1 {
            let st = step64(p);
            chain.push((step64(st), p));
            p = st;
        }
    }
    for (ti, ops) in spec.threads.iter().enumerate() {
        for (i, op) in ops.iter().enumerate() {
            if !draws(op.code) && op.code != SEED && op.code != PAUSE {
                let want = z.one(ti, i);
                if res[ti][i] != want {
                    rt::violate("rng_seeded_value", &format!(
                        "call {} of thread {} ({}) with an explicit seed has other values than in a fresh process: {:x?} instead of {:x?}",
                        i, ti, NAMES[op.code as usize], res[ti][i], want));
                }
                rt::probe(4);
            }
        }
        if let Some(d) = first[ti] {
            let prev = match chain.iter().find(|x| x.0 == d) {
                Some(x) => x.1,
                None => {
                    rt::probe(5);
                    continue;
                }
            };
            let want = z.stream(ti, prev);
            let mut got = vec![d];
            for (i, op) in ops.iter().enumerate() {
                if draws(op.code) {
                    got.push(res[ti][i].len() as u64);
                    got.extend(res[ti][i].iter().copied());
                }
            }
            if got != want {
                rt::violate("rng_stream_disturbed", &format!(
                    "the draws of thread {} are not those of its stream in a fresh process: {:x?} instead of {:x?}", ti, got, want));
            }
            rt::probe(6);
        }
    }
    let _ = RAW64;
}
