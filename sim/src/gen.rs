//! Draws the specification of a run from one seed.
use crate::ops::*;
use crate::spec::*;
use crate::user::*;
use simrt::rng::{hash2, Rng};
use simrt::rt::Sched;

fn code_of(name: &str) -> u16 {
    names().iter().position(|x| *x == name).unwrap() as u16
}

/// Weight of an operation for a property.
fn weight(prop: u8, g: u32, name: &str, float: bool) -> u32 {
    if g & NUM != 0 && !float {
        return 0;
    }
    let mut w: u32 = match prop {
        1 => {
            let mut w = 4;
            if g & VIEW != 0 { w += 8 }
            if g & ARR != 0 { w += 2 }
            if g & CON != 0 { w += 2 }
            w
        }
        2 => {
            let mut w = 4;
            if g & VIEW != 0 { w += 4 }
            if g & (ELW | READ) != 0 { w += 4 }
            if g & ARR != 0 { w += 2 }
            w
        }
        3 => {
            let mut w = 3;
            if g & CBK != 0 { w += 8 }
            if g & (ELW | FOLD | ARR) != 0 { w += 3 }
            if g & BAD != 0 { w = 2 }
            w
        }
        4 => {
            let mut w = 4;
            if g & (CON | ARR | ELW | FOLD) != 0 { w += 3 }
            if g & BAD != 0 { w = 1 }
            w
        }
        10 => {
            let mut w = 3;
            if g & CBK != 0 { w += 6 }
            if g & BAD != 0 { w = 1 }
            w
        }
        11 => {
            let mut w = 1;
            if g & CBK != 0 { w += 24 }
            if g & VIEW != 0 { w += 2 }
            w
        }
        _ => 6,
    };
    if g & SLOW != 0 {
        w = (w / 2).max(1);
    }
    match name {
        "clone" | "clone_many" => w += if prop <= 2 { 12 } else { 2 },
        "drop_one" | "drop_many" => w += if prop <= 2 { 14 } else { 3 },
        "send" | "recv" => w += if prop <= 2 { 12 } else { 3 },
        "verify_regs" => w += match prop {
            1 | 2 => 12,
            3 | 4 => 6,
            _ => 1,
        },
        "subslice" | "subslice_flat" => w += 4,
        "huge_shape" => w = w.min(5),
        _ => {}
    }
    w
}

fn table(prop: u8, float: bool) -> Vec<u32> {
    (0..names().len() as u16).map(|c| weight(prop, group(c), names()[c as usize], float)).collect()
}

fn draw(r: &mut Rng, t: &[u32]) -> u16 {
    let n: u64 = t.iter().map(|x| *x as u64).sum();
    let mut k = r.below(n);
    for (i, w) in t.iter().enumerate() {
        if k < *w as u64 {
            return i as u16;
        }
        k -= *w as u64;
    }
    0
}

/// An operation a callback may call.
pub fn nested_code(r: &mut Rng, float: bool) -> u16 {
    loop {
        let c = draw(r, &table(9, float));
        if group(c) & (PROG | SLOW) == 0 {
            return c;
        }
    }
}

fn at(r: &mut Rng, max: u64) -> u32 {
    // log-uniform
    let bits = r.below(64 - max.leading_zeros() as u64 + 1);
    (1 + r.below(1 << bits)) as u32
}

pub fn sched(r: &mut Rng) -> Sched {
    let mut s = Sched { seed: r.u64(), ..Default::default() };
    match r.below(10) {
        0 => {
            // no preemption
            s.kind = 1;
        }
        1 | 2 => {
            s.kind = 2;
            s.depth = 1 + r.below(5) as u32;
            s.len = [60, 200, 800, 3000][r.usize(4)];
        }
        3 | 4 => {
            s.kind = 1;
            s.p = [2, 8, 3, 3, 2];
        }
        5 | 6 => {
            s.kind = 1;
            s.p = [4, 40, 8, 4, 3];
        }
        7 => {
            // only at atomic operations
            s.kind = 1;
            s.p = [2, 0, 0, 6, 3];
        }
        8 => {
            s.kind = 1;
            s.p = [10, 200, 20, 4, 6];
        }
        _ => {
            // long runs, switches between operations
            s.kind = 1;
            s.p = [30, 1000, 40, 2, 4];
        }
    }
    s
}

fn world(prop: u8, r: &mut Rng, s: &mut Spec) {
    // P B A S Z f32
    let ew: [u64; 6] = match prop {
        1 => [28, 22, 12, 8, 12, 18],
        2 => [28, 12, 6, 12, 4, 38],
        3 => [40, 26, 10, 4, 12, 8],
        4 => [26, 22, 10, 6, 10, 26],
        9 => [24, 8, 6, 8, 4, 50],
        10 => [34, 18, 6, 6, 8, 28],
        _ => [40, 16, 8, 8, 8, 20],
    };
    let n: u64 = ew.iter().sum();
    let mut k = r.below(n);
    for (i, w) in ew.iter().enumerate() {
        if k < *w {
            s.elem = i as u8;
            break;
        }
        k -= w;
    }
    let float = s.elem == 5;
    let (tlo, thi) = match prop {
        1 => (1, 4),
        2 => (2, 5),
        10 => (2, 5),
        _ => (1, 3),
    };
    let crowd = prop == 10 && r.one_in(12);
    let nt = if crowd { r.range(6, 13) } else { r.range(tlo, thi) } as usize;
    s.size = match r.below(100) {
        0..=59 => 0,
        60..=89 => 1,
        90..=97 => 2,
        _ => 3,
    };
    if crowd {
        s.size = s.size.min(1);
    }
    s.nbase = match prop {
        2 => r.range(1, 4) as u8,
        _ => r.range(0, 3) as u8,
    };
    s.rounds = if prop == 1 && r.one_in(5) { 3 } else { 1 };
    let k = if r.one_in(4) { 24 } else { 9 };
    let k = match s.size {
        0 | 1 => k,
        2 => k.min(8),
        _ => 4,
    };
    // half of the runs use only a few kinds of operation, many times ("swarm")
    let narrow = r.one_in(2);
    let k = if narrow && s.size < 2 && r.one_in(2) { 36 } else { k };
    let k = if crowd { 3 } else { k };
    let nops = 2 + r.below(k);
    // now and then one thing, hundreds of times
    let long = narrow && !crowd && s.size == 0 && r.one_in(30);
    let nops = if long { 270 + r.below(330) } else { nops };
    s.oom = if r.one_in(3) { 0 } else { 1 };
    s.ent_mode = if r.one_in(6) { r.below(4) as u32 } else { 0 };
    let mut tab = table(prop, float);
    if narrow && r.one_in(3) {
        // few shapes, tensors dropped soon and their memory used again
        s.reuse = 3;
    }
    if narrow {
        let n = if long || r.one_in(if prop == 2 { 2 } else { 4 }) { 1 + r.usize(2) } else { 1 + r.usize(7) };
        let some: Vec<u16> = (0..n)
            .map(|_| loop {
                // by weight or evenly
                let c = if r.one_in(2) { draw(r, &tab) } else { r.below(tab.len() as u64) as u16 };
                if tab[c as usize] > 0 && group(c) & PROG == 0 {
                    break c;
                }
            })
            .collect();
        for c in 0..tab.len() as u16 {
            let g = group(c);
            tab[c as usize] = if some.contains(&c) {
                if g & BAD != 0 { 10 } else { 30 }
            } else if g & PROG != 0 || ["clone", "subslice", "from_vec"].contains(&names()[c as usize]) {
                (tab[c as usize] / 3).clamp(1, 6)
            } else {
                0
            };
        }
    }
    // per-run fault mix ("swarm")
    let on = !r.one_in(5);
    for _ in 0..nt {
        let mut v = Vec::new();
        for _ in 0..nops {
            let code = draw(r, &tab);
            let p = r.below(100);
            let (fk, len) = if !on {
                (FK_NONE, 0)
            } else {
                match prop {
                    1 => match p {
                        0..=7 => (FK_PANIC, 0),
                        8..=11 => (FK_DROPSTALL, 0),
                        12..=14 => (FK_STALL, 0),
                        15..=17 => (FK_NEST, 0),
                        _ => (FK_NONE, 0),
                    },
                    2 => match p {
                        0..=5 => (FK_PANIC, 0),
                        6..=9 => (FK_STALL, 0),
                        10..=13 => (FK_NEST, 0),
                        14..=16 => (FK_DROPSTALL, 0),
                        _ => (FK_NONE, 0),
                    },
                    3 => match p {
                        0..=49 => (FK_PANIC, 0),
                        50..=53 => (FK_DIE, 0),
                        54..=57 => (FK_NEST, 0),
                        _ => (FK_NONE, 0),
                    },
                    4 => match p {
                        0..=49 => (FK_ALLOC, [1, 1, 1, 2, 1000][r.usize(5)]),
                        50..=54 => (FK_PANIC, 0),
                        _ => (FK_NONE, 0),
                    },
                    9 => match p {
                        0..=14 => (FK_PANIC, 0),
                        15..=34 => (FK_NEST, 0),
                        _ => (FK_NONE, 0),
                    },
                    10 => match if crowd { p / 2 } else { p } {
                        0..=34 => (FK_STALL, 0),
                        35..=39 => (FK_DROPSTALL, 0),
                        40..=51 => (FK_DIE, 0),
                        52..=74 => (FK_NEST, 0),
                        75..=79 => (FK_PANIC, 0),
                        _ => (FK_NONE, 0),
                    },
                    _ => match p {
                        0..=24 => (FK_PANIC, 0),
                        25..=32 => (FK_NEST, 0),
                        33..=37 => (FK_STALL, 0),
                        _ => (FK_NONE, 0),
                    },
                }
            };
            let len = match fk {
                FK_NEST => match r.below(40) {
                    0 => 10 + r.below(30) as u32,
                    1..=3 => 4 + r.below(6) as u32,
                    4..=9 => 2 + r.below(2) as u32,
                    _ => 1,
                },
                _ => len,
            };
            let max = match fk {
                FK_ALLOC => 6,
                FK_DROPSTALL => 8,
                _ => if s.size > 1 && r.one_in(4) { 4000 } else { 24 },
            };
            let a = if fk == FK_NONE { 0 } else { at(r, max) };
            v.push(Op { code, seed: r.u64() >> 16, fk, at: a, len });
        }
        if long && r.one_in(2) {
            // something, something else for a while, and the first again
            let n = ((1 << r.range(3, 9)) + r.usize(3) - 2).min(v.len() - 2);
            let y = v[1].clone();
            for o in &mut v[1..=n] {
                *o = y.clone();
            }
            v[n + 1] = v[0].clone();
            v.truncate(n + 2);
        }
        s.threads.push(v);
    }
    let _ = code_of;
}

pub fn spec(prop: u8, seed: u64) -> Spec {
    let mut r = Rng::new(hash2(seed, prop as u64));
    let mut s = Spec { prop, seed: r.u64() >> 16, ent_seed: r.u64() >> 16, rounds: 1, ..Default::default() };
    s.sched = sched(&mut r);
    s.reuse = r.one_in(4) as u8;
    match prop {
        5 => {
            s.scen = SC_FILE;
            crate::iosc::gen_file(&mut r, &mut s);
        }
        6 => {
            s.scen = SC_WAV;
            crate::iosc::gen_wav(&mut r, &mut s);
        }
        7 => {
            s.scen = SC_RNG;
            crate::rngsc::gen(&mut r, &mut s);
        }
        8 => {
            s.scen = SC_RNGVAL;
            crate::rngsc::gen_val(&mut r, &mut s);
        }
        2 if r.one_in(40) => {
            s.scen = SC_SEND;
            s.threads = (0..2 + r.usize(2)).map(|_| Vec::new()).collect();
        }
        _ => world(prop, &mut r, &mut s),
    }
    s
}
