//! File scenarios: read_file against a simulated disk (C05) and decode_wav on
//! what a crash or a failing disk left of a file (C06).
use crate::opsf::wav_bytes;
use crate::spec::*;
use crate::user::*;
use crate::world::*;
use essay_tensor::io;
use essay_tensor::tensor::Tensor;
use simrt::raw::{EACCES, EINTR, EIO, EMFILE};
use simrt::rng::{hash2, Rng};
use simrt::rt::{self, TID};
use simrt::vfs::{vfs, ReadFault};

pub const NAMES: [&str; 17] = [
    "read", "append", "truncate", "overwrite", "replace", "rf_short", "rf_eintr", "rf_eio", "rf_none", "open_eintr",
    "open_err", "stat_err", "stat_lie", "chunk", "read_missing", "read_dir", "decode_wav",
];
const READ: u16 = 0;
const DECODE: u16 = 16;
const NF: usize = 2;

fn size_of_file(r: &mut Rng) -> usize {
    if r.one_in(40) {
        let k = 16 + r.below(6);
        return (1 << k) - 2 + r.usize(5) + if r.one_in(2) { r.usize(1 << k) } else { 0 };
    }
    match r.below(9) {
        0 => 0,
        1 => 1 + r.usize(31),
        2 => 31 + r.usize(3),
        3 | 4 => 33 + r.usize(300),
        5 => 4095 + r.usize(3),
        6 => 8190 + r.usize(5),
        7 => 1000 + r.usize(9000),
        _ => 10_000 + r.usize(60_000),
    }
}

pub fn gen_file(r: &mut Rng, s: &mut Spec) {
    let op = |code: u16, r: &mut Rng| Op { code, seed: r.u64() >> 20, fk: FK_NONE, at: 0, len: 0 };
    s.oom = 1;
    let mut setup = Vec::new();
    // the disk: a mix of fault kinds per run
    if !r.one_in(5) {
        let w: Vec<u64> = (0..4).map(|_| r.below(4)).collect(); // short eintr eio none
        let t: u64 = w.iter().sum();
        if t > 0 {
            for _ in 0..1 + r.below(30) {
                let mut k = r.below(t);
                let mut c = 5u16;
                for x in &w {
                    if k < *x {
                        break;
                    }
                    k -= x;
                    c += 1;
                }
                // hard errors end a call: keep them rare
                if c == 7 && !r.one_in(6) {
                    c = 8;
                }
                setup.push(op(c, r));
            }
        }
    }
    if r.one_in(4) {
        for _ in 0..1 + r.below(3) {
            setup.push(op(9, r));
        }
        if r.one_in(3) {
            setup.push(op(10, r));
        }
    }
    if r.one_in(10) {
        setup.push(op(11, r));
    }
    if r.one_in(3) {
        setup.push(op(12, r));
    }
    if r.one_in(2) {
        setup.push(op(13, r));
    }
    s.threads.push(setup);
    for _ in 0..1 + r.usize(2) {
        let mut v = Vec::new();
        for _ in 0..1 + r.below(3) {
            let c = match r.below(20) {
                0 => 14,
                1 => 15,
                _ => READ,
            };
            let mut o = op(c, r);
            if r.one_in(12) {
                o.fk = FK_ALLOC;
                o.at = 1 + r.below(4) as u32;
                o.len = 1;
            }
            v.push(o);
        }
        s.threads.push(v);
    }
    for _ in 0..r.usize(3) {
        let mut v = Vec::new();
        for _ in 0..1 + r.below(5) {
            let c = 1 + r.below(4) as u16;
            v.push(op(c, r));
        }
        s.threads.push(v);
    }
}

struct Disk {
    clock: u64,
    /// per inode: (time, contents)
    hist: Vec<Vec<(u64, Vec<u8>)>>,
    /// per file: (time, inode)
    names: Vec<Vec<(u64, usize)>>,
}

fn path(f: usize) -> String {
    match f {
        0 => "/simfs/f0".to_string(),
        // names are taken as they are
        _ => "/simfs/Sub dir/\u{fc}ber F1.Wav ".to_string(),
    }
}

fn bytes(seed: u64, n: usize) -> Vec<u8> {
    (0..n).map(|i| (hash2(seed, i as u64 / 8) >> (i % 8 * 8)) as u8).collect()
}

impl Disk {
    fn tick(&mut self) -> u64 {
        self.clock += 1;
        self.clock
    }
    fn put(&mut self, f: usize, data: Vec<u8>) {
        let t = self.tick();
        let i = vfs().put(&path(f), data.clone());
        while self.hist.len() <= i {
            self.hist.push(Vec::new());
        }
        self.hist[i].push((t, data));
        self.names[f].push((t, i));
    }
    fn mutate(&mut self, op: &Op) {
        let mut r = Rng::new(op.seed);
        let f = r.usize(NF);
        let i = self.names[f].last().unwrap().1;
        let n = vfs().inodes[i].data.len();
        match op.code {
            1 => {
                rt::count_fault(rt::F_APPEND);
                let k = 1 + r.usize(n.max(40));
                vfs().inodes[i].data.extend(bytes(op.seed, k));
            }
            2 => {
                rt::count_fault(rt::F_TRUNC);
                let k = if n == 0 { 0 } else if r.one_in(4) { 0 } else { r.usize(n) };
                vfs().inodes[i].data.truncate(k);
            }
            3 => {
                rt::count_fault(rt::F_OVERWRITE);
                let new = bytes(op.seed, n);
                let a = r.usize(n + 1);
                let b = a + r.usize(n - a + 1);
                vfs().inodes[i].data[a..b].copy_from_slice(&new[a..b]);
            }
            _ => {
                rt::count_fault(rt::F_REPLACE);
                let k = size_of_file(&mut r);
                self.put(f, bytes(op.seed, k));
                return;
            }
        }
        let t = self.tick();
        let d = vfs().inodes[i].data.clone();
        self.hist[i].push((t, d));
    }

    /// Is `got` a result that the reading rules allow for the call in [t0, t1]?
    fn allowed(&self, f: usize, got: &[u8], t0: u64, t1: u64) -> Result<(), String> {
        let mut why = String::new();
        let nm = &self.names[f];
        for (k, (t, i)) in nm.iter().enumerate() {
            let end = nm.get(k + 1).map(|x| x.0).unwrap_or(u64::MAX);
            if *t > t1 || end < t0 {
                continue;
            }
            // versions of this inode during the call
            let h = &self.hist[*i];
            let mut vs: Vec<&Vec<u8>> = Vec::new();
            for (k, (t, d)) in h.iter().enumerate() {
                let end = h.get(k + 1).map(|x| x.0).unwrap_or(u64::MAX);
                if *t <= t1 && end >= t0 {
                    vs.push(d);
                }
            }
            let lo = vs.iter().map(|d| d.len()).min().unwrap();
            let hi = vs.iter().map(|d| d.len()).max().unwrap();
            if got.len() < lo || got.len() > hi {
                why = format!("{} bytes returned, the file had {}..{} during the call", got.len(), lo, hi);
                continue;
            }
            match (0..got.len()).find(|j| !vs.iter().any(|d| d.len() > *j && d[*j] == got[*j])) {
                None => return Ok(()),
                Some(j) => {
                    why = format!("byte {} of {} is not a byte the file held at that position during the call", j, got.len());
                }
            }
        }
        Err(why)
    }
}

fn read(disk: *mut Disk, op: &Op) {
    let d = || unsafe { &mut *disk };
    let tid = TID.get() as usize & 15;
    let mut r = Rng::new(op.seed);
    let f = r.usize(NF);
    let p = match op.code {
        14 => "/simfs/none".to_string(),
        15 => "/simfs/dir".to_string(),
        _ => path(f),
    };
    let form = r.usize(4);
    let other = path(1 - f);
    let at = r.usize(3);
    let e0 = vfs().err_by[tid];
    let t0 = d().tick();
    let want = if op.fk == FK_ALLOC { Want::Any } else { Want::Ok };
    let res = call(want, || match form {
        0 => io::read_file(p.as_str()),
        1 => io::read_file(p.clone()),
        2 => {
            let t = Tensor::<String>::from([p.as_str()]);
            io::read_file(&t)
        }
        _ => {
            // the name is an element of a view of several names
            let mut names = [other.as_str(), "/simfs/none", other.as_str()];
            names[at] = p.as_str();
            let t = Tensor::<String>::from(names);
            let n = 1 + at % (3 - at);
            let t = t.subslice(at, n);
            io::read_file(t)
        }
    });
    let t1 = d().tick();
    let hard = vfs().err_by[tid] != e0;
    let alloc = alloc_fired();
    match res {
        None => {}
        Some(Ok(t)) => {
            let mut got = Vec::with_capacity(t.size());
            for x in t.as_slice() {
                touch(x, false);
                got.push(*x);
            }
            if t.shape().as_vec() != [got.len()] {
                rt::violate("wrong_bytes", &format!("read_file returned shape {:?} for {} bytes", t.shape().as_vec(), got.len()));
            }
            calm(move || drop(t));
            if op.code != READ {
                rt::violate("io_error_lost", "read_file succeeded on a file that cannot be read");
            }
            if hard {
                rt::violate("io_error_lost", "read_file returned data although the operating system reported an error");
            }
            if let Err(m) = d().allowed(f, &got, t0, t1) {
                rt::violate("wrong_bytes", &m);
            }
            rt::probe(7);
            rt::event(53, got.len() as u64);
        }
        Some(Err(e)) => {
            if op.code == READ && !hard && !alloc && vfs().stat_err == 0 {
                rt::violate("spurious_error", &format!("read_file failed without an I/O error: {}", e));
            }
            rt::probe(8);
            calm(move || drop(e));
        }
    }
}

pub fn run_file(spec: &Spec) {
    std::alloc::set_alloc_error_hook(crate::world::oom_unwind);
    let mut disk = Box::new(Disk { clock: 0, hist: Vec::new(), names: vec![Vec::new(); NF] });
    let mut r = Rng::new(spec.seed);
    let mut big = 0;
    for f in 0..NF {
        let n = size_of_file(&mut r);
        big = big.max(n);
        disk.put(f, bytes(hash2(spec.seed, f as u64), n));
    }
    let i = vfs().put("/simfs/dir", Vec::new());
    vfs().inodes[i].is_dir = true;
    for op in &spec.threads[0] {
        let mut r = Rng::new(op.seed);
        let v = vfs();
        match op.code {
            5 => {
                let k = [1, 2, 31, 32, 33, 100, 4096][r.usize(7)];
                v.read_faults.push(ReadFault::Short(k));
            }
            6 => v.read_faults.push(ReadFault::Eintr),
            7 => v.read_faults.push(ReadFault::Eio),
            8 => v.read_faults.push(ReadFault::None),
            9 => v.open_faults.push(EINTR),
            10 => v.open_faults.push([EACCES, EMFILE, EIO][r.usize(3)]),
            11 => v.stat_err = [EIO, EACCES][r.usize(2)],
            12 => v.stat_lie = Some([0, 1, big as u64 / 2, big as u64 + 1, big as u64 * 2 + 100, 1 << 20][r.usize(6)]),
            13 => v.default_chunk = [1 + big / 20, 7 + big / 50, 32 + big / 100, 512, 4096][r.usize(5)],
            _ => {}
        }
    }
    let dp = &mut *disk as *mut Disk;
    let mut tids = Vec::new();
    for ops in spec.threads.iter().skip(1) {
        let ops: *const Vec<Op> = ops;
        tids.push(rt::spawn(Box::new(move || {
            for (i, op) in unsafe { &*ops }.iter().enumerate() {
                enter(op, i);
                if op.fk == FK_ALLOC {
                    let th = &mut rt::st().th[TID.get() as usize];
                    th.alloc_fail_at = op.at.max(1) as u64;
                    th.alloc_fail_len = op.len.max(1) as u64;
                }
                rt::point(rt::K_IO);
                match op.code {
                    READ | 14 | 15 => read(dp, op),
                    1..=4 => unsafe { &mut *dp }.mutate(op),
                    _ => {}
                }
                rt::st().th[TID.get() as usize].alloc_fail_at = 0;
                rt::event(54, op.code as u64);
            }
        })));
    }
    for t in tids {
        rt::join(t);
    }
    if vfs().open_fds() != 0 {
        rt::violate("fd_leak", &format!("{} file handles are still open after every call returned", vfs().open_fds()));
    }
}

// ------------------------------------------------------------ WAV

pub fn gen_wav(r: &mut Rng, s: &mut Spec) {
    s.oom = 1;
    for _ in 0..1 + r.usize(3) {
        let mut v = Vec::new();
        for _ in 0..2 + r.below(8) {
            v.push(Op { code: DECODE, seed: r.u64() >> 20, fk: FK_NONE, at: r.below(4) as u32, len: r.below(12) as u32 });
        }
        s.threads.push(v);
    }
}

fn u32_at(b: &[u8], i: usize) -> u32 {
    u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]])
}
fn u16_at(b: &[u8], i: usize) -> u16 {
    u16::from_le_bytes([b[i], b[i + 1]])
}

enum Verdict {
    Reject,
    /// frames, channels, samples, rate; strict: has to be accepted
    Accept(usize, usize, Vec<f32>, usize, bool),
}

/// What the bytes mean.
fn judge(b: &[u8]) -> Verdict {
    if b.len() < 44 || &b[0..4] != b"RIFF" || u32_at(b, 4) as usize != b.len() - 8 || &b[8..16] != b"WAVEfmt " || u32_at(b, 16) != 16 {
        return Verdict::Reject;
    }
    let (fmt, ch, rate, brate, align, bits) = (u16_at(b, 20), u16_at(b, 22) as usize, u32_at(b, 24), u32_at(b, 28), u16_at(b, 32), u16_at(b, 34));
    if fmt != 1 || bits != 16 || &b[36..40] != b"data" {
        return Verdict::Reject;
    }
    let size = u32_at(b, 40) as usize;
    if size > b.len() - 44 {
        return Verdict::Reject;
    }
    let n = size / 2;
    if ch == 0 || n % ch != 0 {
        return Verdict::Reject;
    }
    let v = (0..n).map(|i| u16_at(b, 44 + 2 * i) as i16 as f32 / 32768.).collect();
    // headers that are inconsistent in a field decoding does not need
    let strict = size % 2 == 0 && align as usize == ch * 2 && brate as u64 == rate as u64 * ch as u64 * 2;
    Verdict::Accept(n / ch, ch, v, rate as usize, strict)
}

fn wav_file(r: &mut Rng) -> Vec<u8> {
    let ch = if r.one_in(40) { 1 + r.usize(300) } else { [1, 1, 2, 2, 3, 4, 5, 6, 8][r.usize(9)] };
    let frames = match r.below(8) {
        _ if r.one_in(150) => (1 << (12 + r.below(6))) / ch.min(4) + r.usize(3),
        0 => 0,
        1..=4 => 1 + r.usize(20),
        5 | 6 => 20 + r.usize(300),
        _ => 300 + r.usize(3000),
    };
    let frames = frames.min(250_000 / ch);
    let rate = match r.below(6) {
        0 => r.u64() as u32 >> r.below(32),
        1 => [65535, 65536, 65537, 96000, 192000, 1, 0][r.usize(7)],
        k => [8000, 44100, 48000, 22050][k as usize - 2],
    };
    let v: Vec<i16> = (0..frames * ch)
        .map(|_| match r.below(8) {
            0 => i16::MIN,
            1 => i16::MAX,
            2 => -1,
            _ => r.u64() as i16,
        })
        .collect();
    wav_bytes(ch as u16, rate, &v)
}

fn set32(b: &mut [u8], i: usize, v: u32) {
    if b.len() >= i + 4 {
        b[i..i + 4].copy_from_slice(&v.to_le_bytes());
    }
}

/// What is left of a file after a crash or on a bad disk.
fn damage(r: &mut Rng, kind: u32, b: &mut Vec<u8>) {
    let n = b.len();
    match kind {
        0 => {}
        1 => {
            rt::count_fault(rt::F_LOST);
            let k = if r.one_in(2) { r.usize(48.min(n)) } else { r.usize(n) };
            b.truncate(k);
        }
        2 | 3 => {
            // a crash while the file is written: some blocks made it
            rt::count_fault(rt::F_TORN);
            let bs = [16, 32, 64, 512][r.usize(4)];
            let old = if r.one_in(2) { Vec::new() } else { wav_file(r) };
            let len = if r.one_in(2) { n } else { r.usize(n + 1) };
            let mut new = vec![0; len];
            for i in 0..len {
                new[i] = old.get(i).copied().unwrap_or(0);
            }
            let nb = (len + bs - 1) / bs;
            let p = 1 + r.below(4);
            for k in 0..nb {
                if (k == 0 && !r.one_in(4)) || r.below(4) < p {
                    for i in k * bs..((k + 1) * bs).min(len) {
                        new[i] = b[i];
                    }
                }
            }
            if r.one_in(2) && len >= 8 {
                set32(&mut new, 4, (len - 8) as u32);
            }
            *b = new;
        }
        4 | 5 => {
            rt::count_fault(rt::F_FLIP);
            for _ in 0..1 + r.below(3) {
                let i = if r.one_in(4) { r.usize(n) } else { r.usize(44.min(n)) };
                b[i] ^= 1 << r.below(8);
            }
        }
        6 => {
            rt::count_fault(rt::F_TORN);
            // a block written twice or in the wrong place
            let bs = [4, 16, 64][r.usize(3)];
            let k = (n / bs).max(1);
            let (x, y) = (r.usize(k) * bs, r.usize(k) * bs);
            let t: Vec<u8> = b[x..(x + bs).min(n)].to_vec();
            for (i, c) in t.iter().enumerate() {
                if y + i < n {
                    b[y + i] = *c;
                }
            }
        }
        7 => {
            rt::count_fault(rt::F_FLIP);
            // one header field holds something else
            let rest = (n - 44) as u32;
            match r.below(8) {
                0 => set32(b, 40, [u32::MAX, 0, rest + 1, rest + 2, 0x8000_0000, 1 << 30, rest.wrapping_sub(1)][r.usize(7)]),
                1 => {
                    let c: u16 = [0, 1, 2, 3, 7, 255, 65535][r.usize(7)];
                    b[22..24].copy_from_slice(&c.to_le_bytes());
                }
                2 => b[34] = [8, 24, 32, 0][r.usize(4)],
                3 => b[20] = [0, 3, 2][r.usize(3)],
                4 => set32(b, 16, [18, 40, 0, u32::MAX][r.usize(4)]),
                5 => set32(b, 24, r.u64() as u32),
                6 => set32(b, 4, [n as u32, n as u32 - 7, 0, u32::MAX, (n as u32 - 8) ^ 0x1_0000][r.usize(5)]),
                _ => b[36] = b'L',
            }
        }
        8 => {
            // more data than the data chunk says: another chunk follows
            let k = 1 + r.usize(20);
            b.extend(bytes(r.u64(), k));
            let m = b.len() as u32;
            set32(b, 4, m - 8);
        }
        9 | 10 => {
            // truncated, with a header rewritten to the new length
            rt::count_fault(rt::F_LOST);
            let k = 44 + r.usize(n - 44 + 1);
            b.truncate(k);
            set32(b, 4, k as u32 - 8);
            if r.one_in(3) {
                set32(b, 40, (k as u32 - 44) & !1);
            }
        }
        _ => {
            rt::count_fault(rt::F_TORN);
            let k = r.usize(80);
            *b = bytes(r.u64(), k);
            if r.one_in(2) && k >= 4 {
                b[..4].copy_from_slice(b"RIFF");
            }
        }
    }
}

fn decode(op: &Op) {
    let mut r = Rng::new(op.seed);
    let mut b = wav_file(&mut r);
    damage(&mut r, op.len, &mut b);
    let verdict = judge(&b);
    let n = b.len();
    // the bytes reach the decoder in one of several ways
    let form = op.at;
    let mut file = None;
    let t: Tensor<u8> = match form {
        0 => calm(|| Tensor::from(b.clone())),
        1 if n > 0 => {
            // a view into a larger tensor
            let (x, y) = (1 + r.usize(9), 1 + r.usize(60));
            let mut c = bytes(7, x);
            c.extend(&b);
            c.extend(wav_file(&mut r).iter().cycle().take(y));
            calm(|| {
                let mut v: Vec<u8> = Vec::new();
                v.extend(&c);
                Tensor::from(v).subslice(x, n)
            })
        }
        2 => {
            let p = format!("/simfs/w{}", TID.get());
            vfs().put(&p, b.clone());
            vfs().default_chunk = 1 + r.usize(700);
            file = Some(p);
            match call(Want::Ok, || io::read_file(file.as_ref().unwrap().as_str())) {
                Some(Ok(t)) => t,
                _ => rt::violate("wrong_result", "reading back the WAV file failed"),
            }
        }
        _ => calm(|| {
            let mut v: Vec<u8> = Vec::with_capacity(n + 13);
            v.extend(&b);
            Tensor::from(v)
        }),
    };
    let _ = file;
    rt::st().th[TID.get() as usize].max_request = 0;
    let byref = r.one_in(2);
    let res = if byref {
        let x = call(Want::Any, || io::decode_wav(&t));
        calm(move || drop(t));
        x
    } else {
        call(Want::Any, move || io::decode_wav(t))
    };
    let req = rt::st().th[TID.get() as usize].max_request as usize;
    if req > 4 * n + 8192 {
        rt::violate("memory_request", &format!("decoding {} bytes asked for {} bytes of memory at once", n, req));
    }
    match (res, verdict) {
        (None, Verdict::Reject) => rt::probe(9),
        (None, Verdict::Accept(_, _, _, _, strict)) => {
            if strict {
                rt::violate("wav_rejected", &format!("a complete WAV file of {} bytes was rejected: {}", n, uc().last_panic));
            }
        }
        (Some((t, rate)), v) => {
            let shape = t.shape().as_vec();
            let got: Vec<f32> = t.as_slice().iter().map(|x| x.val()).collect();
            let rt_: Vec<usize> = rate.as_slice().to_vec();
            calm(move || {
                drop(t);
                drop(rate);
            });
            match v {
                Verdict::Reject => rt::violate("wav_accepted", &format!(
                    "a damaged file of {} bytes was decoded to shape {:?} although its header is invalid or disagrees with its data", n, shape)),
                Verdict::Accept(fr, ch, want, w, _) => {
                    if shape != [fr, ch] || rt_ != [w] {
                        rt::violate("wav_samples", &format!("shape {:?} and rate {:?}, expected [{}, {}] and {}", shape, rt_, fr, ch, w));
                    }
                    if let Some(i) = (0..got.len()).find(|i| got[*i] != want[*i]) {
                        rt::violate("wav_samples", &format!("sample {} is {}, expected {}", i, got[i], want[i]));
                    }
                    rt::probe(10);
                }
            }
        }
    }
}

pub fn run_wav(spec: &Spec) {
    std::alloc::set_alloc_error_hook(crate::world::oom_unwind);
    let mut tids = Vec::new();
    for ops in spec.threads.iter() {
        let ops: *const Vec<Op> = ops;
        tids.push(rt::spawn(Box::new(move || {
            for (i, op) in unsafe { &*ops }.iter().enumerate() {
                enter(op, i);
                rt::point(rt::K_OP);
                decode(op);
                rt::event(55, i as u64);
            }
        })));
    }
    for t in tids {
        rt::join(t);
    }
}
