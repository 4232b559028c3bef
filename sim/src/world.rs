//! The simulated program: threads that share, clone, move, view and drop
//! tensors, with an executable reference model of every tensor.
use crate::spec::*;
use crate::user::*;
use essay_tensor::tensor::Tensor;
use simrt::rng::{hash2, Rng};
use simrt::rt::{self, MODE, TID};
use simrt::mem;
use std::collections::VecDeque;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub struct M<V> {
    pub shape: Vec<usize>,
    pub vals: Vec<V>,
}

impl<V: Val> M<V> {
    pub fn new(shape: Vec<usize>, vals: Vec<V>) -> M<V> {
        if shape.iter().product::<usize>() != vals.len() {
            rt::harness_error(&format!("model: shape {:?} and {} values", shape, vals.len()));
        }
        M { shape, vals }
    }
    pub fn rank(&self) -> usize {
        self.shape.len()
    }
    pub fn n(&self) -> usize {
        self.vals.len()
    }
    pub fn cols(&self) -> usize {
        self.shape.last().copied().unwrap_or(0)
    }
    pub fn rows(&self) -> usize {
        if self.shape.len() > 1 {
            self.shape[self.shape.len() - 2]
        } else {
            0
        }
    }
}

/// One handle of the program.
pub struct H<E: Elem> {
    pub t: Box<Tensor<E>>,
    pub m: Rc<M<E::V>>,
    pub blk: usize,
    pub weak: bool,
}

/// A borrowed operand.
pub struct Rf<E: Elem> {
    pub t: &'static Tensor<E>,
    pub m: Rc<M<E::V>>,
    pub blk: usize,
}

pub struct World<E: Elem> {
    pub base: Vec<H<E>>,
    pub mail: Vec<VecDeque<H<E>>>,
    pub size: u8,
    pub spec: *const Spec,
}

pub struct Ctx<E: Elem> {
    pub w: *mut World<E>,
    pub regs: Vec<Box<H<E>>>,
    pub rng: Rng,
    pub size: u8,
    pub nested: bool,
    pub dead: bool,
    pub last_failed: bool,
    /// few shapes and short lives
    pub churn: bool,
    /// the operation whose callback this context is called from, and how
    /// many levels deeper to go
    pub outer: u16,
    pub deep: u32,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Want {
    Ok,
    Panic,
    Any,
}

pub struct AllocFail;

/// Handle counts of one storage block.
#[derive(Clone, Copy, Default)]
pub struct Cnt {
    pub held: u32,
    pub infl: u32,
    pub weak: u32,
}

pub fn cnt_add(blk: usize, weak: bool) {
    if blk == 0 {
        return;
    }
    let c = g().counts.entry(blk).or_default();
    if weak {
        c.weak += 1
    } else {
        c.held += 1
    }
}

pub fn cnt_begin(blk: usize, weak: bool) {
    if blk == 0 {
        return;
    }
    let c = g().counts.entry(blk).or_default();
    if weak {
        c.weak -= 1
    } else {
        c.held -= 1
    }
    c.infl += 1;
}

pub fn cnt_end(blk: usize) {
    if blk == 0 {
        return;
    }
    let c = g().counts.entry(blk).or_default();
    c.infl -= 1;
    let c = *c;
    cnt_check(blk, c);
}

fn cnt_check(blk: usize, c: Cnt) {
    let live = mem::is_live(blk);
    let b = mem::blk(blk);
    if c.held > 0 && !live {
        rt::violate("freed_early", &format!(
            "storage of {} bytes allocated in {} was released although {} handles are alive",
            b.size, simrt::run::op_name(b.alloc_op), c.held));
    }
    if c.held == 0 && c.infl == 0 && c.weak == 0 && live {
        rt::violate("storage_leak", &format!(
            "storage of {} bytes allocated in {} by thread {} is still allocated after its last handle was dropped",
            b.size, simrt::run::op_name(b.alloc_op), b.alloc_tid));
    }
}

/// Checks every handle's storage is live (used when a run may have corrupted counts).
pub fn cnt_check_all() {
    for (b, c) in g().counts.iter() {
        if c.infl == 0 {
            cnt_check(*b, *c);
        }
    }
}

pub fn tag() -> u32 {
    uc().tag
}

pub fn mark_failed() {
    let t = tag() as usize;
    g().failed[t] = true;
    g().any_failed = true;
    // a nested failure may be caused by the outer operation's own garbage
}

/// Runs a library operation under the simulator.
pub fn lib<R>(f: impl FnOnce() -> R) -> Result<R, Box<dyn std::any::Any + Send>> {
    MODE.set(rt::OP);
    let r = catch_unwind(AssertUnwindSafe(f));
    MODE.set(rt::OFF);
    r
}

/// A library call that no fault plan touches.
pub fn calm<R>(f: impl FnOnce() -> R) -> R {
    let u = uc();
    let saved = std::mem::replace(&mut u.plan, Plan::default());
    let th = &mut rt::st().th[TID.get() as usize];
    let fa = std::mem::replace(&mut th.alloc_fail_at, 0);
    MODE.set(rt::OP & !rt::FAULT);
    let r = catch_unwind(AssertUnwindSafe(f));
    MODE.set(rt::OFF);
    uc().plan = saved;
    rt::st().th[TID.get() as usize].alloc_fail_at = fa;
    match r {
        Ok(r) => r,
        Err(_) => rt::violate("unexpected_panic", &format!("a call with valid arguments panicked: {}", uc().last_panic)),
    }
}

pub fn alloc_fired() -> bool {
    rt::st().th[TID.get() as usize].alloc_fired > 0
}

/// A library call with its expected outcome.  None: it panicked as it should
/// or because a fault was injected.
pub fn call<R>(want: Want, f: impl FnOnce() -> R) -> Option<R> {
    call_judged(want, f, |_| false)
}

/// A call with invalid arguments; if it returns all the same, `spans` gives the
/// memory (address, bytes) the result makes accessible, which has to lie within
/// the operand's elements.
pub fn call_bad<E, R>(all: &[E], f: impl FnOnce() -> R, spans: impl FnOnce(&R) -> Vec<(usize, usize)>) -> Option<R> {
    let lo = all.as_ptr() as usize;
    let hi = lo + std::mem::size_of_val(all);
    call_judged(Want::Panic, f, |r| spans(r).iter().any(|(a, n)| *n > 0 && (*a < lo || a.saturating_add(*n) > hi)))
}

pub fn span_of<E: essay_tensor::tensor::Type>(t: &Tensor<E>) -> (usize, usize) {
    let n = t.size().max(t.shape().size());
    (t.as_slice().as_ptr() as usize, n.saturating_mul(std::mem::size_of::<E>()))
}

fn call_judged<R>(want: Want, f: impl FnOnce() -> R, outside: impl FnOnce(&R) -> bool) -> Option<R> {
    let was = std::mem::replace(&mut uc().panicked, false);
    let fired = rt::st().th[TID.get() as usize].alloc_fired;
    let r = lib(f);
    let u = uc();
    let panicked = u.panicked;
    u.panicked |= was;
    match r {
        Ok(r) => {
            if panicked {
                rt::violate("panic_swallowed", "a callback panicked but the operation returned normally");
            }
            if want == Want::Panic {
                if outside(&r) {
                    rt::violate("out_of_bounds", "a call with invalid arguments returned memory outside the tensor's elements");
                }
                rt::violate("invalid_accepted", "a call with invalid arguments returned normally");
            }
            Some(r)
        }
        Err(p) => {
            mark_failed();
            if panicked {
                if !p.is::<Injected>() {
                    rt::violate("panic_swallowed", &format!("the panic of the callback was replaced by another: {}", u.last_panic));
                }
            } else if rt::st().th[TID.get() as usize].alloc_fired > fired || p.is::<AllocFail>() {
                rt::probe(1);
            } else if p.is::<Injected>() {
                rt::violate("unexpected_panic", "a panic of another operation reached this one");
            } else if want == Want::Ok {
                rt::violate("unexpected_panic", &format!("a call with valid arguments panicked: {}", u.last_panic));
            }
            MODE.set(rt::OP & !rt::FAULT);
            drop(p);
            MODE.set(rt::OFF);
            None
        }
    }
}

/// Compares the callbacks' log with the expected sequence; after a failure it
/// has to be a prefix.
pub fn check_log(done: bool, expect: impl ExactSizeIterator<Item = u64>) {
    let u = uc();
    let n = expect.len();
    if u.log.len() > n || (done && u.log.len() != n) {
        rt::violate("callback_order", &format!("the callback was called {} times instead of {}", u.log.len(), n));
    }
    for (i, e) in expect.enumerate().take(u.log.len()) {
        if u.log[i] != e {
            rt::violate("callback_order", &format!("call {} of the callback got the wrong operand(s)", i));
        }
    }
}

pub fn check_count(done: bool, n: usize) {
    let u = uc();
    if u.cbs > n as u64 || (done && u.cbs != n as u64) {
        rt::violate("callback_order", &format!("the callbacks were called {} times instead of {}", u.cbs, n));
    }
}

pub fn verify<E: Elem>(t: &Tensor<E>, m: &M<E::V>, class: &str, sample: bool) {
    let dims = &m.shape;
    MODE.set(rt::OP & !rt::FAULT);
    let rank = t.rank();
    let size = t.size();
    let s: &[E] = t.as_slice();
    let mut got = [0usize; 8];
    for i in 0..rank.min(8) {
        got[i] = t.dim(i);
    }
    MODE.set(rt::OFF);
    if rank != dims.len() || got[..rank] != dims[..] {
        rt::violate(class, &format!("shape is {:?}, expected {:?}", &got[..rank.min(8)], dims));
    }
    if size != m.vals.len() || s.len() != m.vals.len() {
        rt::violate(class, &format!("size is {} (slice {}), expected {}", size, s.len(), m.vals.len()));
    }
    let n = s.len();
    let step = if sample && n > 2048 { n / 257 + 1 } else { 1 };
    let mut i = 0;
    while i < n {
        let v = s[i].val();
        if !v.same(m.vals[i]) {
            rt::violate(class, &format!("element {} is {:?}, expected {:?} (shape {:?})", i, v, m.vals[i], dims));
        }
        i += step;
    }
}

pub fn prod(s: &[usize]) -> usize {
    s.iter().product()
}

/// Starts an operation: its fault plan and its bookkeeping.
pub fn enter(op: &Op, idx: usize) {
    let tid = TID.get() as usize;
    let t = new_tag();
    {
        let u = uc();
        u.plan = Plan { kind: op.fk, at: op.at, len: op.len };
        u.calls = 0;
        u.cbs = 0;
        u.drops = 0;
        u.fired = false;
        u.panicked = false;
        u.tag = t;
        u.log.clear();
        u.nest = None;
    }
    let th = &mut rt::st().th[tid];
    th.op = op.code as u32 + 1;
    th.op_idx = t;
    th.op_work = 0;
    th.alloc_n = 0;
    th.alloc_fired = 0;
    th.max_request = 0;
    th.alloc_fail_at = 0;
    rt::sh().cur_op[tid] = op.code as u32 + 1;
    rt::sh().cur_op_idx[tid] = idx as u32;
    rt::sh().ops += 1;
}

impl<E: Elem> Ctx<E> {
    pub fn new(w: *mut World<E>, size: u8) -> Ctx<E> {
        let churn = unsafe { (*(*w).spec).reuse & 2 != 0 };
        Ctx { w, regs: Vec::new(), rng: Rng::new(1), size, nested: false, dead: false, last_failed: false, churn, outer: 0, deep: 0 }
    }
    pub fn w(&self) -> &'static mut World<E> {
        unsafe { &mut *self.w }
    }

    // ---------------------------------------------------------- values
    pub fn r(&mut self, n: usize) -> usize {
        self.rng.usize(n)
    }
    pub fn one_in(&mut self, n: u64) -> bool {
        self.rng.one_in(n)
    }
    pub fn value(&mut self) -> E::V {
        E::norm(E::V::arb(&mut self.rng))
    }
    pub fn values(&mut self, n: usize) -> Vec<E::V> {
        if E::FLOAT {
            // ordinary numbers in most tensors; all negative in some
            let any = self.one_in(4);
            let neg = self.one_in(10);
            return (0..n)
                .map(|_| loop {
                    let v = self.value();
                    let x = crate::ops::fv(v);
                    if any || (x.is_finite() && x.abs() < 1e9 && (x == 0. || x.abs() > 1e-9)) {
                        break if neg && x > 0. { v.neg() } else { v };
                    }
                })
                .collect();
        }
        (0..n).map(|_| self.value()).collect()
    }
    /// A length below `m`, and now and then a larger one around a power of two.
    pub fn len(&mut self, m: usize) -> usize {
        if self.churn && self.r(4) > 0 {
            return Rng::new(hash2(unsafe { (*self.w().spec).seed }, 700 + m as u64)).usize(m);
        }
        let bits = match self.size {
            0 => if self.one_in(16) { 7 } else { 0 },
            1 => if self.one_in(6) { 9 } else { 0 },
            2 => if self.one_in(5) { 12 } else { 0 },
            _ => if self.one_in(4) { 14 } else { 0 },
        };
        if bits == 0 || self.nested {
            return self.r(m);
        }
        let b = 2 + self.r(bits - 2);
        if self.one_in(2) { (1 << b) - 1 + self.r(3) } else { (1 << b) + self.r(1 << b) }
    }
    pub fn elems(&mut self, v: &[E::V]) -> Vec<E> {
        // the program's own allocation, sometimes with room to spare
        let spare = if self.one_in(4) { 1 + self.r(9) } else { 0 };
        MODE.set(rt::USER);
        let mut r: Vec<E> = Vec::with_capacity(v.len() + spare);
        MODE.set(rt::OFF);
        for x in v {
            r.push(E::make(*x));
        }
        r
    }

    pub fn shape(&mut self) -> Vec<usize> {
        if self.churn && self.r(4) > 0 {
            let k = 1 + self.r(3);
            return self.dims(k);
        }
        let r = self.r(100);
        if r < 3 {
            // empty
            return match self.r(4) {
                0 => vec![0],
                1 => vec![0, 1 + self.r(3)],
                2 => vec![1 + self.r(3), 0],
                _ => vec![0],
            };
        }
        if r < 8 {
            return vec![];
        }
        if self.one_in(16) {
            // a long vector or matrix
            let n = 1 + self.len(9);
            return match self.r(3) {
                0 => vec![n],
                1 => vec![n, 1 + self.r(4)],
                _ => vec![1 + self.r(4), n],
            };
        }
        let big = self.size > 0 && self.one_in(4);
        let cap = if !big {
            24
        } else {
            match self.size {
                1 => 300,
                2 => 5000,
                _ => if self.one_in(3) { 100_000 } else { 9000 },
            }
        };
        let rank = if self.one_in(12) { 5 + self.r(2) } else { 1 + self.r(4) };
        let mut s = Vec::new();
        let mut left: usize = cap;
        for i in 0..rank {
            let m = if big {
                if i + 1 == rank { left } else { ((left as f64).powf(1.0 / (rank - i) as f64) * 2.0) as usize }
            } else {
                5
            };
            let d = 1 + self.r(m.max(1).min(left.max(1)));
            s.push(d);
            left = (left / d).max(1);
        }
        if self.one_in(3) {
            s.reverse();
        }
        s
    }
    pub fn dims(&mut self, rank: usize) -> Vec<usize> {
        if self.churn && self.r(4) > 0 {
            let mut r = Rng::new(hash2(unsafe { (*self.w().spec).seed }, 600 + rank as u64));
            return (0..rank).map(|_| 1 + r.usize(4)).collect();
        }
        let big = self.size > 0 && self.one_in(5);
        let m = if big { [0, 6, 12, 20][self.size as usize & 3] } else { 4 };
        let mut left = 100_000;
        (0..rank)
            .map(|_| {
                let d = 1 + self.r(m.min(left));
                left = (left / d).max(1);
                d
            })
            .collect()
    }

    // ---------------------------------------------------------- registers
    fn make_h(t: Tensor<E>, m: Rc<M<E::V>>, hint: usize) -> H<E> {
        let t = Box::new(t);
        let (blk, weak) = if m.n() == 0 || E::ZST {
            // an empty view may keep storage alive, but need not
            let p = unsafe { t.as_ptr() } as usize;
            let b = match mem::block_of(p) {
                0 => mem::block_of(p.wrapping_sub(1)),
                b => b,
            };
            (if E::ZST { 0 } else if b != 0 { b } else { hint }, true)
        } else {
            (mem::block_of(unsafe { t.as_ptr() } as usize), false)
        };
        cnt_add(blk, weak);
        H { t, m, blk, weak }
    }

    /// Registers a result after checking it completely.
    pub fn put_hint(&mut self, t: Tensor<E>, m: M<E::V>, hint: usize) {
        self.put_rc(t, Rc::new(m), hint)
    }
    pub fn put_rc(&mut self, t: Tensor<E>, m: Rc<M<E::V>>, hint: usize) {
        let h = Self::make_h(t, m, hint);
        verify(&h.t, &h.m, "wrong_result", false);
        self.regs.push(Box::new(h));
    }
    pub fn put(&mut self, t: Tensor<E>, m: M<E::V>) {
        self.put_hint(t, m, 0)
    }

    /// A new private operand.
    pub fn fresh(&mut self, shape: Vec<usize>) -> Rf<E> {
        let v = self.values(prod(&shape));
        self.fresh_with(shape, v)
    }
    /// One whose values are ordinary numbers.
    pub fn fresh_fin(&mut self, shape: Vec<usize>) -> Rf<E> {
        let v = (0..prod(&shape))
            .map(|_| loop {
                let v = self.value();
                let x = crate::ops::fv(v);
                if !E::FLOAT || (x.is_finite() && x.abs() < 1e9) {
                    break v;
                }
            })
            .collect();
        self.fresh_with(shape, v)
    }
    pub fn fresh_with(&mut self, shape: Vec<usize>, v: Vec<E::V>) -> Rf<E> {
        let e = self.elems(&v);
        let t = calm(|| Tensor::from_vec(e, shape.as_slice()));
        self.put(t, M::new(shape, v));
        self.rf(self.regs.len() - 1)
    }
    pub fn rf(&self, i: usize) -> Rf<E> {
        let h = &self.regs[i];
        Rf { t: unsafe { &*(&*h.t as *const Tensor<E>) }, m: h.m.clone(), blk: h.blk }
    }
    pub fn rfb(&self, i: usize) -> Rf<E> {
        let h = &self.w().base[i];
        Rf { t: unsafe { &*(&*h.t as *const Tensor<E>) }, m: h.m.clone(), blk: h.blk }
    }

    pub fn pick_if(&mut self, f: impl Fn(&M<E::V>) -> bool) -> Option<Rf<E>> {
        if self.churn && self.one_in(2) {
            return None;
        }
        let nb = if self.nested { 0 } else { self.w().base.len() };
        let nr = self.regs.len();
        let n = nb + nr;
        if n == 0 {
            return None;
        }
        // shared tensors are preferred
        let start = if nb > 0 && (nr == 0 || self.one_in(2)) { self.r(nb) } else { nb + self.r(nr.max(1)) };
        for k in 0..n {
            let i = (start + k) % n;
            let m = if i < nb { &self.w().base[i].m } else { &self.regs[i - nb].m };
            if f(m) {
                return Some(if i < nb { self.rfb(i) } else { self.rf(i - nb) });
            }
        }
        None
    }
    pub fn pick(&mut self) -> Rf<E> {
        match self.pick_if(|_| true) {
            Some(r) => r,
            None => {
                let s = self.shape();
                self.fresh(s)
            }
        }
    }
    /// An operand with elements, of the rank asked for.
    pub fn pick_rank(&mut self, lo: usize, hi: usize) -> Rf<E> {
        match self.pick_if(|m| m.n() > 0 && m.rank() >= lo && m.rank() <= hi) {
            Some(r) => r,
            None => {
                let k = lo + self.r(hi - lo + 1);
                let s = self.dims(k);
                self.fresh(s)
            }
        }
    }
    pub fn pick_some(&mut self) -> Rf<E> {
        self.pick_rank(0, 6)
    }

    /// Takes a handle out of the registers for an operation that consumes it.
    pub fn take_if(&mut self, f: impl Fn(&M<E::V>) -> bool) -> Option<Box<H<E>>> {
        let n = self.regs.len();
        if n == 0 {
            return None;
        }
        let s = self.r(n);
        for k in 0..n {
            let i = (s + k) % n;
            if f(&self.regs[i].m) {
                return Some(self.regs.remove(i));
            }
        }
        None
    }
    pub fn take_some(&mut self, lo: usize, hi: usize) -> Box<H<E>> {
        match self.take_if(|m| m.n() > 0 && m.rank() >= lo && m.rank() <= hi) {
            Some(h) => h,
            None => {
                let k = lo + self.r(hi - lo + 1);
                let s = self.dims(k);
                self.fresh(s);
                self.regs.pop().unwrap()
            }
        }
    }
    /// Splits a handle into its tensor and its bookkeeping; the block is in flight
    /// until `cnt_end`.
    pub fn open(h: Box<H<E>>) -> (Tensor<E>, Rc<M<E::V>>, usize) {
        let h = *h;
        cnt_begin(h.blk, h.weak);
        (*h.t, h.m, h.blk)
    }

    pub fn drop_h(&mut self, h: Box<H<E>>) {
        let (t, _m, blk) = Self::open(h);
        if lib(move || drop(t)).is_err() {
            rt::violate("unexpected_panic", &format!("dropping a handle panicked: {}", uc().last_panic));
        }
        cnt_end(blk);
    }

    /// Checks a result of another element type and drops it.
    pub fn other<T: Elem>(&mut self, t: Tensor<T>, shape: &[usize], vals: Vec<T::V>) {
        verify(&t, &M::new(shape.to_vec(), vals), "wrong_result", false);
        calm(move || drop(t));
    }

    pub fn verify_all(&mut self) {
        for i in 0..self.regs.len() {
            let r = self.rf(i);
            verify(r.t, &r.m, "contents_changed", true);
        }
        if !self.nested {
            for i in 0..self.w().base.len() {
                let r = self.rfb(i);
                verify(r.t, &r.m, "contents_changed", true);
            }
        }
    }

    // ---------------------------------------------------------- execution
    pub fn step(&mut self, op: &Op, idx: usize) {
        let tid = TID.get() as usize;
        enter(op, idx);
        self.rng = Rng::new(op.seed);
        let mut sub: Option<Box<Ctx<E>>> = None;
        if op.fk == FK_NEST {
            let mut c = Box::new(Ctx::new(self.w, self.size.min(1)));
            c.nested = true;
            c.outer = op.code;
            c.deep = op.len;
            for i in 0..self.regs.len().min(4) {
                let r = self.rf(i);
                let t = calm(|| r.t.clone());
                c.put_rc(t, r.m.clone(), r.blk);
            }
            for i in 0..if self.nested { 0 } else { self.w().base.len().min(2) } {
                let r = self.rfb(i);
                let t = calm(|| r.t.clone());
                c.put_rc(t, r.m.clone(), r.blk);
            }
            let p = &mut *c as *mut Ctx<E> as *mut u8;
            uc().nest = Some((nested_entry::<E>, p, hash2(op.seed, 77)));
            sub = Some(c);
        }
        uc().calls = 0;
        uc().drops = 0;
        if op.fk == FK_ALLOC {
            let th = &mut rt::st().th[tid];
            th.alloc_n = 0;
            th.alloc_fail_at = op.at.max(1) as u64;
            th.alloc_fail_len = op.len.max(1) as u64;
        }
        rt::point(rt::K_OP);
        crate::ops::exec(self, op.code);
        let failed = uc().panicked || alloc_fired();
        uc().plan = Plan::default();
        rt::st().th[tid].alloc_fail_at = 0;
        if let Some(mut c) = sub {
            c.verify_all();
            while let Some(h) = c.regs.pop() {
                c.drop_h(h);
            }
        }
        if failed {
            self.verify_all();
        }
        if uc().panicked && op.fk == FK_DIE && !self.nested {
            rt::count_fault(rt::F_DEATH);
            self.dead = true;
        }
        while let Some(i) = self.regs.iter().position(|h| h.m.n() > 100_000) {
            let h = self.regs.remove(i);
            self.drop_h(h);
        }
        if self.churn && !self.nested {
            // short-lived tensors: the next ones get their addresses
            let k = match self.r(4) {
                0 | 1 => self.regs.len(),
                2 => 1,
                _ => 0,
            };
            for _ in 0..k {
                if let Some(h) = self.regs.pop() {
                    self.drop_h(h);
                }
            }
        }
        while self.regs.len() > 9 {
            let i = self.r(self.regs.len());
            let h = self.regs.remove(i);
            self.drop_h(h);
        }
        rt::event(50, op.code as u64);
        rt::st().last_progress = rt::st().points;
    }

    pub fn finish(&mut self) {
        let tid = TID.get() as usize;
        rt::st().th[tid].op = 0;
        uc().plan = Plan::default();
        uc().tag = new_tag();
        rt::st().th[tid].op_work = 0;
        rt::st().th[tid].op_idx = uc().tag;
        self.verify_all();
        while let Some(h) = self.regs.pop() {
            self.drop_h(h);
        }
    }
}

/// Entered from inside a user callback: runs another operation there.
fn nested_entry<E: Elem>(p: *mut u8, seed: u64) {
    let tid = TID.get() as usize;
    let mut u = UserCtx::new();
    std::mem::swap(uc(), &mut u);
    uc().depth = u.depth + 1;
    let th = &rt::st().th[tid];
    let sv = (th.op, th.op_idx, th.op_work, th.alloc_n, th.alloc_fail_at, th.alloc_fail_len, th.alloc_fired, th.max_request);
    let cx = unsafe { &mut *(p as *mut Ctx<E>) };
    let mut r = Rng::new(seed);
    let prop = unsafe { (*(*cx.w).spec).prop };
    // recursion is often into the same operation
    let same = crate::ops::group(cx.outer) & (crate::ops::PROG | crate::ops::SLOW) == 0;
    let n = if cx.deep > 1 { 1 } else { 1 + r.usize(2) };
    for k in 0..n {
        let code = if same && r.one_in(2) || same && cx.deep > 3 && !r.one_in(8) { cx.outer } else { crate::gen::nested_code(&mut r, E::FLOAT) };
        let (fk, at, len) = if cx.deep > 1 {
            (FK_NEST, 1 + r.usize(3) as u32, cx.deep - 1)
        } else if r.one_in(6) {
            (FK_PANIC, 1 + r.usize(6) as u32, 0)
        } else if prop == 10 && r.one_in(6) {
            (FK_STALL, 1 + r.usize(4) as u32, 0)
        } else {
            (FK_NONE, 0, 0)
        };
        let op = Op { code, seed: hash2(seed, k as u64), fk, at, len };
        cx.step(&op, 9999);
    }
    MODE.set(rt::OFF);
    std::mem::swap(uc(), &mut u);
    let th = &mut rt::st().th[tid];
    (th.op, th.op_idx, th.op_work, th.alloc_n, th.alloc_fail_at, th.alloc_fail_len, th.alloc_fired, th.max_request) = sv;
}

// ------------------------------------------------------------ the program

fn oom_exit(_l: std::alloc::Layout) {
    let m = MODE.replace(0);
    if TID.get() >= 0 && alloc_fired() {
        rt::finish_alloc_error();
    }
    MODE.set(m);
}

pub fn oom_unwind(_l: std::alloc::Layout) {
    if TID.get() >= 0 && alloc_fired() {
        if std::thread::panicking() {
            rt::finish_alloc_error();
        }
        std::panic::panic_any(AllocFail);
    }
}

fn base_shape<E: Elem>(cx: &mut Ctx<E>) -> Vec<usize> {
    loop {
        let s = cx.shape();
        if prod(&s) > 0 {
            return s;
        }
    }
}

pub fn run<E: Elem>(spec: &Spec) {
    if spec.oom == 0 {
        std::alloc::set_alloc_error_hook(oom_exit);
    } else {
        std::alloc::set_alloc_error_hook(oom_unwind);
    }
    let mut live = Vec::new();
    for round in 0..spec.rounds.max(1) {
        round_of::<E>(spec, round);
        live.push((unsafe { mem::LIVE }, exempt_blocks()));
    }
    if live.len() >= 3 {
        let k = live.len();
        let d = |i: usize| live[i].0 as i64 - live[i].1 as i64;
        if d(k - 1) > d(k - 2) && d(k - 2) > d(k - 3) {
            rt::violate("leak_growth", &format!(
                "the same program, run again with all handles dropped, keeps {} more blocks allocated each time",
                d(k - 1) - d(k - 2)));
        }
    }
    finish_elements();
}

fn exempt_blocks() -> usize {
    let x = g();
    mem::live_blocks().iter().filter(|b| {
        let s = mem::blk(**b).serial as usize;
        s < x.failed.len() && x.failed[s]
    }).count()
}

pub fn finish_elements() {
    let x = g();
    if x.alive > 0 {
        for (i, r) in x.reg.iter().enumerate() {
            if r.state == 1 && !x.failed[r.tag as usize] {
                rt::violate("element_leak", &format!(
                    "element {} (made in op tag {}) was never dropped although every handle was dropped", i, r.tag));
            }
        }
    }
    if !x.any_failed && x.z_made != x.z_dropped {
        rt::violate("element_leak", &format!("{} zero-sized elements were made but {} dropped", x.z_made, x.z_dropped));
    }
}

/// What a thread does while its thread-locals are destroyed.
struct Late(Option<Box<dyn FnOnce()>>);

impl Drop for Late {
    fn drop(&mut self) {
        if let Some(f) = self.0.take() {
            let m = MODE.replace(rt::OFF);
            f();
            MODE.set(m);
        }
    }
}

thread_local! {
    static LATE: std::cell::RefCell<Late> = const { std::cell::RefCell::new(Late(None)) };
}

fn round_of<E: Elem>(spec: &Spec, round: u8) {
    let mut world = Box::new(World::<E> { base: Vec::new(), mail: (0..8).map(|_| VecDeque::new()).collect(), size: spec.size, spec });
    let wp = &mut *world as *mut World<E>;
    let mut main: Ctx<E> = Ctx::new(wp, spec.size);
    main.rng = Rng::new(hash2(spec.seed, 1000));
    uc().tag = new_tag();
    rt::st().th[0].op_idx = uc().tag;
    rt::st().th[0].op_work = 0;
    // shared tensors: some are views of others
    let codes: Vec<u16> = spec.threads.iter().flatten().map(|o| o.code)
        .filter(|c| crate::ops::group(*c) & (crate::ops::PROG | crate::ops::BAD | crate::ops::SLOW) == 0).collect();
    for i in 0..spec.nbase as usize {
        // some are results of the operations the threads use
        if !codes.is_empty() && main.one_in(2) {
            for k in 0..1 + main.r(2) as u64 {
                let code = codes[main.r(codes.len())];
                let sd = hash2(spec.seed, 2000 + i as u64 * 8 + k);
                let keep = main.rng.clone();
                main.step(&Op { code, seed: sd, fk: FK_NONE, at: 0, len: 0 }, 8888);
                main.rng = keep;
            }
            uc().tag = new_tag();
            let th = &mut rt::st().th[0];
            th.op = 0;
            th.op_idx = uc().tag;
            th.op_work = 0;
        }
        let parent = if i > 0 && main.one_in(2) { Some(main.r(i)) } else { None };
        match parent {
            _ if !main.regs.is_empty() => {}
            Some(p) if world.base[p].m.rank() > 0 && world.base[p].m.n() > 0 => {
                let m = world.base[p].m.clone();
                let d = m.shape[0];
                let a = main.r(d);
                let n = 1 + main.r(d - a);
                let t = calm(|| world.base[p].t.subslice(a, n));
                let k = m.n() / d;
                let mut s = m.shape.clone();
                s[0] = n;
                main.put(t, M::new(s, m.vals[a * k..(a + n) * k].to_vec()));
            }
            _ => {
                let s = base_shape(&mut main);
                main.fresh(s);
            }
        }
        let h = *main.regs.pop().unwrap();
        while let Some(h) = main.regs.pop() {
            main.drop_h(h);
        }
        // the handle itself lies in memory the simulator watches
        MODE.set(rt::USER);
        let t = Box::new(*h.t);
        MODE.set(rt::OFF);
        if h.m.n() > 0 {
            mem::mark_shared(unsafe { t.as_ptr() } as usize);
        }
        mem::mark_shared(&*t as *const Tensor<E> as usize);
        world.base.push(H { t, m: h.m, blk: h.blk, weak: h.weak });
    }
    let mut tids = Vec::new();
    for (ti, ops) in spec.threads.iter().enumerate() {
        let ops: *const Vec<Op> = ops;
        let size = spec.size;
        let seed = spec.seed;
        let _ = round;
        tids.push(rt::spawn(Box::new(move || {
            let mut cx: Box<Ctx<E>> = Box::new(Ctx::new(wp, size));
            cx.rng = Rng::new(hash2(seed, ti as u64));
            // some threads keep their handles in a thread-local until they exit
            let late = hash2(seed, 300 + ti as u64) % 16;
            if late == 0 {
                // registered first: its destructor runs last
                LATE.with_borrow_mut(|_| ());
            }
            for (i, op) in unsafe { &*ops }.iter().enumerate() {
                cx.step(op, i);
                if cx.dead {
                    break;
                }
            }
            if late < 2 {
                LATE.with_borrow_mut(|l| l.0 = Some(Box::new(move || cx.finish())));
            } else {
                cx.finish();
            }
        })));
    }
    for t in tids {
        rt::join(t);
    }
    main.finish();
    for q in 0..world.mail.len() {
        rt::chan_acquire(q);
        while let Some(h) = world.mail[q].pop_front() {
            verify(&h.t, &h.m, "contents_changed", true);
            main.drop_h(Box::new(h));
        }
    }
    while let Some(h) = world.base.pop() {
        verify(&h.t, &h.m, "contents_changed", false);
        main.drop_h(Box::new(h));
    }
    cnt_check_all();
}
