//! The user side of the simulated program: callbacks, element types, and the
//! faults injected from them (panics, stalls, nested operations).
use simrt::rt::{self, MODE, TID};
use simrt::{mem, rt::Map};
use std::fmt::Debug;

pub const CB: u32 = 1;
pub const CLONE: u32 = 2;
pub const ARITH: u32 = 3;

// fault plans of one operation
pub const FK_NONE: u8 = 0;
pub const FK_PANIC: u8 = 1;
pub const FK_STALL: u8 = 2;
pub const FK_NEST: u8 = 3;
pub const FK_ALLOC: u8 = 4;
pub const FK_DIE: u8 = 5; // panic, then the thread ends
pub const FK_DROPSTALL: u8 = 6;
pub const FK_NAMES: [&str; 7] = ["none", "panic", "stall", "nest", "alloc", "die", "dropstall"];

#[derive(Clone, Copy, Default)]
pub struct Plan {
    pub kind: u8,
    pub at: u32,
    pub len: u32,
}

pub struct UserCtx {
    pub plan: Plan,
    pub calls: u64,
    pub cbs: u64,
    pub drops: u64,
    pub fired: bool,
    pub panicked: bool,
    pub tag: u32,
    pub depth: u32,
    pub log: Vec<u64>,
    pub nest: Option<(fn(*mut u8, u64), *mut u8, u64)>,
    pub last_panic: String,
}

impl UserCtx {
    pub fn new() -> UserCtx {
        UserCtx {
            plan: Plan::default(),
            calls: 0,
            cbs: 0,
            drops: 0,
            fired: false,
            panicked: false,
            tag: 0,
            depth: 0,
            log: Vec::new(),
            nest: None,
            last_panic: String::new(),
        }
    }
}

/// Harness state; only the thread that holds the scheduler's baton touches it.
pub struct G {
    pub u: Vec<UserCtx>,
    pub next_tag: u32,
    pub failed: Vec<bool>,
    pub reg: Vec<Rec>,
    pub alive: u64,
    pub z_made: u64,
    pub z_dropped: u64,
    pub any_failed: bool,
    pub counts: Map<usize, crate::world::Cnt>,
}

#[derive(Clone, Copy)]
pub struct Rec {
    pub state: u8, // 1 alive, 2 dropped
    pub tag: u32,
    pub dtid: u8,
    pub dtag: u32,
}

pub static mut GS: Option<G> = None;
#[allow(static_mut_refs)]
pub fn g() -> &'static mut G {
    unsafe { GS.as_mut().unwrap() }
}

pub fn init() {
    unsafe {
        GS = Some(G {
            u: (0..rt::MAXT).map(|_| UserCtx::new()).collect(),
            next_tag: 1,
            failed: vec![false],
            reg: Vec::new(),
            alive: 0,
            z_made: 0,
            z_dropped: 0,
            any_failed: false,
            counts: Map::default(),
        });
    }
    std::panic::set_hook(Box::new(|info| {
        let m = MODE.replace(0);
        if TID.get() >= 0 {
            g().u[TID.get() as usize].last_panic = info.to_string();
        }
        MODE.set(m);
    }));
}

pub fn uc() -> &'static mut UserCtx {
    &mut g().u[TID.get() as usize]
}

pub fn new_tag() -> u32 {
    let x = g();
    let t = x.next_tag;
    x.next_tag += 1;
    x.failed.push(false);
    t
}

pub struct Injected;

/// Guard for code that belongs to the user, called from inside the library.
pub struct UG(u32);
impl Drop for UG {
    fn drop(&mut self) {
        MODE.set(self.0);
    }
}

#[inline]
pub fn user(kind: u32) -> UG {
    let m = MODE.replace(0);
    let gd = UG(m);
    if m & rt::HOOK != 0 {
        user_call(kind);
    }
    gd
}

/// Leaves the library for harness code without counting as a user call.
#[inline]
pub fn quiet() -> UG {
    UG(MODE.replace(0))
}

#[inline(never)]
fn user_call(kind: u32) {
    let u = uc();
    u.calls += 1;
    if kind == CB {
        u.cbs += 1;
        if u.panicked {
            rt::violate("callback_after_panic", "a callback of an operation ran again after it had panicked");
        }
    }
    rt::point(rt::K_USER);
    let u = uc();
    if u.plan.kind != FK_NONE && u.calls == u.plan.at as u64 {
        match u.plan.kind {
            FK_PANIC | FK_DIE => {
                if std::thread::panicking() {
                    return;
                }
                rt::count_fault(if kind == CB { rt::F_CB_PANIC } else { rt::F_CLONE_PANIC });
                u.fired = true;
                u.panicked = true;
                std::panic::panic_any(Injected);
            }
            FK_STALL => {
                u.fired = true;
                rt::stall();
            }
            // (not while a panic is being reported: a nested panic would abort)
            FK_NEST if !std::thread::panicking() => {
                if let Some((f, p, s)) = u.nest {
                    u.fired = true;
                    rt::count_fault(rt::F_NEST);
                    f(p, s);
                }
            }
            _ => {}
        }
    }
}

#[inline]
fn drop_call(m: u32) {
    if m & rt::HOOK == 0 {
        return;
    }
    let u = uc();
    u.drops += 1;
    rt::point(rt::K_USER);
    let u = uc();
    if u.plan.kind == FK_DROPSTALL && u.drops == u.plan.at as u64 {
        rt::stall();
    }
}

pub fn log(v: u64) {
    uc().log.push(v);
}

/// The access check for user code that reads or writes an element.
#[inline]
pub fn touch<T>(p: &T, write: bool) {
    let n = std::mem::size_of::<T>();
    let a = p as *const T as usize;
    if n > 0 && TID.get() >= 0 && (mem::in_arena(a) || a < 4096) {
        mem::check(a, n, write, false, true);
    }
}

// ------------------------------------------------------------ model values

pub trait Val: Copy + PartialEq + Debug + 'static {
    fn same(self, o: Self) -> bool;
    fn from_i(i: i64) -> Self;
    /// An arbitrary value.
    fn arb(r: &mut simrt::rng::Rng) -> Self {
        Self::from_i(r.u64() as i64 >> 8)
    }
    fn bits(self) -> u64;
    fn raw32(self) -> u32 {
        0
    }
    fn mixk(self, k: i64) -> Self;
    fn mix2(self, o: Self) -> Self;
    fn add(self, o: Self) -> Self;
    fn sub(self, o: Self) -> Self;
    fn mul(self, o: Self) -> Self;
    fn neg(self) -> Self;
    fn lt(self, o: Self) -> Option<std::cmp::Ordering>;
}

impl Val for i64 {
    fn same(self, o: Self) -> bool {
        self == o
    }
    fn from_i(i: i64) -> Self {
        i
    }
    fn bits(self) -> u64 {
        self as u64
    }
    fn mixk(self, k: i64) -> Self {
        self.wrapping_mul(0x5851F42D4C957F2D).wrapping_add(k) ^ (self >> 7)
    }
    fn mix2(self, o: Self) -> Self {
        self.wrapping_mul(0x2545F4914F6CDD1D).wrapping_add(o) ^ (self >> 9)
    }
    fn add(self, o: Self) -> Self {
        self.wrapping_add(o)
    }
    fn sub(self, o: Self) -> Self {
        self.wrapping_sub(o)
    }
    fn mul(self, o: Self) -> Self {
        self.wrapping_mul(o)
    }
    fn neg(self) -> Self {
        self.wrapping_neg()
    }
    fn lt(self, o: Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(&o))
    }
}

impl Val for f32 {
    fn same(self, o: Self) -> bool {
        self == o || (self.is_nan() && o.is_nan())
    }
    fn from_i(i: i64) -> Self {
        (i.rem_euclid(1021)) as f32
    }
    fn arb(r: &mut simrt::rng::Rng) -> Self {
        match r.below(64) {
            0 => [f32::NAN, f32::INFINITY, f32::NEG_INFINITY, -0.0, 0.0, f32::MIN_POSITIVE, f32::MAX, 1e-40][r.usize(8)],
            1..=8 => (r.below(2048) as f32 - 1024.) * 2f32.powi(r.below(30) as i32 - 20),
            9..=30 => r.below(2001) as f32 - 1000.,
            31..=36 => r.below(7) as f32 - 3.,
            _ => r.below(1021) as f32,
        }
    }
    fn raw32(self) -> u32 {
        self.to_bits()
    }
    fn bits(self) -> u64 {
        if self == 0.0 {
            0
        } else if self.is_nan() {
            0x7fc00000
        } else {
            self.to_bits() as u64
        }
    }
    fn mixk(self, k: i64) -> Self {
        let a = if self.is_finite() { (self as f64).rem_euclid(4093.0) as i64 } else { 17 };
        ((a * 3 + k.rem_euclid(1000)) % 1021) as f32
    }
    fn mix2(self, o: Self) -> Self {
        let a = if self.is_finite() { (self as f64).rem_euclid(4093.0) as i64 } else { 17 };
        let b = if o.is_finite() { (o as f64).rem_euclid(4093.0) as i64 } else { 19 };
        ((a * 5 + b * 7 + 3) % 1021) as f32
    }
    fn add(self, o: Self) -> Self {
        self + o
    }
    fn sub(self, o: Self) -> Self {
        self - o
    }
    fn mul(self, o: Self) -> Self {
        self * o
    }
    fn neg(self) -> Self {
        -self
    }
    fn lt(self, o: Self) -> Option<std::cmp::Ordering> {
        self.partial_cmp(&o)
    }
}

// ------------------------------------------------------------ elements

use essay_tensor::tensor::{Tensor, Type};
use num_traits::{One, Zero};
use std::ops::{Add, Mul, Neg, Sub};

pub trait Elem:
    Type
    + Clone
    + Default
    + Debug
    + PartialEq
    + PartialOrd
    + Add<Output = Self>
    + Sub<Output = Self>
    + Mul<Output = Self>
    + Neg<Output = Self>
    + Zero
    + One
{
    type V: Val;
    const FLOAT: bool = false;
    const ZST: bool = false;
    fn make(v: Self::V) -> Self;
    fn val(&self) -> Self::V;
    fn norm(v: Self::V) -> Self::V;
    fn minmax(_a: &Tensor<Self>, _b: Tensor<Self>, _max: bool) -> Option<Tensor<Self>> {
        None
    }
    /// Operations that exist only for this element type.
    fn float_tensor(_t: &Tensor<Self>) -> Option<&Tensor<f32>> {
        None
    }
    fn from_float(_t: Tensor<f32>) -> Option<Tensor<Self>> {
        None
    }
}

const MAGIC: u64 = 0x51D3_A11E_0BEE_F00D;
const DEAD: u64 = 0xDEAD_DEAD_0000_0001;

fn reg_new() -> u64 {
    let x = g();
    let tag = if TID.get() >= 0 { x.u[TID.get() as usize].tag } else { 0 };
    x.reg.push(Rec { state: 1, tag, dtid: 0, dtag: 0 });
    x.alive += 1;
    x.reg.len() as u64 - 1
}

fn bad_element(magic: u64, id: u64, what: &str) -> ! {
    let m = if magic == DEAD {
        format!("{} of an element that was already dropped (element {})", what, id)
    } else if magic == 0xFFFF_FFFF_FFFF_FFFF {
        format!("{} of memory where no element was ever constructed", what)
    } else if magic == 0xFEFE_FEFE_FEFE_FEFE {
        format!("{} of an element in released storage", what)
    } else {
        format!("{} of something that is not an element ({:#x} {})", what, magic, id)
    };
    rt::violate(if magic == DEAD && what == "drop" { "double_drop" } else { "bad_element" }, &m)
}

fn reg_check(magic: u64, id: u64, v: i64, what: &str) {
    let x = g();
    if magic == DEAD || id >= x.reg.len() as u64 || magic != MAGIC ^ id.rotate_left(20) ^ v as u64 {
        bad_element(magic, id, what);
    }
    let r = x.reg[id as usize];
    if r.state != 1 {
        rt::violate(
            if what == "drop" { "double_drop" } else { "bad_element" },
            &format!("{} of element {} which was dropped before by thread {} (op tag {})", what, id, r.dtid, r.dtag),
        );
    }
}

fn reg_drop(id: u64) {
    let x = g();
    let r = &mut x.reg[id as usize];
    r.state = 2;
    if TID.get() >= 0 {
        r.dtid = TID.get() as u8;
        r.dtag = x.u[TID.get() as usize].tag;
    }
    x.alive -= 1;
}

/// 24 bytes, identity and lifetime tracked.
pub struct P {
    magic: u64,
    id: u64,
    v: i64,
}
impl P {
    fn new(v: i64) -> P {
        let id = reg_new();
        P { magic: MAGIC ^ id.rotate_left(20) ^ v as u64, id, v }
    }
    fn get(&self) -> i64 {
        touch(self, false);
        reg_check(self.magic, self.id, self.v, "use");
        self.v
    }
}
impl Drop for P {
    fn drop(&mut self) {
        let m = MODE.replace(0);
        drop_call(m);
        touch(self, true);
        reg_check(self.magic, self.id, self.v, "drop");
        reg_drop(self.id);
        unsafe { std::ptr::write_volatile(&mut self.magic, DEAD) };
        MODE.set(m);
    }
}

/// Owns a heap block.
pub struct B {
    p: Box<P>,
    w: u64,
}
impl B {
    fn new(v: i64) -> B {
        let p = P::new(v);
        let m = MODE.replace(rt::USER);
        let p = Box::new(p);
        MODE.set(m);
        B { p, w: !(v as u64) }
    }
    fn get(&self) -> i64 {
        touch(self, false);
        let a = &*self.p as *const P as usize;
        if !mem::in_arena(a) {
            rt::violate("bad_element", "use of an element whose owned pointer was never set");
        }
        let v = self.p.get();
        if self.w != !(v as u64) {
            rt::violate("bad_element", "use of an element mixed from two elements");
        }
        v
    }
}
impl Drop for B {
    fn drop(&mut self) {
        let m = MODE.replace(0);
        touch(self, true);
        let a = &*self.p as *const P as usize;
        if !mem::in_arena(a) {
            rt::violate("bad_element", "drop of an element whose owned pointer was never set");
        }
        MODE.set(m);
    }
}

/// Over-aligned.
#[repr(align(64))]
pub struct A {
    p: P,
    pad: [u8; 40],
}
impl A {
    fn new(v: i64) -> A {
        A { p: P::new(v), pad: [v as u8; 40] }
    }
    fn get(&self) -> i64 {
        if (self as *const A as usize) % 64 != 0 {
            rt::violate("misaligned", "an over-aligned element lies at a misaligned address");
        }
        let v = self.p.get();
        if self.pad != [v as u8; 40] {
            rt::violate("bad_element", "an over-aligned element is damaged");
        }
        v
    }
}

/// Three bytes, no padding, no identity.
#[derive(Clone, Copy)]
pub struct S([u8; 3]);
impl S {
    fn new(v: i64) -> S {
        S([v as u8, (v >> 8) as u8, (v >> 16) as u8])
    }
    fn get(&self) -> i64 {
        touch(self, false);
        self.0[0] as i64 | (self.0[1] as i64) << 8 | (self.0[2] as i64) << 16
    }
}

/// Zero-sized, counted.
pub struct Z(());
impl Z {
    fn new(_v: i64) -> Z {
        g().z_made += 1;
        Z(())
    }
    fn get(&self) -> i64 {
        0
    }
}
impl Drop for Z {
    fn drop(&mut self) {
        let m = MODE.replace(0);
        let x = g();
        x.z_dropped += 1;
        if x.z_dropped > x.z_made {
            rt::violate("double_drop", "more zero-sized elements were dropped than were made");
        }
        drop_call(m);
        MODE.set(m);
    }
}

macro_rules! elem {
    ($t:ident, $norm:expr, $clone:item) => {
        impl Type for $t {}
        $clone
        impl Default for $t {
            fn default() -> Self {
                let _g = user(ARITH);
                $t::new(Self::norm(7))
            }
        }
        impl Debug for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                let v = {
                    let _g = user(CLONE);
                    self.get()
                };
                write!(f, "<{}>", v)
            }
        }
        impl PartialEq for $t {
            fn eq(&self, o: &Self) -> bool {
                let _g = user(CLONE);
                self.get() == o.get()
            }
        }
        impl Eq for $t {}
        impl PartialOrd for $t {
            fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
                let _g = user(CLONE);
                self.get().partial_cmp(&o.get())
            }
        }
        impl Ord for $t {
            fn cmp(&self, o: &Self) -> std::cmp::Ordering {
                let _g = user(CLONE);
                self.get().cmp(&o.get())
            }
        }
        impl Add for $t {
            type Output = Self;
            fn add(self, o: Self) -> Self {
                let _g = user(ARITH);
                $t::new(Self::norm(Val::add(self.get(), o.get())))
            }
        }
        impl Sub for $t {
            type Output = Self;
            fn sub(self, o: Self) -> Self {
                let _g = user(ARITH);
                $t::new(Self::norm(Val::sub(self.get(), o.get())))
            }
        }
        impl Mul for $t {
            type Output = Self;
            fn mul(self, o: Self) -> Self {
                let _g = user(ARITH);
                $t::new(Self::norm(Val::mul(self.get(), o.get())))
            }
        }
        impl Neg for $t {
            type Output = Self;
            fn neg(self) -> Self {
                let _g = user(ARITH);
                $t::new(Self::norm(Val::neg(self.get())))
            }
        }
        impl Zero for $t {
            fn zero() -> Self {
                let _g = user(ARITH);
                $t::new(0)
            }
            fn is_zero(&self) -> bool {
                let _g = user(ARITH);
                self.get() == 0
            }
        }
        impl One for $t {
            fn one() -> Self {
                let _g = user(ARITH);
                $t::new(Self::norm(1))
            }
        }
        impl Elem for $t {
            type V = i64;
            const ZST: bool = std::mem::size_of::<$t>() == 0;
            fn make(v: i64) -> Self {
                let _g = quiet();
                $t::new(Self::norm(v))
            }
            fn val(&self) -> i64 {
                let _g = quiet();
                self.get()
            }
            fn norm(v: i64) -> i64 {
                let f: fn(i64) -> i64 = $norm;
                f(v)
            }
            fn minmax(a: &Tensor<Self>, b: Tensor<Self>, max: bool) -> Option<Tensor<Self>> {
                Some(if max { a.max(b) } else { a.min(b) })
            }
        }
    };
}

macro_rules! clone_impl {
    ($t:ident) => {
        elem!($t, |v| v, impl Clone for $t {
            fn clone(&self) -> Self {
                let _g = user(CLONE);
                $t::new(self.get())
            }
        });
    };
}
clone_impl!(P);
clone_impl!(B);
clone_impl!(A);
elem!(Z, |_v| 0, impl Clone for Z {
    fn clone(&self) -> Self {
        let _g = user(CLONE);
        Z::new(0)
    }
});
#[allow(dead_code)]
trait Nop {}
elem!(S, |v| v & 0xff_ffff, impl Nop for S {});

impl Elem for f32 {
    type V = f32;
    const FLOAT: bool = true;
    fn make(v: f32) -> f32 {
        v
    }
    fn val(&self) -> f32 {
        let _g = quiet();
        touch(self, false);
        *self
    }
    fn norm(v: f32) -> f32 {
        v
    }
    fn float_tensor(t: &Tensor<f32>) -> Option<&Tensor<f32>> {
        Some(t)
    }
    fn from_float(t: Tensor<f32>) -> Option<Tensor<f32>> {
        Some(t)
    }
}
