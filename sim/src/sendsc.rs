//! Element types that must not cross threads, inside a tensor (C02).
//! Whether the compiler lets a tensor of such elements be sent or shared is
//! asked with method resolution; if it does, the threads really use it.
use crate::spec::*;
use crate::user::touch;
use crate::world::*;
use essay_tensor::tensor::{Tensor, Type};
use simrt::rt::{self, MODE};
use std::cell::Cell;
use std::marker::PhantomData;
use std::rc::Rc;

pub struct W<T>(pub PhantomData<T>);
pub trait NotSend {
    fn send(&self) -> bool {
        false
    }
}
pub trait YesSend {
    fn send(&self) -> bool {
        true
    }
}
impl<T> NotSend for &W<T> {}
impl<T: Send> YesSend for W<T> {}
pub trait NotSync {
    fn sync(&self) -> bool {
        false
    }
}
pub trait YesSync {
    fn sync(&self) -> bool {
        true
    }
}
impl<T> NotSync for &W<T> {}
impl<T: Sync> YesSync for W<T> {}

/// Not Send, not Sync.
#[derive(Clone, Debug)]
pub struct Rcd(Rc<u64>);
impl Type for Rcd {}
/// Send, not Sync.
#[derive(Clone, Debug)]
pub struct Celld(Cell<u64>);
impl Type for Celld {}
/// Sync, not Send.
#[derive(Clone, Debug)]
pub struct Pinned(u64, PhantomData<std::sync::MutexGuard<'static, u8>>, usize);
impl Type for Pinned {}
impl Drop for Pinned {
    fn drop(&mut self) {
        if self.2 != usize::MAX && self.2 as i32 != rt::TID.get() {
            MODE.set(0);
            rt::violate("thread_unsafe", "an element that must stay in its thread was dropped in another one, in safe code");
        }
    }
}

fn spawn_all(n: usize, f: impl Fn(usize) + Copy + 'static) {
    let mut t = Vec::new();
    for i in 0..n {
        t.push(rt::spawn(Box::new(move || {
            MODE.set(rt::OP);
            f(i);
            MODE.set(rt::OFF);
        })));
    }
    for x in t {
        rt::join(x);
    }
}

pub fn run(spec: &Spec) {
    let n = spec.threads.len().max(2);
    rt::probe(11);
    // usable elements stay usable
    if !(&W::<Tensor<f32>>(PhantomData)).send() || !(&W::<Tensor<f32>>(PhantomData)).sync() {
        rt::violate("thread_unsafe", "a tensor of floats can no longer be shared between threads");
    }
    if (&W::<Tensor<Celld>>(PhantomData)).sync() || (&W::<Tensor<Celld>>(PhantomData)).send() {
        // clones of the handle share the cell, so sending is sharing
        rt::probe(12);
        let t = calm(|| Tensor::<Celld>::from(vec![Celld(Cell::new(1)), Celld(Cell::new(2))]));
        let p = &t as *const Tensor<Celld> as usize;
        spawn_all(n, move |i| {
            let t = unsafe { &*(p as *const Tensor<Celld>) };
            let c = &t.as_slice()[0].0;
            touch(c, true);
            c.set(c.get() + i as u64);
        });
        calm(move || drop(t));
        rt::violate("thread_unsafe", "a tensor of cells can be sent or shared between threads");
    }
    if (&W::<Tensor<Rcd>>(PhantomData)).sync() || (&W::<Tensor<Rcd>>(PhantomData)).send() {
        rt::probe(12);
        MODE.set(rt::USER);
        let e = vec![Rcd(Rc::new(1))];
        MODE.set(rt::OFF);
        let t = calm(|| Tensor::<Rcd>::from(e));
        let p = &t as *const Tensor<Rcd> as usize;
        spawn_all(n, move |_| {
            let t = unsafe { &*(p as *const Tensor<Rcd>) };
            let x = t.as_slice()[0].clone();
            drop(x);
        });
        calm(move || drop(t));
        rt::violate("thread_unsafe", "a tensor of reference-counted elements can be sent or shared between threads");
    }
    if (&W::<Tensor<Pinned>>(PhantomData)).send() || (&W::<Tensor<Pinned>>(PhantomData)).sync() {
        rt::probe(12);
        let t = calm(|| Tensor::<Pinned>::from(vec![Pinned(1, PhantomData, rt::TID.get() as usize)]));
        let b = Box::into_raw(Box::new(t)) as usize;
        spawn_all(1, move |_| {
            let t = unsafe { Box::from_raw(b as *mut Tensor<Pinned>) };
            drop(t);
        });
        rt::violate("thread_unsafe", "a tensor of elements that must stay in their thread can be sent to another");
    }
}
