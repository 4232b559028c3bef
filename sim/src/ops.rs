//! The operations of the simulated program, each with its reference model.
use crate::user::*;
use crate::world::Want::*;
use crate::world::*;
use essay_tensor::array;
use essay_tensor::init;
use essay_tensor::tensor::{scalar, Axis, FoldState, Shape, Tensor};
use simrt::rng::hash2;
use simrt::rt::{self, MODE, TID};
use std::rc::Rc;

// groups
pub const CON: u32 = 1; // construction
pub const VIEW: u32 = 2; // clones, views, reshaping
pub const READ: u32 = 4;
pub const ELW: u32 = 8; // element-wise
pub const CBK: u32 = 16; // takes callbacks
pub const FOLD: u32 = 32;
pub const ARR: u32 = 64;
pub const PROG: u32 = 128; // drops, moves between threads, checks
pub const BAD: u32 = 256; // invalid arguments
pub const NUM: u32 = 512; // float only
pub const SLOW: u32 = 1024;

pub type F<E> = fn(&mut Ctx<E>);
pub struct Tab<E>(std::marker::PhantomData<E>);

macro_rules! tab {
    ($($n:ident $g:expr;)*) => {
        impl<E: Elem> Tab<E> {
            pub const T: &'static [(&'static str, u32, F<E>)] = &[$((stringify!($n), $g, $n::<E>)),*];
        }
    };
}

tab! {
    from_vec CON;
    from_vec_bad CON | BAD;
    from_box CON;
    from_slice CON;
    from_scalar CON;
    from_option CON;
    from_rows CON;
    from_rows_ref CON;
    from_vecvec CON;
    from_vecvec_bad CON | BAD;
    from_nested_bad CON | BAD;
    from_nested CON;
    from_array CON;
    from_iter CON;
    zeros_ones CON;
    fill CON;
    init_fn CON | CBK;
    init_rindexed CON | CBK;
    init_default CON;
    eye_tri CON;
    join_vec CON;
    from_merge CON | ARR;
    append CON | ARR;
    huge_shape CON | BAD;
    clone VIEW;
    clone_many VIEW;
    subslice VIEW;
    subslice_bad VIEW | BAD;
    subslice_flat VIEW;
    subslice_flat_bad VIEW | BAD;
    reshape VIEW;
    reshape_bad VIEW | BAD;
    flatten VIEW;
    squeeze VIEW;
    expand_dims VIEW;
    get READ;
    index READ;
    index_bad READ | BAD;
    iterate READ;
    wrap_slice READ;
    debug_fmt READ;
    equal READ;
    shape_of READ;
    shape_api READ;
    shape_api_bad READ | BAD;
    add_sub_mul ELW;
    arith_bad ELW | BAD;
    neg_square ELW;
    min_max ELW;
    map ELW | CBK;
    map_other ELW | CBK;
    map2 ELW | CBK;
    map2_other ELW | CBK;
    map2_bad ELW | CBK | BAD;
    map3 ELW | CBK;
    map_row ELW | CBK;
    map_expand ELW | CBK;
    fold FOLD | CBK;
    fold_axis FOLD | CBK;
    fold_row FOLD | CBK;
    reduce FOLD | CBK;
    reduce_axis FOLD | CBK;
    reduce_sum FOLD;
    reduce_product FOLD;
    normalize FOLD | CBK;
    fold_bad FOLD | CBK | BAD;
    split ARR;
    split_bad ARR | BAD;
    unstack ARR;
    concatenate ARR;
    concat_lists ARR;
    concat_bad ARR | BAD;
    stack ARR;
    hvd_stack ARR;
    tile ARR;
    tile_bad ARR | BAD;
    transpose ARR;
    tril_triu ARR;
    diagflat ARR;
    meshgrid ARR;
    ints ELW;
    strings CON | ARR;
    drop_one PROG;
    drop_many PROG;
    send PROG;
    recv PROG;
    verify_regs PROG;
}

pub fn names() -> &'static Vec<&'static str> {
    static N: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    N.get_or_init(|| Tab::<P>::T.iter().map(|x| x.0).chain(crate::opsf::T.iter().map(|x| x.0)).collect())
}

pub fn group(code: u16) -> u32 {
    let n = Tab::<P>::T.len();
    let c = code as usize;
    if c < n {
        Tab::<P>::T[c].1
    } else {
        crate::opsf::T[c - n].1 | NUM
    }
}

pub fn exec<E: Elem>(cx: &mut Ctx<E>, code: u16) {
    let n = Tab::<E>::T.len();
    let c = code as usize;
    if c < n {
        (Tab::<E>::T[c].2)(cx)
    } else if E::FLOAT {
        let cx = unsafe { &mut *(cx as *mut Ctx<E> as *mut Ctx<f32>) };
        (crate::opsf::T[c - n].2)(cx)
    }
}

// ------------------------------------------------------------ helpers

pub fn vec_of<T>(n: usize) -> Vec<T> {
    let m = MODE.replace(rt::USER);
    let v = Vec::with_capacity(n);
    MODE.set(m);
    v
}

fn wrong(msg: &str) -> ! {
    rt::violate("wrong_result", msg)
}

/// A `Shape` made in one of the ways a program can.
pub fn shp<E: Elem>(cx: &mut Ctx<E>, s: &[usize]) -> Shape {
    let k = cx.r(4);
    let z = s.iter().any(|d| *d == 0);
    calm(|| match k {
        0 if !z => Shape::from(s.to_vec()),
        1 => match s.len() {
            0 => Shape::scalar(),
            1 => Shape::from(s[0]),
            2 => Shape::from([s[0], s[1]]),
            3 => Shape::from([s[0], s[1], s[2]]),
            4 => Shape::from([s[0], s[1], s[2], s[3]]),
            _ => Shape::from(s),
        },
        2 => Shape::from(&Shape::from(s)),
        _ => Shape::from(s),
    })
}

fn mk<E: Elem>(a: E::V, b: E::V) -> E::V {
    E::norm(a.mix2(b))
}
fn mi<E: Elem>(a: E::V, k: i64) -> E::V {
    E::norm(a.mixk(k))
}

/// A random shape with n elements.
fn refactor<E: Elem>(cx: &mut Ctx<E>, n: usize) -> Vec<usize> {
    if n == 0 {
        return vec![0];
    }
    if n == 1 && cx.one_in(3) {
        return vec![];
    }
    let rank = 1 + cx.r(5);
    let mut s = Vec::new();
    let mut left = n;
    for i in 0..rank {
        if i + 1 == rank {
            s.push(left);
        } else {
            let divs: Vec<usize> = (1..=left.min(64)).filter(|d| left % d == 0).collect();
            let d = divs[cx.r(divs.len())];
            s.push(d);
            left /= d;
        }
    }
    let k = cx.r(rank);
    s.rotate_left(k);
    s
}

pub fn strides(s: &[usize]) -> Vec<usize> {
    let mut r = vec![1; s.len()];
    for i in (0..s.len().saturating_sub(1)).rev() {
        r[i] = r[i + 1] * s[i + 1];
    }
    r
}

/// (outer, len, inner) of an axis.
fn around(s: &[usize], axis: usize) -> (usize, usize, usize) {
    (prod(&s[..axis]), s[axis], prod(&s[axis + 1..]))
}

/// An axis argument: its library form and its meaning.
fn axis_arg<E: Elem>(cx: &mut Ctx<E>, rank: usize) -> (isize, usize) {
    let a = cx.r(rank);
    if cx.one_in(3) {
        (a as isize - rank as isize, a)
    } else {
        (a as isize, a)
    }
}

fn ax<E: Elem>(cx: &mut Ctx<E>, a: isize) -> Axis {
    match cx.r(3) {
        0 => Axis::axis(a),
        1 => Axis::from(Some(a)),
        _ => Axis::from(a),
    }
}

/// A handle passed by value: a register's own handle or a clone.
struct Own<E: Elem> {
    t: Tensor<E>,
    m: Rc<M<E::V>>,
    blk: usize,
}
fn own<E: Elem>(cx: &mut Ctx<E>, f: impl Fn(&M<E::V>) -> bool, mk: impl Fn(&mut Ctx<E>) -> Vec<usize>) -> Own<E> {
    if cx.one_in(2) {
        if let Some(h) = cx.take_if(&f) {
            let (t, m, blk) = Ctx::open(h);
            return Own { t, m, blk };
        }
    }
    let r = match cx.pick_if(&f) {
        Some(r) => r,
        None => {
            let s = mk(cx);
            cx.fresh(s)
        }
    };
    let t = calm(|| r.t.clone());
    Own { t, m: r.m, blk: 0 }
}
fn own_some<E: Elem>(cx: &mut Ctx<E>, lo: usize, hi: usize) -> Own<E> {
    own(cx, |m| m.n() > 0 && m.rank() >= lo && m.rank() <= hi, |cx| {
        let k = lo + cx.r(hi - lo + 1);
        cx.dims(k)
    })
}

/// Drops a result that no expectation is attached to.
pub fn discard<T>(t: Option<T>) {
    if let Some(t) = t {
        calm(move || drop(t));
    }
}

/// Results of sums and products: exact for elements with exact arithmetic,
/// within rounding for floats.
pub fn put_round<E: Elem>(cx: &mut Ctx<E>, t: Tensor<E>, m: M<E::V>, scale: &[f64], tol: f64) {
    if !E::FLOAT {
        cx.put(t, m);
        return;
    }
    let got: Vec<E::V> = t.as_slice().iter().map(|x| x.val()).collect();
    if got.len() != m.vals.len() {
        wrong(&format!("{} elements, expected {}", got.len(), m.vals.len()));
    }
    for i in 0..got.len() {
        let (a, b) = (fv(got[i]), fv(m.vals[i]));
        let s = scale[i.min(scale.len() - 1)];
        if !s.is_finite() || s > 1e30 {
            continue;
        }
        if !((a - b).abs() <= tol * s + 1e-30) {
            wrong(&format!("element {} is {}, expected {} (shape {:?})", i, a, b, m.shape));
        }
    }
    cx.put(t, M::new(m.shape, got));
}
/// The value of a float model element.
pub fn fv<V: Val>(v: V) -> f64 {
    f32::from_bits(v.raw32()) as f64
}

// ------------------------------------------------------------ construction

fn from_vec<E: Elem>(cx: &mut Ctx<E>) {
    let s = cx.shape();
    let v = cx.values(prod(&s));
    let extra = cx.one_in(3);
    let mut e = cx.elems(&v);
    if extra {
        let mut w = vec_of(v.len() + 1 + cx.r(5));
        w.extend(e.drain(..));
        e = w;
    }
    let sh = shp(cx, &s);
    let vecform = s.len() == 1 && cx.one_in(2);
    if let Some(t) = call(Ok, move || if vecform { Tensor::<E>::from(e) } else { Tensor::from_vec(e, sh) }) {
        cx.put(t, M::new(s, v));
    }
}

fn from_vec_bad<E: Elem>(cx: &mut Ctx<E>) {
    let s = cx.shape();
    let n = prod(&s);
    let k = if n > 0 && cx.one_in(2) { cx.r(n) } else { n + 1 + cx.r(3) };
    let v = cx.values(k);
    let e = cx.elems(&v);
    let b = cx.one_in(2);
    let r = call(Panic, move || if b { Tensor::from_box(e.into_boxed_slice(), s.as_slice()) } else { Tensor::from_vec(e, s.as_slice()) });
    discard(r);
}

fn from_box<E: Elem>(cx: &mut Ctx<E>) {
    let s = cx.shape();
    let v = cx.values(prod(&s));
    let e = cx.elems(&v).into_boxed_slice();
    let sh = shp(cx, &s);
    if let Some(t) = call(Ok, move || Tensor::from_box(e, sh)) {
        cx.put(t, M::new(s, v));
    }
}

fn from_slice<E: Elem>(cx: &mut Ctx<E>) {
    if cx.one_in(2) {
        // from another tensor
        let r = cx.pick();
        let n = r.m.n();
        let k = cx.r(3);
        if let Some(t) = call(Ok, || match k {
            0 => Tensor::<E>::from_slice(r.t),
            1 => Tensor::<E>::from(r.t.as_slice()),
            _ => Tensor::<E>::from_slice(r.t.as_slice()),
        }) {
            cx.put(t, M::new(vec![n], r.m.vals.clone()));
        }
    } else {
        let n = cx.len(12);
        let v = cx.values(n);
        let e = cx.elems(&v);
        let k = cx.r(3);
        if let Some(t) = call(Ok, || match k {
            0 => Tensor::<E>::from_slice(&e),
            1 => Tensor::<E>::from(&e),
            _ => Tensor::<E>::from(e.as_slice()),
        }) {
            cx.put(t, M::new(vec![n], v));
        }
    }
}

fn from_scalar<E: Elem>(cx: &mut Ctx<E>) {
    let v = cx.value();
    let e = E::make(v);
    let k = cx.r(3);
    if let Some(t) = call(Ok, move || match k {
        0 => Tensor::from_scalar(e),
        1 => scalar(e),
        _ => Tensor::<E>::from(e),
    }) {
        cx.put(t, M::new(vec![], vec![v]));
    }
}

fn from_option<E: Elem>(cx: &mut Ctx<E>) {
    let v = cx.value();
    let some = cx.one_in(2);
    let e = if some { Some(E::make(v)) } else { None };
    if let Some(t) = call(Ok, move || Tensor::<E>::from(e)) {
        if some {
            cx.put(t, M::new(vec![], vec![v]));
        } else {
            cx.put(t, M::new(vec![0], vec![]));
        }
    }
}

fn rows_of<const N: usize, E: Elem>(v: &[E::V]) -> Vec<[E; N]> {
    let k = if N == 0 { 2 } else { v.len() / N };
    let mut r = vec_of(k);
    for i in 0..k {
        r.push(std::array::from_fn(|j| E::make(v[i * N + j])));
    }
    r
}

fn from_rows<E: Elem>(cx: &mut Ctx<E>) {
    fn go<const N: usize, E: Elem>(cx: &mut Ctx<E>) {
        let k = cx.len(7);
        let v = cx.values(k * N);
        let e = rows_of::<N, E>(&v);
        let k = e.len();
        if let Some(t) = call(Ok, move || Tensor::<E>::from(e)) {
            cx.put(t, M::new(vec![k, N], v));
        }
    }
    match cx.r(9) {
        0 => go::<0, E>(cx),
        1 | 2 => go::<1, E>(cx),
        3 | 4 => go::<2, E>(cx),
        5 | 6 => go::<3, E>(cx),
        _ => go::<5, E>(cx),
    }
}

fn from_rows_ref<E: Elem>(cx: &mut Ctx<E>) {
    fn go<const N: usize, E: Elem>(cx: &mut Ctx<E>) {
        let k = cx.len(7);
        let v = cx.values(k * N);
        let e = rows_of::<N, E>(&v);
        let k = e.len();
        let sl = cx.one_in(2);
        if let Some(t) = call(Ok, || if sl { Tensor::<E>::from(e.as_slice()) } else { Tensor::<E>::from(&e) }) {
            cx.put(t, M::new(vec![k, N], v));
        }
    }
    match cx.r(3) {
        0 => go::<1, E>(cx),
        1 => go::<2, E>(cx),
        _ => go::<4, E>(cx),
    }
}

fn vv<E: Elem>(cx: &mut Ctx<E>, v: &[E::V], cols: usize) -> Vec<Vec<E>> {
    let mut r = Vec::new();
    for row in v.chunks(cols.max(1)) {
        r.push(cx.elems(row));
    }
    r
}

fn from_vecvec<E: Elem>(cx: &mut Ctx<E>) {
    let (a, b) = (1 + cx.len(5).min(3000), 1 + cx.r(5));
    let (a, b) = if cx.one_in(2) { (a, b) } else { (b, a) };
    let v = cx.values(a * b);
    let e = vv(cx, &v, b);
    if let Some(t) = call(Ok, || Tensor::<E>::from(&e)) {
        cx.put(t, M::new(vec![a, b], v));
    }
}

fn from_vecvec_bad<E: Elem>(cx: &mut Ctx<E>) {
    let (a, b) = (2 + cx.r(4), 1 + cx.r(5));
    let v = cx.values(a * b);
    let mut e = vv(cx, &v, b);
    match cx.r(4) {
        0 => {
            // ragged with the right total
            let x = e[a - 1].pop().unwrap();
            e[0].push(x);
            if a == 2 && false {
                return;
            }
        }
        1 => {
            e[a - 1].pop();
        }
        2 => {
            let w = cx.values(1);
            let mut w = cx.elems(&w);
            e[a - 1].append(&mut w);
        }
        _ => {
            // ragged at the third level
            let e3 = vec![e];
            let mut e3 = e3;
            let v2 = cx.values(a * (b + 1));
            e3.push(vv(cx, &v2, b + 1));
            let r = call(Panic, || Tensor::<E>::from(&e3));
            discard(r);
            return;
        }
    }
    let r = call(Panic, || Tensor::<E>::from(&e));
    discard(r);
}

fn from_nested<E: Elem>(cx: &mut Ctx<E>) {
    let s: Vec<usize> = (0..5).map(|_| 1 + cx.r(3)).collect();
    let k = cx.r(4);
    match k {
        0 => {
            let v = cx.values(s[0] * s[1] * s[2]);
            let mut e = Vec::new();
            for x in v.chunks(s[1] * s[2]) {
                e.push(vv(cx, x, s[2]));
            }
            if let Some(t) = call(Ok, || Tensor::<E>::from(&e)) {
                cx.put(t, M::new(s[..3].to_vec(), v));
            }
        }
        1 => {
            let v = cx.values(prod(&s[..4]));
            let mut e = Vec::new();
            for x in v.chunks(prod(&s[1..4])) {
                let mut f = Vec::new();
                for y in x.chunks(prod(&s[2..4])) {
                    f.push(vv(cx, y, s[3]));
                }
                e.push(f);
            }
            if let Some(t) = call(Ok, || Tensor::<E>::from(&e)) {
                cx.put(t, M::new(s[..4].to_vec(), v));
            }
        }
        2 => {
            let v = cx.values(prod(&s));
            let mut e = Vec::new();
            for x in v.chunks(prod(&s[1..])) {
                let mut f = Vec::new();
                for y in x.chunks(prod(&s[2..])) {
                    let mut h = Vec::new();
                    for z in y.chunks(prod(&s[3..])) {
                        h.push(vv(cx, z, s[4]));
                    }
                    f.push(h);
                }
                e.push(f);
            }
            if let Some(t) = call(Ok, || Tensor::<E>::from(&e)) {
                cx.put(t, M::new(s.clone(), v));
            }
        }
        _ => {
            let v = cx.values(s[0] * s[1] * 2);
            let mut e = Vec::new();
            for x in v.chunks(s[1] * 2) {
                e.push(rows_of::<2, E>(x));
            }
            if let Some(t) = call(Ok, || Tensor::<E>::from(&e)) {
                cx.put(t, M::new(vec![s[0], s[1], 2], v));
            }
        }
    }
}

/// Moves one item to another list or loses it, so that the nesting is ragged.
fn ragged<E: Elem, T>(cx: &mut Ctx<E>, v: Vec<&mut Vec<T>>) {
    let mut v = v;
    let i = cx.r(v.len());
    let x = v[i].pop();
    if cx.one_in(4) {
        return;
    }
    let j = (i + 1 + cx.r(v.len() - 1)) % v.len();
    if let Some(x) = x {
        v[j].push(x);
    }
}

fn from_nested_bad<E: Elem>(cx: &mut Ctx<E>) {
    let s: Vec<usize> = (0..5).map(|_| 2 + cx.r(2)).collect();
    match cx.r(4) {
        0 => {
            let v = cx.values(prod(&s[..3]));
            let mut e: Vec<Vec<Vec<E>>> = v.chunks(s[1] * s[2]).map(|x| vv(cx, x, s[2])).collect();
            match cx.r(2) {
                0 => ragged(cx, e.iter_mut().collect()),
                _ => ragged(cx, e.iter_mut().flatten().collect()),
            }
            discard(call(Panic, || Tensor::<E>::from(&e)));
        }
        1 => {
            let v = cx.values(prod(&s[..4]));
            let mut e: Vec<Vec<Vec<Vec<E>>>> =
                v.chunks(prod(&s[1..4])).map(|x| x.chunks(s[2] * s[3]).map(|y| vv(cx, y, s[3])).collect()).collect();
            match cx.r(3) {
                0 => ragged(cx, e.iter_mut().collect()),
                1 => ragged(cx, e.iter_mut().flatten().collect()),
                _ => ragged(cx, e.iter_mut().flatten().flatten().collect()),
            }
            discard(call(Panic, || Tensor::<E>::from(&e)));
        }
        2 => {
            let v = cx.values(prod(&s));
            let mut e: Vec<Vec<Vec<Vec<Vec<E>>>>> = v
                .chunks(prod(&s[1..]))
                .map(|x| x.chunks(prod(&s[2..])).map(|y| y.chunks(s[3] * s[4]).map(|z| vv(cx, z, s[4])).collect()).collect())
                .collect();
            match cx.r(4) {
                0 => ragged(cx, e.iter_mut().collect()),
                1 => ragged(cx, e.iter_mut().flatten().collect()),
                2 => ragged(cx, e.iter_mut().flatten().flatten().collect()),
                _ => ragged(cx, e.iter_mut().flatten().flatten().flatten().collect()),
            }
            discard(call(Panic, || Tensor::<E>::from(&e)));
        }
        _ => {
            let v = cx.values(s[0] * s[1] * 2);
            let mut e: Vec<Vec<[E; 2]>> = v.chunks(s[1] * 2).map(|x| rows_of::<2, E>(x)).collect();
            ragged(cx, e.iter_mut().collect());
            discard(call(Panic, || Tensor::<E>::from(&e)));
        }
    }
}

fn from_array<E: Elem>(cx: &mut Ctx<E>) {
    let k = cx.r(5);
    let n = [0, 4, 6, 12, 16][k];
    let v = cx.values(n);
    let r = match k {
        0 => {
            let e: [E; 0] = [];
            (call(Ok, move || Tensor::<E>::from(e)), vec![0])
        }
        1 => {
            let e: [E; 4] = std::array::from_fn(|i| E::make(v[i]));
            (call(Ok, move || Tensor::<E>::from(e)), vec![4])
        }
        2 => {
            let e: [[E; 3]; 2] = std::array::from_fn(|j| std::array::from_fn(|i| E::make(v[j * 3 + i])));
            (call(Ok, move || Tensor::<E>::from(e)), vec![2, 3])
        }
        3 => {
            let e: [[[E; 3]; 2]; 2] =
                std::array::from_fn(|l| std::array::from_fn(|j| std::array::from_fn(|i| E::make(v[(l * 2 + j) * 3 + i]))));
            (call(Ok, move || Tensor::<E>::from(e)), vec![2, 2, 3])
        }
        _ => {
            let e: [[[[E; 2]; 2]; 2]; 2] = std::array::from_fn(|m| {
                std::array::from_fn(|l| std::array::from_fn(|j| std::array::from_fn(|i| E::make(v[((m * 2 + l) * 2 + j) * 2 + i]))))
            });
            (call(Ok, move || Tensor::<E>::from(e)), vec![2, 2, 2, 2])
        }
    };
    if let (Some(t), s) = r {
        cx.put(t, M::new(s, v));
    }
}

fn from_iter<E: Elem>(cx: &mut Ctx<E>) {
    let n = cx.len(20);
    let v = cx.values(n);
    if cx.one_in(2) {
        let mut i = 0;
        let vv = &v;
        let r = call(Ok, || {
            std::iter::from_fn(|| {
                let _g = user(CB);
                if i < vv.len() {
                    i += 1;
                    Some(E::make(vv[i - 1]))
                } else {
                    None
                }
            })
            .collect::<Tensor<E>>()
        });
        if let Some(t) = r {
            cx.put(t, M::new(vec![n], v));
        }
    } else {
        let r = cx.pick();
        let k = cx.one_in(2);
        let t = call(Ok, || if k { r.t.iter().collect::<Tensor<E>>() } else { r.t.into_iter().collect::<Tensor<E>>() });
        if let Some(t) = t {
            cx.put(t, M::new(vec![r.m.n()], r.m.vals.clone()));
        }
    }
}

fn zeros_ones<E: Elem>(cx: &mut Ctx<E>) {
    let s = cx.shape();
    let sh = shp(cx, &s);
    let k = cx.r(4);
    let one = k & 1 == 1;
    // num_traits' values for floats, the element's own for the others
    let v = if E::FLOAT { E::V::from_i(one as i64) } else { E::norm(E::V::from_i(one as i64)) };
    if let Some(t) = call(Ok, move || match k {
        0 => Tensor::<E>::zeros(sh),
        1 => Tensor::<E>::ones(sh),
        2 => init::zeros::<E>(sh),
        _ => init::ones::<E>(sh),
    }) {
        let n = prod(&s);
        cx.put(t, M::new(s, vec![v; n]));
    }
}

fn fill<E: Elem>(cx: &mut Ctx<E>) {
    let s = cx.shape();
    let sh = shp(cx, &s);
    let v = cx.value();
    let e = E::make(v);
    let k = cx.one_in(2);
    if let Some(t) = call(Ok, move || if k { Tensor::<E>::fill(sh, e) } else { init::fill(sh, e) }) {
        let n = prod(&s);
        cx.put(t, M::new(s, vec![v; n]));
    }
}

fn init_fn<E: Elem>(cx: &mut Ctx<E>) {
    let s = cx.shape();
    let sh = shp(cx, &s);
    let n = prod(&s);
    let k0 = cx.value();
    let mut i = 0i64;
    let r = call(Ok, move || {
        Tensor::<E>::init(sh, move || {
            let _g = user(CB);
            log(i as u64);
            i += 1;
            E::make(mi::<E>(k0, i))
        })
    });
    check_log(r.is_some(), (0..n).map(|i| i as u64));
    if let Some(t) = r {
        cx.put(t, M::new(s, (0..n).map(|i| mi::<E>(k0, i as i64 + 1)).collect()));
    }
}

fn hidx(i: &[usize]) -> u64 {
    let mut h = i.len() as u64;
    for x in i {
        h = hash2(h, *x as u64);
    }
    h
}

fn init_rindexed<E: Elem>(cx: &mut Ctx<E>) {
    let s = cx.shape();
    let sh = shp(cx, &s);
    let n = prod(&s);
    let k0 = cx.value();
    let r = call(Ok, move || {
        Tensor::<E>::init_rindexed(sh, move |ix| {
            let _g = user(CB);
            let h = hidx(ix);
            log(h);
            E::make(mi::<E>(k0, h as i64 >> 8))
        })
    });
    let st = strides(&s);
    let hs: Vec<u64> = (0..n)
        .map(|k| {
            let ix: Vec<usize> = (0..s.len()).rev().map(|d| k / st[d] % s[d]).collect();
            hidx(&ix)
        })
        .collect();
    check_log(r.is_some(), hs.iter().copied());
    if let Some(t) = r {
        cx.put(t, M::new(s, hs.iter().map(|h| mi::<E>(k0, *h as i64 >> 8)).collect()));
    }
}

fn init_default<E: Elem>(cx: &mut Ctx<E>) {
    let s = cx.shape();
    let sh = shp(cx, &s);
    if let Some(t) = call(Ok, move || Tensor::<E>::init_default(sh)) {
        let n = prod(&s);
        let d = E::norm(E::V::from_i(if E::FLOAT { 0 } else { 7 }));
        cx.put(t, M::new(s, vec![d; n]));
    }
}

fn eye_tri<E: Elem>(cx: &mut Ctx<E>) {
    let n = cx.len(7).min(150);
    let k = cx.r(5);
    let one = E::norm(E::V::from_i(1));
    let zero = E::norm(E::V::from_i(0));
    let r = call(Ok, move || match k {
        0 => Tensor::<E>::eye(n),
        1 => Tensor::<E>::identity(n),
        2 => init::eye::<E>(n),
        3 => Tensor::<E>::tri(n),
        _ => init::tri::<E>(n),
    });
    if let Some(t) = r {
        if k < 3 && n == 0 {
            cx.put(t, M::new(vec![], vec![zero]));
            return;
        }
        let mut v = Vec::new();
        for j in 0..n {
            for i in 0..n {
                v.push(if i == j || (k >= 3 && i < j) { one } else { zero });
            }
        }
        cx.put(t, M::new(vec![n, n], v));
    }
}

fn join_vec<E: Elem>(cx: &mut Ctx<E>) {
    let k = cx.len(4).min(40);
    let mut all = Vec::new();
    let mut e = Vec::new();
    for _ in 0..k {
        let n = cx.len(5).min(2000);
        let v = cx.values(n);
        e.push(cx.elems(&v));
        all.extend(v);
    }
    if let Some(t) = call(Ok, || Tensor::<E>::join_vec(&e)) {
        cx.put(t, M::new(vec![all.len()], all));
    }
}

fn from_merge<E: Elem>(cx: &mut Ctx<E>) {
    let k = if cx.one_in(8) { 1 + cx.r(12) } else { 1 + cx.r(3) };
    let mut list = Vec::new();
    let mut all = Vec::new();
    for _ in 0..k {
        let r = cx.pick();
        list.push(calm(|| r.t.clone()));
        all.extend(r.m.vals.iter().copied());
    }
    let bad = cx.one_in(6);
    let s = if bad { vec![all.len() + 1] } else { refactor(cx, all.len()) };
    let sh = calm(|| Shape::from(s.as_slice()));
    let r = call(if bad { Panic } else { Ok }, || Tensor::from_merge(&list, sh));
    calm(move || drop(list));
    if let Some(t) = r {
        cx.put(t, M::new(s, all));
    }
}

fn append<E: Elem>(cx: &mut Ctx<E>) {
    let a = cx.pick_rank(1, 4);
    let bad = cx.one_in(6);
    let mut s = a.m.shape.clone();
    let row = prod(&s[1..]);
    s[0] = (1 + cx.len(4)).min(1 + 30_000 / row);
    if bad && s.len() > 1 {
        s[1] += 1;
    }
    let bad = bad && s.len() > 1;
    let b = cx.fresh(s.clone());
    let by_ref = cx.one_in(2);
    let r = call(if bad { Panic } else { Ok }, || if by_ref { a.t.append(b.t) } else { a.t.append(b.t.clone()) });
    if let Some(t) = r {
        let mut o = a.m.shape.clone();
        o[0] += s[0];
        let mut v = a.m.vals.clone();
        v.extend(b.m.vals.iter().copied());
        cx.put(t, M::new(o, v));
    }
}

/// Shapes whose number of elements or dimensions do not fit.
fn huge_shape<E: Elem>(cx: &mut Ctx<E>) {
    let k = cx.r(7);
    let v = cx.value();
    if E::ZST && matches!(k, 0 | 5 | 6) {
        return;
    }
    let cap = rt::st().th[TID.get() as usize].alloc_cap;
    if matches!(k, 0 | 5 | 6) {
        // an implementation that grows its buffer step by step gets there too
        rt::st().th[TID.get() as usize].alloc_cap = 1 << 20;
    }
    let r = match k {
        0 => call(Panic, || Tensor::<E>::init([1 << 20, 1 << 20, 1 << 20, 1 << 20], || E::make(v))),
        1 => {
            // wraps around to the number of elements given
            let e = cx.elems(&[]);
            call(Panic, move || Tensor::from_vec(e, [1usize << 31, 1 << 31, 4]))
        }
        2 => {
            let n = 1 + cx.r(4);
            let w = cx.values(n);
            let e = cx.elems(&w);
            call(Panic, move || Tensor::from_vec(e, [(1usize << 32) + n]))
        }
        3 => {
            let r = cx.pick_rank(1, 3);
            let n = r.m.n();
            let t = calm(|| r.t.clone());
            call(Panic, move || t.reshape([1usize << 32 | n]))
        }
        4 => {
            let r = cx.pick_rank(1, 3);
            let n = r.m.n();
            let t = calm(|| r.t.clone());
            // n * 2^64 elements
            call(Panic, move || t.reshape([n, 1 << 31, 1 << 31, 4]))
        }
        5 => {
            let r = cx.pick_rank(1, 3);
            call(Panic, || r.t.tile(vec![1usize << 31, 1 << 31, 4]))
        }
        _ => call(Panic, || Tensor::<E>::fill([1usize << 31, 1 << 31], E::make(v))),
    };
    rt::st().th[TID.get() as usize].alloc_cap = cap;
    discard(r);
}

// ------------------------------------------------------------ views

fn clone<E: Elem>(cx: &mut Ctx<E>) {
    let r = cx.pick();
    let k = cx.one_in(2);
    if let Some(t) = call(Ok, || if k { r.t.clone() } else { Tensor::<E>::from(r.t) }) {
        cx.put_rc(t, r.m.clone(), r.blk);
    }
}

fn clone_many<E: Elem>(cx: &mut Ctx<E>) {
    let r = cx.pick();
    if !cx.nested && cx.one_in(24) {
        // a crowd of handles alive at the same time
        let n = if cx.one_in(12) { 65_530 + cx.r(20) } else { 120 + cx.r(200) };
        let mut v: Vec<Tensor<E>> = Vec::with_capacity(n);
        for _ in 0..n {
            let t = if r.m.rank() > 0 && r.m.n() > 0 && cx.one_in(8) {
                call(Ok, || r.t.subslice(0, 1))
            } else {
                call(Ok, || r.t.clone())
            };
            match t {
                Some(t) => v.push(t),
                None => break,
            }
        }
        verify(r.t, &r.m, "contents_changed", true);
        if cx.one_in(2) {
            v.reverse();
        }
        while let Some(t) = v.pop() {
            calm(move || drop(t));
        }
        verify(r.t, &r.m, "contents_changed", true);
        return;
    }
    for _ in 0..1 + cx.r(4) {
        if let Some(t) = call(Ok, || r.t.clone()) {
            cx.put_rc(t, r.m.clone(), r.blk);
        }
    }
    while cx.regs.len() > 5 {
        let i = cx.r(cx.regs.len());
        let h = cx.regs.remove(i);
        cx.drop_h(h);
    }
}

fn subslice<E: Elem>(cx: &mut Ctx<E>) {
    let r = cx.pick_rank(1, 6);
    let d = r.m.shape[0];
    let a = cx.r(d);
    let n = 1 + cx.r(d - a);
    if let Some(t) = call(Ok, || r.t.subslice(a, n)) {
        let k = r.m.n() / d;
        let mut s = r.m.shape.clone();
        s[0] = n;
        cx.put_hint(t, M::new(s, r.m.vals[a * k..(a + n) * k].to_vec()), r.blk);
    }
}

fn subslice_bad<E: Elem>(cx: &mut Ctx<E>) {
    let r = cx.pick_rank(0, 6);
    let d = r.m.shape.first().copied().unwrap_or(0);
    let (a, n) = match cx.r(6) {
        0 => (0, d + 1),
        1 => (d, 1),
        2 => (cx.r(d + 1), d + 1),
        3 => (d + 1 + cx.r(9), 1),
        4 => (usize::MAX, 1 + cx.r(2)),
        _ => (usize::MAX - cx.r(d + 1), d + 1),
    };
    let x = call_bad(r.t.as_slice(), || r.t.subslice(a, n), |t| vec![span_of(t)]);
    discard(x);
}

fn subslice_flat<E: Elem>(cx: &mut Ctx<E>) {
    let r = cx.pick();
    let n = r.m.n();
    let a = cx.r(n + 1);
    let k = cx.r(n - a + 1);
    let s = refactor(cx, k);
    let sh = shp(cx, &s);
    if let Some(t) = call(Ok, || r.t.subslice_flat(a, k, sh)) {
        cx.put_hint(t, M::new(s, r.m.vals[a..a + k].to_vec()), r.blk);
    }
}

fn subslice_flat_bad<E: Elem>(cx: &mut Ctx<E>) {
    let r = cx.pick();
    let n = r.m.n();
    let all = r.t.as_slice();
    let x = match cx.r(7) {
        0 => call_bad(all, || r.t.subslice_flat(1, n, [n]), |t| vec![span_of(t)]),
        1 => call_bad(all, || r.t.subslice_flat(n + 1, 1, [1usize]), |t| vec![span_of(t)]),
        2 => call_bad(all, || r.t.subslice_flat(0, n, [n + 1]), |t| vec![span_of(t)]),
        5 if n > 1 => {
            // an empty shape does not describe several elements
            let k = 2 + cx.r(n - 1);
            call_bad(all, || r.t.subslice_flat(0, k, [0usize]), |t| vec![span_of(t)])
        }
        6 if n > 1 => {
            let k = 1 + cx.r(n - 1);
            call_bad(all, || r.t.subslice_flat(n - k, k + 1, [k + 1]), |t| vec![span_of(t)])
        }
        3 if n > 0 => call_bad(all, || r.t.subslice_flat(1, usize::MAX, [4294967295usize, 641, 6700417]), |t| vec![span_of(t)]),
        _ => call_bad(all, || r.t.subslice_flat(n, 2, [2usize]), |t| vec![span_of(t)]),
    };
    discard(x);
}

fn reshape<E: Elem>(cx: &mut Ctx<E>) {
    let o = own(cx, |_| true, |cx| cx.shape());
    let s = refactor(cx, o.m.n());
    let sh = shp(cx, &s);
    let t = o.t;
    let r = call(Ok, move || t.reshape(sh));
    if let Some(t) = r {
        cx.put_hint(t, M::new(s, o.m.vals.clone()), o.blk);
    }
    cnt_end(o.blk);
}

fn reshape_bad<E: Elem>(cx: &mut Ctx<E>) {
    let o = own(cx, |_| true, |cx| cx.shape());
    let n = o.m.n();
    let s = match cx.r(3) {
        0 => vec![n + 1],
        1 => vec![n + 1, 2],
        _ => vec![2, n.max(1)],
    };
    let t = o.t;
    let r = call(Panic, move || t.reshape(s.as_slice()));
    discard(r);
    cnt_end(o.blk);
}

fn flatten<E: Elem>(cx: &mut Ctx<E>) {
    let o = own(cx, |_| true, |cx| cx.shape());
    let t = o.t;
    if let Some(t) = call(Ok, move || t.flatten()) {
        cx.put_hint(t, M::new(vec![o.m.n()], o.m.vals.clone()), o.blk);
    }
    cnt_end(o.blk);
}

fn squeeze<E: Elem>(cx: &mut Ctx<E>) {
    let o = if cx.one_in(2) {
        let mut d = cx.dims(4);
        for x in d.iter_mut() {
            if cx.one_in(2) {
                *x = 1;
            }
        }
        cx.fresh(d);
        let (t, m, blk) = Ctx::open(cx.regs.pop().unwrap());
        Own { t, m, blk }
    } else {
        own_some(cx, 0, 6)
    };
    let rank = o.m.rank();
    let t = o.t;
    let (r, mut s) = if rank == 0 || cx.one_in(2) {
        let k = cx.one_in(2);
        let s: Vec<usize> = o.m.shape.iter().copied().filter(|d| *d != 1).collect();
        (call(Ok, move || if k { t.squeeze() } else { t.squeeze_axis(None) }), s)
    } else {
        let (a, i) = axis_arg(cx, rank);
        let x = ax(cx, a);
        let mut s = o.m.shape.clone();
        if s[i] == 1 {
            s.remove(i);
        }
        (call(Ok, move || t.squeeze_axis(x)), s)
    };
    if s.is_empty() {
        s.push(1);
    }
    if let Some(t) = r {
        cx.put_hint(t, M::new(s, o.m.vals.clone()), o.blk);
    }
    cnt_end(o.blk);
}

fn expand_dims<E: Elem>(cx: &mut Ctx<E>) {
    let o = own_some(cx, 0, 5);
    let rank = o.m.rank();
    let t = o.t;
    let bad = cx.one_in(8);
    let i = cx.r(rank + 1);
    let a = if bad {
        rank as isize + 1 + cx.r(3) as isize
    } else if cx.one_in(3) {
        i as isize - rank as isize - 1
    } else {
        i as isize
    };
    let x = ax(cx, a);
    let r = call(if bad { Panic } else { Ok }, move || t.expand_dims(x));
    if let Some(t) = r {
        let mut s = o.m.shape.clone();
        s.insert(i, 1);
        cx.put_hint(t, M::new(s, o.m.vals.clone()), o.blk);
    }
    cnt_end(o.blk);
}

// ------------------------------------------------------------ reads

fn same_at<E: Elem>(x: &E, m: &M<E::V>, i: usize, what: &str) {
    let v = x.val();
    if !v.same(m.vals[i]) {
        wrong(&format!("{} of element {} is {:?}, expected {:?} (shape {:?})", what, i, v, m.vals[i], m.shape));
    }
}

fn get<E: Elem>(cx: &mut Ctx<E>) {
    let r = cx.pick();
    let n = r.m.n();
    for _ in 0..3 {
        let i = match cx.r(5) {
            0 => n,
            1 => n + 1 + cx.r(20),
            2 => usize::MAX - cx.r(3),
            _ => cx.r(n.max(1)),
        };
        if let Some(x) = call(Ok, || r.t.get(i)) {
            match x {
                Some(x) if i < n => same_at(x, &r.m, i, "get"),
                None if i >= n => {}
                Some(_) => wrong(&format!("get({}) of {} elements returned an element", i, n)),
                None => wrong(&format!("get({}) of {} elements returned none", i, n)),
            }
        }
    }
}

fn index<E: Elem>(cx: &mut Ctx<E>) {
    let r = cx.pick_some();
    let s = &r.m.shape;
    let i = cx.r(r.m.n());
    if let Some(x) = call(Ok, || &r.t[i]) {
        same_at(x, &r.m, i, "index");
    }
    if s.len() >= 2 && s.len() <= 5 {
        let st = strides(s);
        let x: Vec<usize> = (0..s.len()).map(|d| i / st[d] % s[d]).collect();
        let y = call(Ok, || match s.len() {
            2 => &r.t[(x[0], x[1])],
            3 => &r.t[(x[0], x[1], x[2])],
            4 => &r.t[(x[0], x[1], x[2], x[3])],
            _ => &r.t[(x[0], x[1], x[2], x[3], x[4])],
        });
        if let Some(y) = y {
            same_at(y, &r.m, i, "multi-dimensional index");
        }
    }
}

fn index_bad<E: Elem>(cx: &mut Ctx<E>) {
    let r = cx.pick();
    let s = &r.m.shape;
    let n = r.m.n();
    if s.len() >= 2 && s.len() <= 5 && n > 0 && n < 200 && cx.one_in(2) {
        let mut x: Vec<usize> = s.iter().map(|d| cx.r(*d)).collect();
        let k = cx.r(s.len());
        x[k] = s[k] + cx.r(3);
        let y = call_bad(r.t.as_slice(), || match s.len() {
            2 => &r.t[(x[0], x[1])],
            3 => &r.t[(x[0], x[1], x[2])],
            4 => &r.t[(x[0], x[1], x[2], x[3])],
            _ => &r.t[(x[0], x[1], x[2], x[3], x[4])],
        }, |x| vec![(*x as *const E as usize, std::mem::size_of::<E>())]);
        discard(y);
    } else {
        let i = if cx.one_in(4) { usize::MAX } else { n + cx.r(3) };
        let y = call_bad(r.t.as_slice(), || &r.t[i], |x| vec![(*x as *const E as usize, std::mem::size_of::<E>())]);
        discard(y);
    }
}

fn iterate<E: Elem>(cx: &mut Ctx<E>) {
    let r = cx.pick();
    match cx.r(4) {
        0 => {
            if let Some(it) = call(Ok, || r.t.iter()) {
                if it.len() != r.m.n() {
                    wrong("iter() has the wrong length");
                }
                for (i, x) in it.enumerate() {
                    same_at(x, &r.m, i, "iter");
                }
            }
        }
        1 => {
            if let Some(it) = call(Ok, || r.t.into_iter()) {
                if it.len() != r.m.n() {
                    wrong("into_iter() has the wrong length");
                }
                for (i, x) in it.enumerate() {
                    same_at(x, &r.m, i, "into_iter");
                }
            }
        }
        2 => {
            if r.m.n() == 0 {
                return;
            }
            if let Some(it) = call(Ok, || r.t.iter_row()) {
                let c = if r.m.rank() > 1 { r.m.cols() } else { 1 };
                if it.len() != r.m.n() / c {
                    wrong("iter_row() has the wrong length");
                }
                for (j, row) in it.enumerate() {
                    if row.len() != c {
                        wrong("iter_row() yields a row of the wrong length");
                    }
                    for (i, x) in row.iter().enumerate() {
                        same_at(x, &r.m, j * c + i, "iter_row");
                    }
                }
            }
        }
        _ => {
            if let Some(s) = call(Ok, || {
                let a: &[E] = r.t.as_ref();
                let b: &[E] = &**r.t;
                (a, b)
            }) {
                if s.0.len() != r.m.n() || s.1.len() != r.m.n() {
                    wrong("the slice has the wrong length");
                }
                for i in 0..s.0.len() {
                    same_at(&s.0[i], &r.m, i, "as_ref");
                    same_at(&s.1[i], &r.m, i, "deref");
                }
            }
        }
    }
}

fn wrap_slice<E: Elem>(cx: &mut Ctx<E>) {
    let r = cx.pick_some();
    let n = r.m.n();
    let off = cx.r(3 * n + 1);
    let c = off % n;
    if cx.one_in(4) {
        if let Some(x) = call(Ok, || unsafe { &*r.t.as_wrap_ptr(off) }) {
            same_at(x, &r.m, c, "as_wrap_ptr");
        }
    } else if cx.one_in(2) {
        if let Some(s) = call(Ok, || r.t.as_wrap_slice(off)) {
            if s.len() != n - c {
                wrong(&format!("as_wrap_slice({}) of {} elements has length {}", off, n, s.len()));
            }
            for (i, x) in s.iter().enumerate() {
                same_at(x, &r.m, c + i, "as_wrap_slice");
            }
        }
    } else {
        let len = cx.r(n + 3);
        if len > n - c {
            call_bad(r.t.as_slice(), || r.t.as_wrap_slice_n(off, len), |s| vec![(s.as_ptr() as usize, std::mem::size_of_val(*s))]);
            return;
        }
        if let Some(s) = call(Ok, || r.t.as_wrap_slice_n(off, len)) {
            if s.len() != len {
                wrong("as_wrap_slice_n has the wrong length");
            }
            for (i, x) in s.iter().enumerate() {
                same_at(x, &r.m, c + i, "as_wrap_slice_n");
            }
        }
    }
}

fn debug_fmt<E: Elem>(cx: &mut Ctx<E>) {
    let r = match cx.pick_if(|m| m.n() > 0 && m.n() <= 400) {
        Some(r) => r,
        None => cx.fresh(vec![2, 3]),
    };
    let s = call(Ok, || format!("{:?}", r.t));
    if let Some(s) = s {
        if !E::FLOAT {
            let mut got = Vec::new();
            for p in s.split('<').skip(2) {
                if let Some(x) = p.split('>').next().and_then(|x| x.parse::<i64>().ok()) {
                    got.push(x as u64);
                }
            }
            let want: Vec<u64> = r.m.vals.iter().map(|v| v.bits()).collect();
            if got != want {
                wrong(&format!("the debug form shows other elements: {}", &s.chars().take(300).collect::<String>()));
            }
        }
        calm(move || drop(s));
    }
}

fn equal<E: Elem>(cx: &mut Ctx<E>) {
    let mut a = cx.pick();
    let k = cx.r(5);
    let sh = a.m.shape.clone();
    let b = match k {
        0 => cx.pick(),
        4 => {
            // another window of the same storage, or the same one
            let n = a.m.n();
            if a.m.rank() == 1 && n > 1 {
                let (i, k) = (cx.r(n / 2 + 1), n - n / 2);
                let (t, u) = (calm(|| a.t.subslice(0, k)), calm(|| a.t.subslice(i.min(n - k), k)));
                let i = i.min(n - k);
                cx.put_hint(t, M::new(vec![k], a.m.vals[..k].to_vec()), a.blk);
                cx.put_hint(u, M::new(vec![k], a.m.vals[i..i + k].to_vec()), a.blk);
                a = cx.rf(cx.regs.len() - 2);
                cx.rf(cx.regs.len() - 1)
            } else {
                match cx.pick_if(|m| m.shape == sh) {
                    Some(b) => b,
                    None => {
                        let t = calm(|| a.t.clone());
                        cx.put_rc(t, a.m.clone(), a.blk);
                        cx.rf(cx.regs.len() - 1)
                    }
                }
            }
        }
        1 => cx.fresh_with(a.m.shape.clone(), a.m.vals.clone()),
        2 if a.m.n() > 0 => {
            let mut v = a.m.vals.clone();
            let i = cx.r(v.len());
            v[i] = cx.value();
            cx.fresh_with(a.m.shape.clone(), v)
        }
        _ => {
            let s = refactor(cx, a.m.n());
            cx.fresh_with(s, a.m.vals.clone())
        }
    };
    let want = a.m.shape == b.m.shape && a.m.vals == b.m.vals;
    if let Some(x) = call(Ok, || a.t == b.t) {
        if x != want {
            wrong(&format!("== is {}, expected {}", x, want));
        }
    }
    let mut o = Some(a.m.n().cmp(&b.m.n()));
    for i in 0..a.m.n().min(b.m.n()) {
        let c = a.m.vals[i].lt(b.m.vals[i]);
        if c != Some(std::cmp::Ordering::Equal) {
            o = c;
            break;
        }
    }
    if let Some(x) = call(Ok, || a.t.partial_cmp(b.t)) {
        if x != o {
            wrong(&format!("partial_cmp is {:?}, expected {:?}", x, o));
        }
    }
}

fn shape_of<E: Elem>(cx: &mut Ctx<E>) {
    let r = cx.pick();
    let s = &r.m.shape;
    let x = call(Ok, || {
        let t = r.t;
        let rank = t.rank();
        let v = t.shape().as_vec();
        let d: [usize; 6] = std::array::from_fn(|i| if i < rank { t.dim(i) } else { 0 });
        let rd: [usize; 6] = std::array::from_fn(|i| if i < rank { t.rdim(i) } else { 0 });
        (rank, v, d, rd, t.rows(), t.cols(), t.size(), if rank > 0 { t.len() } else { 0 }, t.shape().size())
    });
    if let Some((rank, v, d, rd, rows, cols, size, len, ssize)) = x {
        let k = s.len();
        let ok = rank == k
            && &v == s
            && d[..k] == s[..]
            && (0..k).all(|i| rd[i] == s[k - 1 - i])
            && rows == r.m.rows()
            && cols == r.m.cols()
            && size == r.m.n()
            && ssize == r.m.n()
            && (k == 0 || len == s[0]);
        calm(move || drop(v));
        if !ok {
            wrong("a shape query returned a wrong value");
        }
    }
}

/// Operations on shapes themselves.
fn shape_api_bad<E: Elem>(cx: &mut Ctx<E>) {
    let rank = 1 + cx.r(6);
    let s: Vec<usize> = (0..rank).map(|_| 1 + cx.r(4)).collect();
    let h = Shape::from(&s[..]);
    // another shape that differs on a common axis
    let cut = cx.r(rank);
    let mut o = s[cut..].to_vec();
    let k = cx.r(o.len());
    o[k] += 1 + cx.r(2);
    let g = Shape::from(&o[..]);
    let swap = cx.one_in(2);
    let (x, y) = if swap { (&g, &h) } else { (&h, &g) };
    let far = rank + cx.r(3);
    let r = match cx.r(8) {
        0 => call(Panic, || x.broadcast(y)),
        1 => call(Panic, || x.check_broadcast(y)).map(|_| 0),
        2 => call(Panic, || x.broadcast_to(y)).map(|z| z.size()),
        3 => call(Panic, || x.broadcast_min(0, y, 0)),
        4 => call(Panic, || h.clone().remove(far)).map(|z| z.size()),
        5 => call(Panic, || h.clone().rremove(far)).map(|z| z.size()),
        6 if rank == 6 => call(Panic, || h.push(2)).map(|z| z.size()),
        _ => call(Panic, || h.expand_dims(far as isize + 1)).map(|z| z.size()),
    };
    discard(r);
}

fn shape_api<E: Elem>(cx: &mut Ctx<E>) {
    let rank = 1 + cx.r(6);
    let top = if cx.one_in(4) { 20 } else { 5 };
    let mut s: Vec<usize> = (0..rank).map(|_| if cx.one_in(3) { 1 } else { 1 + cx.r(top) }).collect();
    let i = cx.r(rank);
    let mut v = 1 + cx.r(9);
    if top == 5 && cx.one_in(4) {
        // a long axis
        if cx.one_in(2) {
            v = 65_000 + cx.r(10_000);
        } else {
            s[i] = 65_000 + cx.r(10_000);
        }
    }
    let ins = cx.r(rank + 1).max(if rank == 5 { 1 } else { 0 });
    let how = cx.r(4);
    let cut = cx.r(rank + 1);
    let o: Vec<usize> = if cx.one_in(2) { s[cut..].to_vec() } else {
        let k = cx.r(6 - rank + 1);
        (0..k).map(|_| 1 + cx.r(3)).chain(s.iter().copied()).collect()
    };
    let (lo, hi) = { let a = cx.r(rank + 1); let b = cx.r(rank + 1); (a.min(b), a.max(b)) };
    let minr = cx.r(rank + 1);
    let same = cx.one_in(2);
    let s0 = s.clone();
    let o0 = o.clone();
    let r = call(Ok, move || {
        let s = s0;
        let o = o0;
        let mk = |v: &[usize]| -> Shape {
            match how {
                0 => Shape::from(v),
                1 => Shape::from(v.to_vec()),
                2 => match *v {
                    [] => Shape::scalar(),
                    [a] => Shape::vector(a),
                    [a, b] => Shape::from([a, b]),
                    [a, b, c] => Shape::from([a, b, c]),
                    [a, b, c, d] => Shape::from([a, b, c, d]),
                    [a, b, c, d, e] => Shape::from([a, b, c, d, e]),
                    _ => Shape::from(v),
                },
                _ => match *v {
                    [a] => Shape::from(a),
                    _ => Shape::from(&Shape::from(v)),
                },
            }
        };
        let n = s.len();
        let h = mk(&s);
        let prod = |v: &[usize]| v.iter().product::<usize>();
        let mut bad: Option<&'static str> = None;
        let mut is = |ok: bool, what: &'static str| {
            if !ok && bad.is_none() {
                bad = Some(what);
            }
        };
        let eq = |x: &Shape, v: &[usize]| x.as_vec() == v && x.rank() == v.len() && x.size() == prod(v) && *x == Shape::from(v) && Shape::from(v) == *x;
        let with = |f: &dyn Fn(&mut Vec<usize>)| {
            let mut v = s.clone();
            f(&mut v);
            v
        };
        is(eq(&h, &s), "from");
        is((0..n).all(|i| h.dim(i) == s[i]), "dim");
        is((0..n).all(|i| h.rdim(i) == s[n - 1 - i]), "rdim");
        is((0..n).all(|i| h.idim(i as isize) == s[i] && h.idim(i as isize - n as isize) == s[i]), "idim");
        is(h.len() == s[0] && h.cols() == s[n - 1] && h.rows() == if n > 1 { s[n - 2] } else { 0 }, "len, cols, rows");
        is(eq(&h.clone().with_dim(i, v), &with(&|x| x[i] = v)), "with_dim");
        is(eq(&h.clone().replace(i, v), &with(&|x| x[i] = v)), "replace");
        is(eq(&h.clone().rreplace(i, v), &with(&|x| x[n - 1 - i] = v)), "rreplace");
        is(eq(&h.clone().with_cols(v), &with(&|x| x[n - 1] = v)), "with_cols");
        if n > 1 {
            is(eq(&h.clone().with_rows(v), &with(&|x| x[n - 2] = v)), "with_rows");
        }
        is(eq(&h.clone().remove(i), &with(&|x| { x.remove(i); })), "remove");
        is(eq(&h.clone().rremove(i), &with(&|x| { x.remove(n - 1 - i); })), "rremove");
        is(eq(&h.pop(), &s[1..]), "pop");
        is(eq(&h.clone().reduce(), &if n > 1 { s[..n - 1].to_vec() } else { vec![1] }), "reduce");
        if n < 6 {
            is(eq(&h.push(v), &with(&|x| x.insert(0, v))), "push");
            is(eq(&h.pop().push(v).pop(), &s[1..]), "push, pop");
            is(eq(&h.clone().insert(ins, v), &with(&|x| x.insert(ins, v))), "insert");
            is(eq(&h.clone().rinsert(n - ins, v), &with(&|x| x.insert(ins, v))), "rinsert");
            is(eq(&h.expand_dims(ins as isize), &with(&|x| x.insert(ins, 1))), "expand_dims");
            is(eq(&h.expand_dims(ins as isize - n as isize - 1), &with(&|x| x.insert(ins, 1))), "expand_dims");
            is(eq(&h.clone().insert(ins, v).remove(ins), &s), "insert, remove");
        }
        let mut q: Vec<usize> = s.iter().copied().filter(|x| *x != 1).collect();
        if q.is_empty() {
            q.push(1);
        }
        is(eq(&h.squeeze(None), &q), "squeeze");
        let mut q = s.clone();
        if q[i] == 1 && n > 1 {
            q.remove(i);
        }
        is(eq(&h.squeeze(i as isize), &q) && eq(&h.squeeze(i as isize - n as isize), &q), "squeeze axis");
        is(h.sublen(lo, hi) == prod(&s[lo..hi]), "sublen");
        is(h.rsublen(lo, hi) == prod(&s[n - hi..n - lo]), "rsublen");
        let ho = mk(&o);
        let big = if o.len() > n { &o } else { &s };
        is(h.broadcast(&ho) == prod(big) && ho.broadcast(&h) == prod(big), "broadcast");
        h.check_broadcast(&ho);
        ho.check_broadcast(&h);
        is(eq(&h.broadcast_to(&ho), big) && eq(&ho.broadcast_to(&h), big), "broadcast_to");
        // the batch dimensions are what is left of the inner ones
        let t = if same { s[..minr].to_vec() } else { s[cut.min(minr)..minr].to_vec() };
        let mut u = t.clone();
        u.truncate(t.len());
        u.push(v);
        if u.len() <= 6 {
            let hu = mk(&u);
            let want = prod(if t.len() > minr { &t } else { &s[..minr] });
            is(h.broadcast_min(n - minr, &hu, 1) == want && hu.broadcast_min(1, &h, n - minr) == want, "broadcast_min");
        }
        let w = format!("{:?}", h);
        is(!w.is_empty(), "debug");
        // equality
        let mut z = s.clone();
        z[i] += 1;
        is(h != Shape::from(&z[..]) && (n == 1 || h != Shape::from(&s[1..])) && (n == 1 || h != Shape::from(&s[..n - 1])), "not equal");
        bad
    });
    if let Some(Some(w)) = r {
        wrong(&format!("Shape::{w} returned a wrong value (shape {s:?}, other {o:?}, axis {i}, insert {ins}, value {v}, range {lo}..{hi}, min {minr})"));
    }
}

// ------------------------------------------------------------ element-wise

/// Operands that broadcast against each other.
fn pair<E: Elem>(cx: &mut Ctx<E>) -> (Rf<E>, Rf<E>) {
    let a = cx.pick_some();
    let b = suffix_of(cx, &a);
    if cx.one_in(2) {
        (a, b)
    } else {
        (b, a)
    }
}

pub fn suffix_of<E: Elem>(cx: &mut Ctx<E>, a: &Rf<E>) -> Rf<E> {
    let s = a.m.shape.clone();
    if cx.one_in(3) {
        let s2 = s.clone();
        if let Some(b) = cx.pick_if(|m| m.n() > 0 && m.rank() <= s2.len() && m.shape[..] == s2[s2.len() - m.rank()..]) {
            return b;
        }
    }
    let k = if cx.one_in(3) { s.len() } else { cx.r(s.len() + 1) };
    cx.fresh(s[s.len() - k..].to_vec())
}

pub fn bshape(a: &[usize], b: &[usize]) -> Vec<usize> {
    if a.len() >= b.len() {
        a.to_vec()
    } else {
        b.to_vec()
    }
}

/// Operands that do not.
fn bad_pair<E: Elem>(cx: &mut Ctx<E>) -> (Rf<E>, Rf<E>) {
    let a = cx.pick_rank(1, 5);
    let k = 1 + cx.r(a.m.rank());
    let mut s = a.m.shape[a.m.rank() - k..].to_vec();
    let i = cx.r(k);
    s[i] += 1 + cx.r(2);
    let b = cx.fresh(s);
    if cx.one_in(2) {
        (a, b)
    } else {
        (b, a)
    }
}

fn own_of<E: Elem>(cx: &mut Ctx<E>, r: &Rf<E>) -> Own<E> {
    // the register's own handle when it has one, else a clone
    let p = r.t as *const Tensor<E>;
    if cx.one_in(2) {
        if let Some(i) = cx.regs.iter().position(|h| &*h.t as *const Tensor<E> == p) {
            let h = cx.regs.remove(i);
            let (t, m, blk) = Ctx::open(h);
            return Own { t, m, blk };
        }
    }
    let t = calm(|| r.t.clone());
    Own { t, m: r.m.clone(), blk: 0 }
}

fn add_sub_mul<E: Elem>(cx: &mut Ctx<E>) {
    let op = cx.r(3);
    let f = move |a: E::V, b: E::V| {
        E::norm(match op {
            0 => a.add(b),
            1 => a.sub(b),
            _ => a.mul(b),
        })
    };
    let form = cx.r(6);
    if form >= 4 {
        // tensor op scalar
        let a = cx.pick();
        let v = cx.value();
        let s = E::make(v);
        let r;
        let blk;
        if form == 4 {
            let o = own_of(cx, &a);
            blk = o.blk;
            let t = o.t;
            r = call(Ok, move || match op {
                0 => t + s,
                1 => t - s,
                _ => t * s,
            });
        } else {
            blk = 0;
            r = call(Ok, move || match op {
                0 => a.t + s,
                1 => a.t - s,
                _ => a.t * s,
            });
        }
        if let Some(t) = r {
            cx.put(t, M::new(a.m.shape.clone(), a.m.vals.iter().map(|x| f(*x, v)).collect()));
        }
        cnt_end(blk);
        return;
    }
    let (a, b) = pair(cx);
    let s = bshape(&a.m.shape, &b.m.shape);
    let n = prod(&s);
    let (an, bn) = (a.m.n(), b.m.n());
    let v: Vec<E::V> = (0..n).map(|i| f(a.m.vals[i % an], b.m.vals[i % bn])).collect();
    let same = a.t as *const _ == b.t as *const _;
    let (mut ba, mut bb) = (0, 0);
    let r = match form {
        0 => {
            let oa = own_of(cx, &a);
            let ob = if same { Own { t: calm(|| oa.t.clone()), m: b.m.clone(), blk: 0 } } else { own_of(cx, &b) };
            ba = oa.blk;
            bb = ob.blk;
            let (x, y) = (oa.t, ob.t);
            call(Ok, move || match op {
                0 => x + y,
                1 => x - y,
                _ => x * y,
            })
        }
        1 if !same => {
            let o = own_of(cx, &a);
            ba = o.blk;
            let x = o.t;
            call(Ok, move || match op {
                0 => x + b.t,
                1 => x - b.t,
                _ => x * b.t,
            })
        }
        2 if !same => {
            let o = own_of(cx, &b);
            bb = o.blk;
            let y = o.t;
            call(Ok, move || match op {
                0 => a.t + y,
                1 => a.t - y,
                _ => a.t * y,
            })
        }
        _ => call(Ok, move || match op {
            0 => a.t + b.t,
            1 => a.t - b.t,
            _ => a.t * b.t,
        }),
    };
    if let Some(t) = r {
        cx.put(t, M::new(s, v));
    }
    cnt_end(ba);
    cnt_end(bb);
}

fn arith_bad<E: Elem>(cx: &mut Ctx<E>) {
    let (a, b) = bad_pair(cx);
    let k = cx.r(3);
    let r = call(Panic, || match k {
        0 => a.t + b.t,
        1 => a.t - b.t,
        _ => a.t * b.t,
    });
    discard(r);
}

fn neg_square<E: Elem>(cx: &mut Ctx<E>) {
    let a = cx.pick();
    let k = cx.r(3);
    let mut blk = 0;
    let r: Option<Tensor<E>> = if k == 0 {
        let o = own_of(cx, &a);
        blk = o.blk;
        let t = o.t;
        call(Ok, move || -t)
    } else if k == 1 {
        call(Ok, || -a.t)
    } else {
        call(Ok, || a.t.square())
    };
    if let Some(t) = r {
        let v = a.m.vals.iter().map(|x| E::norm(if k == 2 { x.mul(*x) } else { x.neg() })).collect();
        cx.put(t, M::new(a.m.shape.clone(), v));
    }
    cnt_end(blk);
}

fn min_max<E: Elem>(cx: &mut Ctx<E>) {
    if E::FLOAT {
        return;
    }
    let (a, b) = pair(cx);
    let max = cx.one_in(2);
    let s = bshape(&a.m.shape, &b.m.shape);
    let (an, bn) = (a.m.n(), b.m.n());
    let v = (0..prod(&s))
        .map(|i| {
            let (x, y) = (a.m.vals[i % an], b.m.vals[i % bn]);
            if (x.lt(y) == Some(std::cmp::Ordering::Less)) == max {
                y
            } else {
                x
            }
        })
        .collect();
    let r = call(Ok, || E::minmax(a.t, b.t.clone(), max).unwrap());
    if let Some(t) = r {
        cx.put(t, M::new(s, v));
    }
}

fn map<E: Elem>(cx: &mut Ctx<E>) {
    let a = cx.pick();
    let k = cx.r(1000) as i64;
    let r = call(Ok, || {
        a.t.map(|x| {
            let _g = user(CB);
            let v = x.val();
            log(v.bits());
            E::make(mi::<E>(v, k))
        })
    });
    check_log(r.is_some(), a.m.vals.iter().map(|v| v.bits()));
    if let Some(t) = r {
        cx.put(t, M::new(a.m.shape.clone(), a.m.vals.iter().map(|v| mi::<E>(*v, k)).collect()));
    }
}

/// To an element type of another size and alignment.
fn map_other<E: Elem>(cx: &mut Ctx<E>) {
    fn go<E: Elem, T: Elem<V = i64>>(cx: &mut Ctx<E>) {
        let a = cx.pick();
        let k = cx.r(1000) as i64;
        let r = call(Ok, || {
            a.t.map(|x| {
                let _g = user(CB);
                let v = x.val();
                log(v.bits());
                T::make((v.bits() as i64).mixk(k))
            })
        });
        check_log(r.is_some(), a.m.vals.iter().map(|v| v.bits()));
        if let Some(t) = r {
            cx.other::<T>(t, &a.m.shape, a.m.vals.iter().map(|v| T::norm((v.bits() as i64).mixk(k))).collect());
        }
    }
    match cx.r(5) {
        0 => go::<E, P>(cx),
        1 => go::<E, B>(cx),
        2 => go::<E, A>(cx),
        3 => go::<E, S>(cx),
        _ => go::<E, Z>(cx),
    }
}

fn map2<E: Elem>(cx: &mut Ctx<E>) {
    let (a, b) = pair(cx);
    let s = bshape(&a.m.shape, &b.m.shape);
    let (an, bn) = (a.m.n(), b.m.n());
    let r = call(Ok, || {
        a.t.map2(b.t, |x, y| {
            let _g = user(CB);
            let (v, w) = (x.val(), y.val());
            log(hash2(v.bits(), w.bits()));
            E::make(mk::<E>(v, w))
        })
    });
    let n = prod(&s);
    check_log(r.is_some(), (0..n).map(|i| hash2(a.m.vals[i % an].bits(), b.m.vals[i % bn].bits())));
    if let Some(t) = r {
        cx.put(t, M::new(s, (0..n).map(|i| mk::<E>(a.m.vals[i % an], b.m.vals[i % bn])).collect()));
    }
}

fn map2_other<E: Elem>(cx: &mut Ctx<E>) {
    fn go<E: Elem, U: Elem<V = i64>, T: Elem<V = i64>>(cx: &mut Ctx<E>) {
        let a = cx.pick_some();
        let s = &a.m.shape;
        let k = cx.r(s.len() + 1);
        let bs = s[s.len() - k..].to_vec();
        let bn = prod(&bs);
        let bv: Vec<i64> = (0..bn).map(|_| U::norm(cx.rng.u64() as i64 >> 9)).collect();
        let mut e: Vec<U> = vec_of(bn);
        for v in &bv {
            e.push(U::make(*v));
        }
        let b = calm(move || Tensor::<U>::from_vec(e, bs.as_slice()));
        let swap = cx.one_in(2);
        let r = call(Ok, || {
            if swap {
                b.map2(a.t, |y, x| {
                    let _g = user(CB);
                    let (v, w) = (x.val().bits(), y.val());
                    log(hash2(v, w as u64));
                    T::make((v as i64).mix2(w))
                })
            } else {
                a.t.map2(&b, |x, y| {
                    let _g = user(CB);
                    let (v, w) = (x.val().bits(), y.val());
                    log(hash2(v, w as u64));
                    T::make((v as i64).mix2(w))
                })
            }
        });
        let n = a.m.n();
        check_log(r.is_some(), (0..n).map(|i| hash2(a.m.vals[i].bits(), bv[i % bn] as u64)));
        if let Some(t) = r {
            cx.other::<T>(t, &a.m.shape, (0..n).map(|i| T::norm((a.m.vals[i].bits() as i64).mix2(bv[i % bn]))).collect());
        }
        calm(move || drop(b));
    }
    match cx.r(4) {
        0 => go::<E, S, B>(cx),
        1 => go::<E, P, Z>(cx),
        2 => go::<E, Z, A>(cx),
        _ => go::<E, A, S>(cx),
    }
}

fn map2_bad<E: Elem>(cx: &mut Ctx<E>) {
    let (a, b) = bad_pair(cx);
    let three = cx.one_in(2);
    let r = call(Panic, || {
        if three {
            a.t.map3(a.t, b.t, |x, _, _| {
                let _g = user(CB);
                E::make(x.val())
            })
        } else {
            a.t.map2(b.t, |x, _| {
                let _g = user(CB);
                E::make(x.val())
            })
        }
    });
    check_count(false, 0);
    discard(r);
}

fn map3<E: Elem>(cx: &mut Ctx<E>) {
    let a = cx.pick_some();
    let b = suffix_of(cx, &a);
    let c = suffix_of(cx, &a);
    let (a, b, c) = match cx.r(3) {
        0 => (a, b, c),
        1 => (b, a, c),
        _ => (b, c, a),
    };
    let s = bshape(&bshape(&a.m.shape, &b.m.shape), &c.m.shape);
    let (an, bn, cn) = (a.m.n(), b.m.n(), c.m.n());
    let r = call(Ok, || {
        a.t.map3(b.t, c.t, |x, y, z| {
            let _g = user(CB);
            let (u, v, w) = (x.val(), y.val(), z.val());
            log(hash2(hash2(u.bits(), v.bits()), w.bits()));
            E::make(mk::<E>(mk::<E>(u, v), w))
        })
    });
    let n = prod(&s);
    check_log(
        r.is_some(),
        (0..n).map(|i| hash2(hash2(a.m.vals[i % an].bits(), b.m.vals[i % bn].bits()), c.m.vals[i % cn].bits())),
    );
    if let Some(t) = r {
        let v = (0..n).map(|i| mk::<E>(mk::<E>(a.m.vals[i % an], b.m.vals[i % bn]), c.m.vals[i % cn])).collect();
        cx.put(t, M::new(s, v));
    }
}

fn hrow<E: Elem>(r: impl Iterator<Item = E::V>) -> u64 {
    let mut h = 5;
    for v in r {
        h = hash2(h, v.bits());
    }
    h
}

fn map_row<E: Elem>(cx: &mut Ctx<E>) {
    fn go<const N: usize, E: Elem>(cx: &mut Ctx<E>) {
        let a = cx.pick_rank(1, 6);
        let c = a.m.cols();
        let k0 = cx.value();
        let r = call(Ok, || {
            a.t.map_row(|row| -> [E; N] {
                let _g = user(CB);
                let h = hrow::<E>(row.iter().map(|x| x.val()));
                log(h);
                std::array::from_fn(|j| E::make(mi::<E>(k0, (h as i64 >> 8).wrapping_add(j as i64))))
            })
        });
        let hs: Vec<u64> = a.m.vals.chunks(c).map(|x| hrow::<E>(x.iter().copied())).collect();
        check_log(r.is_some(), hs.iter().copied());
        if let Some(t) = r {
            let mut s = a.m.shape.clone();
            if N == 1 && s.len() > 1 {
                s.pop();
            } else {
                *s.last_mut().unwrap() = N;
            }
            let mut v = Vec::new();
            for h in &hs {
                for j in 0..N {
                    v.push(mi::<E>(k0, (*h as i64 >> 8).wrapping_add(j as i64)));
                }
            }
            cx.put(t, M::new(s, v));
        }
    }
    match cx.r(4) {
        0 => go::<1, E>(cx),
        1 => go::<2, E>(cx),
        2 => go::<3, E>(cx),
        _ if cx.one_in(2) => go::<5, E>(cx),
        _ => go::<9, E>(cx),
    }
}

fn map_expand<E: Elem>(cx: &mut Ctx<E>) {
    fn go<const N: usize, E: Elem>(cx: &mut Ctx<E>) {
        let a = cx.pick_rank(0, 5);
        let r = call(Ok, || {
            a.t.map_expand(|x| -> [E; N] {
                let _g = user(CB);
                let v = x.val();
                log(v.bits());
                std::array::from_fn(|j| E::make(mi::<E>(v, j as i64)))
            })
        });
        check_log(r.is_some(), a.m.vals.iter().map(|v| v.bits()));
        if let Some(t) = r {
            let mut s = a.m.shape.clone();
            s.push(N);
            let mut w = Vec::new();
            for v in &a.m.vals {
                for j in 0..N {
                    w.push(mi::<E>(*v, j as i64));
                }
            }
            cx.put(t, M::new(s, w));
        }
    }
    match cx.r(3) {
        0 => go::<1, E>(cx),
        1 => go::<2, E>(cx),
        _ => go::<3, E>(cx),
    }
}

// ------------------------------------------------------------ folds

/// A fold's state: owns an element and counts the updates.
struct FS<E: Elem> {
    e: E,
    n: i64,
}
impl<E: Elem> Clone for FS<E> {
    fn clone(&self) -> Self {
        FS { e: self.e.clone(), n: self.n }
    }
}
impl<E: Elem> FoldState for FS<E> {
    type Out = E;
    fn into_result(self) -> E {
        let _g = user(ARITH);
        E::make(mi::<E>(self.e.val(), self.n))
    }
}
fn upd<E: Elem>(s: FS<E>, v: E::V) -> FS<E> {
    FS { e: E::make(mk::<E>(s.e.val(), v)), n: s.n + 1 }
}
fn fold_model<E: Elem>(k0: E::V, it: impl Iterator<Item = E::V>) -> E::V {
    let mut v = k0;
    let mut n = 0;
    for x in it {
        v = mk::<E>(v, x);
        n += 1;
    }
    mi::<E>(v, n)
}

fn fold<E: Elem>(cx: &mut Ctx<E>) {
    let a = cx.pick();
    let k0 = cx.value();
    let st = FS { e: E::make(k0), n: 0 };
    let r = call(Ok, move || {
        a.t.fold(st, |s, x| {
            let _g = user(CB);
            upd(s, x.val())
        })
    });
    check_count(r.is_some(), a.m.n());
    if let Some(t) = r {
        cx.put(t, M::new(vec![], vec![fold_model::<E>(k0, a.m.vals.iter().copied())]));
    }
}

/// The lanes along an axis: result shape and, per output, its operands.
pub fn lanes<V: Val>(m: &M<V>, axis: Option<usize>) -> (Vec<usize>, Vec<Vec<usize>>) {
    match axis {
        None => (vec![], vec![(0..m.n()).collect()]),
        Some(a) => {
            let (o, l, i) = around(&m.shape, a);
            let mut s = m.shape.clone();
            s.remove(a);
            let mut v = Vec::new();
            for x in 0..o {
                for z in 0..i {
                    v.push((0..l).map(|k| (x * l + k) * i + z).collect());
                }
            }
            (s, v)
        }
    }
}

pub fn axis_opt<E: Elem>(cx: &mut Ctx<E>, rank: usize) -> (Axis, Option<usize>) {
    if rank == 0 || cx.one_in(5) {
        (Axis::from(None), None)
    } else {
        let (a, i) = axis_arg(cx, rank);
        (ax(cx, a), Some(i))
    }
}

fn fold_axis<E: Elem>(cx: &mut Ctx<E>) {
    let a = cx.pick_some();
    let k0 = cx.value();
    let (x, i) = axis_opt(cx, a.m.rank());
    let st = FS { e: E::make(k0), n: 0 };
    let r = call(Ok, move || {
        a.t.fold_axis(x, st, |s, x| {
            let _g = user(CB);
            upd(s, x.val())
        })
    });
    check_count(r.is_some(), a.m.n());
    if let Some(t) = r {
        let (s, l) = lanes(&a.m, i);
        cx.put(t, M::new(s, l.iter().map(|l| fold_model::<E>(k0, l.iter().map(|i| a.m.vals[*i]))).collect()));
    }
}

#[derive(Clone)]
struct RS<E: Elem, const N: usize>(FS<E>);
impl<E: Elem, const N: usize> FoldState for RS<E, N> {
    type Out = [E; N];
    fn into_result(self) -> [E; N] {
        let _g = user(ARITH);
        let v = mi::<E>(self.0.e.val(), self.0.n);
        std::array::from_fn(|j| E::make(mi::<E>(v, j as i64)))
    }
}

fn fold_row<E: Elem>(cx: &mut Ctx<E>) {
    fn go<const N: usize, E: Elem>(cx: &mut Ctx<E>) {
        let a = cx.pick_rank(1, 5);
        let k0 = cx.value();
        let rank = a.m.rank();
        let c = a.m.cols();
        let (x, i) = if cx.one_in(4) || rank == 1 {
            (if rank == 1 && cx.one_in(2) { Axis::axis(0) } else { Axis::from(None) }, None)
        } else {
            let i = cx.r(rank - 1);
            let a = if cx.one_in(3) { i as isize - rank as isize } else { i as isize };
            (ax(cx, a), Some(i))
        };
        let st = RS::<E, N>(FS { e: E::make(k0), n: 0 });
        let r = call(Ok, move || {
            a.t.fold_row(x, st, |s, row| {
                let _g = user(CB);
                let h = hrow::<E>(row.iter().map(|x| x.val()));
                RS(upd(s.0, E::norm(E::V::from_i(h as i64 >> 8))))
            })
        });
        let rows = a.m.n() / c;
        check_count(r.is_some(), rows);
        if let Some(t) = r {
            let rm = M::new(if rank == 1 { vec![1] } else { a.m.shape[..rank - 1].to_vec() }, vec![0i64; rows]);
            let (mut s, l) = lanes(&rm, i);
            s.push(N);
            let mut v = Vec::new();
            for l in &l {
                let f = fold_model::<E>(
                    k0,
                    l.iter().map(|j| E::norm(E::V::from_i(hrow::<E>(a.m.vals[j * c..(j + 1) * c].iter().copied()) as i64 >> 8))),
                );
                for j in 0..N {
                    v.push(mi::<E>(f, j as i64));
                }
            }
            cx.put(t, M::new(s, v));
        }
    }
    match cx.r(3) {
        0 => go::<1, E>(cx),
        1 => go::<2, E>(cx),
        _ => go::<3, E>(cx),
    }
}

fn reduce_model<E: Elem>(mut it: impl Iterator<Item = E::V>) -> E::V {
    let v = it.next().unwrap();
    it.fold(v, |a, b| mk::<E>(a, b))
}

fn reduce<E: Elem>(cx: &mut Ctx<E>) {
    let a = cx.pick_some();
    let r = call(Ok, move || {
        a.t.reduce(|x, y| {
            let _g = user(CB);
            E::make(mk::<E>(x.val(), y.val()))
        })
    });
    check_count(r.is_some(), a.m.n() - 1);
    if let Some(t) = r {
        cx.put(t, M::new(vec![], vec![reduce_model::<E>(a.m.vals.iter().copied())]));
    }
}

fn reduce_axis<E: Elem>(cx: &mut Ctx<E>) {
    let a = cx.pick_some();
    let (x, i) = axis_opt(cx, a.m.rank());
    let r = call(Ok, move || {
        a.t.reduce_axis(x, |x, y| {
            let _g = user(CB);
            E::make(mk::<E>(x.val(), y.val()))
        })
    });
    let (s, l) = lanes(&a.m, i);
    check_count(r.is_some(), a.m.n() - l.len());
    if let Some(t) = r {
        cx.put(t, M::new(s, l.iter().map(|l| reduce_model::<E>(l.iter().map(|i| a.m.vals[*i]))).collect()));
    }
}

fn reduce_sum<E: Elem>(cx: &mut Ctx<E>) {
    let a = cx.pick_some();
    let whole = cx.one_in(3);
    let (x, i) = if whole { (Axis::from(None), None) } else { axis_opt(cx, a.m.rank()) };
    let r = call(Ok, move || if whole { a.t.reduce_sum() } else { a.t.reduce_sum_axis(x) });
    if let Some(t) = r {
        let (s, l) = lanes(&a.m, i);
        let v = l
            .iter()
            .map(|l| {
                let mut it = l.iter().map(|i| a.m.vals[*i]);
                let v = it.next().unwrap();
                it.fold(v, |a, b| E::norm(a.add(b)))
            })
            .collect();
        let sc: Vec<f64> = if E::FLOAT { l.iter().map(|l| l.iter().map(|i| fv(a.m.vals[*i]).abs()).sum::<f64>() * l.len() as f64).collect() } else { vec![1.] };
        put_round(cx, t, M::new(s, v), &sc, 2e-7);
    }
}

fn reduce_product<E: Elem>(cx: &mut Ctx<E>) {
    let a = cx.pick_some();
    let whole = cx.one_in(3);
    let (x, i) = if whole { (Axis::from(None), None) } else { axis_opt(cx, a.m.rank()) };
    let r = call(Ok, move || if whole { a.t.reduce_product() } else { a.t.reduce_product_axis(x) });
    if let Some(t) = r {
        let (s, l) = lanes(&a.m, i);
        let v: Vec<E::V> = l
            .iter()
            .map(|l| {
                let mut it = l.iter().map(|i| a.m.vals[*i]);
                let v = it.next().unwrap();
                it.fold(v, |a, b| E::norm(a.mul(b)))
            })
            .collect();
        let sc: Vec<f64> = if E::FLOAT {
            // another association may overflow where this one does not
            l.iter()
                .map(|l| {
                    let p: f64 = l.iter().map(|i| fv(a.m.vals[*i]).abs().max(1.0)).product::<f64>();
                    if l.iter().any(|i| !fv(a.m.vals[*i]).is_finite()) { f64::INFINITY } else { p * l.len() as f64 }
                })
                .collect()
        } else {
            vec![1.]
        };
        put_round(cx, t, M::new(s, v), &sc, 2e-7);
    }
}

fn normalize<E: Elem>(cx: &mut Ctx<E>) {
    let a = cx.pick_some();
    let k0 = cx.value();
    let (x, i) = axis_opt(cx, a.m.rank());
    let st = FS { e: E::make(k0), n: 0 };
    let r = call(Ok, move || {
        a.t.normalize(
            x,
            st,
            |s, x| {
                let _g = user(CB);
                upd(s, x.val())
            },
            |s| {
                let _g = user(CB);
                E::make(mi::<E>(s.e.val(), s.n))
            },
            |s: &E, x| {
                let _g = user(CB);
                E::make(mk::<E>(s.val(), x.val()))
            },
        )
    });
    let (_, l) = lanes(&a.m, i);
    check_count(r.is_some(), 2 * a.m.n() + l.len());
    if let Some(t) = r {
        let mut v = a.m.vals.clone();
        for l in &l {
            let f = fold_model::<E>(k0, l.iter().map(|i| a.m.vals[*i]));
            for i in l {
                v[*i] = mk::<E>(f, a.m.vals[*i]);
            }
        }
        cx.put(t, M::new(a.m.shape.clone(), v));
    }
}

fn fold_bad<E: Elem>(cx: &mut Ctx<E>) {
    let r = match cx.r(2) {
        0 => {
            // nothing to reduce
            let e = cx.fresh(vec![0]);
            call(Panic, || e.t.reduce(|a, _| a))
        }
        _ => {
            let a = cx.pick_rank(2, 4);
            let rank = a.m.rank() as isize;
            let k0 = cx.value();
            let st = RS::<E, 2>(FS { e: E::make(k0), n: 0 });
            call(Panic, move || a.t.fold_row(rank - 1, st, |s, _| s))
        }
    };
    discard(r);
}

// ------------------------------------------------------------ arrays

fn cut<V: Val>(m: &M<V>, axis: usize, from: usize, to: usize) -> M<V> {
    let (o, l, i) = around(&m.shape, axis);
    let mut s = m.shape.clone();
    s[axis] = to - from;
    let mut v = Vec::new();
    for x in 0..o {
        for k in from..to {
            for z in 0..i {
                v.push(m.vals[(x * l + k) * i + z]);
            }
        }
    }
    M::new(s, v)
}

fn do_split<E: Elem>(t: &Tensor<E>, how: usize, axis: isize, eq: Option<usize>, cuts: Vec<usize>, form: usize) -> Vec<Tensor<E>> {
    macro_rules! go {
        ($x:expr) => {
            match how {
                0 => t.split($x),
                1 => t.split_axis(axis, $x),
                2 => t.vsplit($x),
                3 => t.hsplit($x),
                _ => t.dsplit($x),
            }
        };
    }
    match eq {
        Some(n) => go!(n),
        None => match form {
            0 => go!(cuts),
            1 => go!(&cuts),
            2 if cuts.len() == 2 => go!([cuts[0], cuts[1]]),
            _ => go!(cuts.as_slice()),
        },
    }
}

fn split<E: Elem>(cx: &mut Ctx<E>) {
    let how = cx.r(5);
    let lo = match how {
        3 => 2,
        4 => 3,
        _ => 1,
    };
    let a = cx.pick_rank(lo, 5);
    let (arg, axis) = match how {
        0 | 2 => (0, 0),
        1 => axis_arg(cx, a.m.rank()),
        3 => (1, 1),
        _ => (2, 2),
    };
    let len = a.m.shape[axis];
    let (eq, cuts) = if cx.one_in(2) {
        let d: Vec<usize> = (1..=len.min(40)).filter(|d| len % d == 0).collect();
        let n = d[cx.r(d.len())];
        (Some(n), (1..n).map(|i| i * (len / n)).collect())
    } else {
        let k = if cx.one_in(8) { cx.r(12) } else { cx.r(4) };
        let mut c: Vec<usize> = (0..k).map(|_| cx.r(len + 1)).collect();
        c.sort();
        (None, c)
    };
    let form = cx.r(4);
    let c2 = cuts.clone();
    let r = call(Ok, || do_split(a.t, how, arg, eq, c2, form));
    if let Some(r) = r {
        let mut want = Vec::new();
        let mut p = 0;
        for c in cuts.iter().copied().chain(std::iter::once(len)) {
            if c != p {
                want.push((p, c));
            }
            p = c;
        }
        if r.len() != want.len() {
            wrong(&format!("split into {} parts, expected {}", r.len(), want.len()));
        }
        let mut r = r;
        let mut k = 0;
        for t in r.drain(..) {
            let m = cut(&a.m, axis, want[k].0, want[k].1);
            cx.put_hint(t, m, a.blk);
            k += 1;
        }
        calm(move || drop(r));
    }
}

/// `unstack` has no settled meaning (it is unfinished): memory only.
fn unstack<E: Elem>(cx: &mut Ctx<E>) {
    let a = cx.pick_rank(1, 5);
    let (arg, _) = axis_arg(cx, a.m.rank());
    let r = call(Any, || a.t.unstack(arg));
    discard(r);
}

fn split_bad<E: Elem>(cx: &mut Ctx<E>) {
    let a = cx.pick_rank(1, 4);
    let (arg, axis) = axis_arg(cx, a.m.rank());
    let len = a.m.shape[axis];
    let (eq, cuts) = match cx.r(5) {
        0 => (Some(0), vec![]),
        1 if len > 0 => (Some(len + 1 + cx.r(3)), vec![]),
        2 => (None, vec![len + 1 + cx.r(3)]),
        3 if len > 1 => (None, vec![len - 1, cx.r(len - 1)]),
        _ => {
            // does not divide
            match (2..len).find(|d| len % (len / d) != 0) {
                Some(d) if a.m.n() > 0 => (Some(d), vec![]),
                _ => (Some(0), vec![]),
            }
        }
    };
    let all = a.t.as_slice();
    let buf = a.t.as_slice().as_ptr_range();
    // the parts are views or copies: only those that start in the operand are looked at
    let own = |s: &(usize, usize)| s.0 >= buf.start as usize && s.0 < buf.end as usize;
    let r = call_bad(all, || do_split(a.t, 1, arg, eq, cuts, 0), |v| v.iter().map(span_of).filter(own).collect());
    discard(r);
}

fn cat<V: Val>(ms: &[Rc<M<V>>], axis: usize) -> M<V> {
    let total: usize = ms.iter().map(|m| m.shape[axis]).sum();
    let mut s = ms[0].shape.clone();
    let (o, _, i) = around(&s, axis);
    s[axis] = total;
    let mut v = Vec::new();
    for x in 0..o {
        for m in ms {
            let l = m.shape[axis];
            v.extend_from_slice(&m.vals[x * l * i..(x + 1) * l * i]);
        }
    }
    M::new(s, v)
}

macro_rules! as_list {
    ($cx:expr, $want:expr, $rs:expr, |$l:ident| $e:expr) => {{
        let rs = &$rs;
        match $cx.r(6) {
            0 => {
                let $l: Vec<Tensor<E>> = rs.iter().map(|r| calm(|| r.t.clone())).collect();
                call($want, move || $e)
            }
            1 => {
                let $l: Vec<&Tensor<E>> = rs.iter().map(|r| r.t).collect();
                call($want, move || $e)
            }
            2 => {
                let v: Vec<Tensor<E>> = rs.iter().map(|r| calm(|| r.t.clone())).collect();
                let r = {
                    let $l = v.as_slice();
                    call($want, move || $e)
                };
                calm(move || drop(v));
                r
            }
            3 if rs.len() == 2 => {
                let $l: [Tensor<E>; 2] = std::array::from_fn(|i| calm(|| rs[i].t.clone()));
                call($want, move || $e)
            }
            4 if rs.len() == 2 => {
                let $l: [&Tensor<E>; 2] = [rs[0].t, rs[1].t];
                call($want, move || $e)
            }
            _ => {
                let v: Vec<&Tensor<E>> = rs.iter().map(|r| r.t).collect();
                let $l = v.as_slice();
                call($want, move || $e)
            }
        }
    }};
}

/// Operands alike but for one axis.
fn alike<E: Elem>(cx: &mut Ctx<E>, lo: usize, hi: usize, axis: usize, k: usize) -> Vec<Rf<E>> {
    let a = cx.pick_if(|m| m.n() > 0 && m.rank() >= lo && m.rank() <= hi && m.n() < 3000);
    let a = match a {
        Some(a) => a,
        None => {
            let k = lo + cx.r(hi - lo + 1);
            let s = cx.dims(k);
            cx.fresh(s)
        }
    };
    let s = a.m.shape.clone();
    let mut r = vec![a];
    while r.len() < k {
        let s2 = s.clone();
        let b = if cx.one_in(2) {
            cx.pick_if(move |m| m.n() > 0 && m.rank() == s2.len() && (0..s2.len()).all(|d| d == axis || m.shape[d] == s2[d]) && m.n() < 3000)
        } else {
            None
        };
        let b = match b {
            Some(b) => b,
            None => {
                let mut s = s.clone();
                if axis < s.len() {
                    let row = prod(&s) / s[axis];
                    s[axis] = (1 + cx.len(4)).min(1 + 20_000 / row);
                }
                cx.fresh(s)
            }
        };
        r.push(b);
    }
    r
}

fn concatenate<E: Elem>(cx: &mut Ctx<E>) {
    let k = if cx.one_in(10) { 1 + cx.r(12) } else { 1 + cx.r(3) };
    let form = cx.r(4);
    // the rank is only known after the first operand is picked
    let first = cx.pick_if(|m| m.n() > 0 && m.rank() >= 1 && m.rank() <= 5 && m.n() < 3000);
    let rank = match first {
        Some(f) => f.m.rank(),
        None => 1 + cx.r(3),
    };
    let (arg, axis) = if form & 1 == 0 { (0, 0) } else { axis_arg(cx, rank) };
    let x = ax(cx, arg);
    let rs = alike(cx, rank, rank, axis, k);
    let r = match form {
        0 => as_list!(cx, Ok, rs, |l| array::concatenate(l)),
        1 => as_list!(cx, Ok, rs, |l| array::concatenate_axis(x, l)),
        2 => {
            let h = rs[0].t;
            let tail = &rs[1..];
            as_list!(cx, Ok, tail, |l| h.concatenate(l))
        }
        _ => {
            let h = rs[0].t;
            let tail = &rs[1..];
            as_list!(cx, Ok, tail, |l| h.concatenate_axis(x, l))
        }
    };
    if let Some(t) = r {
        let ms: Vec<_> = rs.iter().map(|r| r.m.clone()).collect();
        cx.put(t, cat(&ms, axis));
    }
}

/// From lists of vectors of elements.
fn concat_lists<E: Elem>(cx: &mut Ctx<E>) {
    let (a, b) = (1 + cx.len(4), 1 + cx.len(4));
    let (va, vb) = (cx.values(a), cx.values(b));
    let (ea, eb) = (cx.elems(&va), cx.elems(&vb));
    let r: Option<Tensor<E>> = match cx.r(6) {
        0 => call(Ok, move || array::concatenate(vec![ea, eb])),
        1 => call(Ok, || array::concatenate(vec![&ea, &eb])),
        2 => call(Ok, move || array::concatenate([ea, eb])),
        3 => call(Ok, || array::concatenate([&ea, &eb])),
        4 => {
            let l = vec![ea, eb];
            call(Ok, || array::concatenate(l.as_slice()))
        }
        _ => {
            let l = vec![&ea, &eb];
            call(Ok, || array::concatenate(l.as_slice()))
        }
    };
    if let Some(t) = r {
        let mut v = va.clone();
        v.extend(vb);
        cx.put(t, M::new(vec![a + b], v));
    }
}

fn concat_bad<E: Elem>(cx: &mut Ctx<E>) {
    let s = {
        let k = 2 + cx.r(2);
        cx.dims(k)
    };
    let mut s2 = s.clone();
    match cx.r(3) {
        0 => s2[1] += 1,
        1 => {
            s2.pop();
        }
        _ => s2.push(1),
    }
    let a = cx.fresh(s);
    let b = cx.fresh(s2);
    let r = match cx.r(6) {
        0 => call(Panic, || array::concatenate([a.t, b.t])),
        1 => call(Panic, || array::stack([a.t, b.t])),
        2 => call(Panic, || array::vstack([a.t, b.t])),
        3 => call(Panic, || array::dstack([a.t, b.t])),
        4 => call(Panic, || array::stack(Vec::<Tensor<E>>::new())),
        _ => call(Panic, || array::concatenate(Vec::<Tensor<E>>::new())),
    };
    discard(r);
}

fn stack<E: Elem>(cx: &mut Ctx<E>) {
    let k = if cx.one_in(10) { 1 + cx.r(12) } else { 1 + cx.r(3) };
    let rs = alike(cx, 0, 4, 99, k);
    let rank = rs[0].m.rank();
    let form = cx.r(3);
    let (arg, axis) = if form == 0 { (0, 0) } else { axis_arg(cx, rank + 1) };
    let x = ax(cx, arg);
    let r = match form {
        0 => as_list!(cx, Ok, rs, |l| array::stack(l)),
        1 => as_list!(cx, Ok, rs, |l| array::stack_axis(x, l)),
        _ => {
            let h = rs[0].t;
            let tail = &rs[1..];
            as_list!(cx, Ok, tail, |l| h.stack(l, x))
        }
    };
    if let Some(t) = r {
        let ms: Vec<_> = rs
            .iter()
            .map(|r| {
                let mut s = r.m.shape.clone();
                s.insert(axis, 1);
                Rc::new(M::new(s, r.m.vals.clone()))
            })
            .collect();
        cx.put(t, cat(&ms, axis));
    }
}

fn hvd_stack<E: Elem>(cx: &mut Ctx<E>) {
    let k = 1 + cx.r(3);
    let form = cx.r(5);
    match form {
        0 => {
            let rank = 1 + cx.r(4);
            let axis = if rank == 1 { 0 } else { 1 };
            let rs = alike(cx, rank, rank, axis, k);
            let r = as_list!(cx, Ok, rs, |l| array::hstack(l));
            if let Some(t) = r {
                let ms: Vec<_> = rs.iter().map(|r| r.m.clone()).collect();
                cx.put(t, cat(&ms, axis));
            }
        }
        1 | 2 => {
            let rs = alike(cx, 0, 4, 99, k);
            let r = if form == 1 {
                as_list!(cx, Ok, rs, |l| array::vstack(l))
            } else {
                let h = rs[0].t;
                let tail = &rs[1..];
                as_list!(cx, Ok, tail, |l| h.vstack(l))
            };
            if let Some(t) = r {
                let ms: Vec<_> = rs
                    .iter()
                    .map(|r| {
                        let mut s = r.m.shape.clone();
                        s.insert(0, 1);
                        Rc::new(M::new(s, r.m.vals.clone()))
                    })
                    .collect();
                cx.put(t, cat(&ms, 0));
            }
        }
        _ => {
            let rs = alike(cx, 1, 4, 99, k);
            let r = if form == 3 {
                as_list!(cx, Ok, rs, |l| array::dstack(l))
            } else {
                let h = rs[0].t;
                let tail = &rs[1..];
                as_list!(cx, Ok, tail, |l| h.dstack(l))
            };
            if let Some(t) = r {
                let ms: Vec<_> = rs
                    .iter()
                    .map(|r| {
                        let s = &r.m.shape;
                        let s = match s.len() {
                            1 => vec![1, s[0], 1],
                            2 => vec![s[0], s[1], 1],
                            _ => s.clone(),
                        };
                        Rc::new(M::new(s, r.m.vals.clone()))
                    })
                    .collect();
                cx.put(t, cat(&ms, 2));
            }
        }
    }
}

fn tile<E: Elem>(cx: &mut Ctx<E>) {
    let a = match cx.pick_if(|m| m.n() > 0 && m.n() < 500 && m.rank() <= 4) {
        Some(a) => a,
        None => {
            let k = cx.r(4);
            let s = cx.dims(k);
            cx.fresh(s)
        }
    };
    let k = cx.r(4);
    let mut mult: Vec<usize> = (0..k).map(|_| 1 + cx.r(3)).collect();
    if k > 0 && cx.one_in(4) {
        let i = cx.r(k);
        mult[i] = (1 + cx.len(6)).min(1 + 20_000 / a.m.n() / prod(&mult));
    }
    let rank = a.m.rank().max(k);
    let m2 = mult.clone();
    let f = cx.r(3);
    let r = call(Ok, || {
        if f == 0 {
            array::tile(a.t, m2)
        } else if f == 1 && m2.len() == 2 {
            a.t.tile([m2[0], m2[1]])
        } else {
            a.t.tile(&m2)
        }
    });
    if let Some(t) = r {
        let mut s = vec![1; rank - a.m.rank()];
        s.extend_from_slice(&a.m.shape);
        let mut mm = vec![1; rank - k];
        mm.extend_from_slice(&mult);
        let o: Vec<usize> = (0..rank).map(|i| s[i] * mm[i]).collect();
        let (so, si) = (strides(&o), strides(&s));
        let v = (0..prod(&o))
            .map(|j| {
                let mut x = 0;
                for d in 0..rank {
                    x += (j / so[d] % o[d]) % s[d] * si[d];
                }
                a.m.vals[x]
            })
            .collect();
        cx.put(t, M::new(o, v));
    }
}

/// Multiples nobody promises a result for; memory and liveness still hold.
fn tile_bad<E: Elem>(cx: &mut Ctx<E>) {
    let a = match cx.pick_if(|m| m.n() < 200 && m.rank() <= 4) {
        Some(a) => a,
        None => {
            let k = cx.r(4);
            let s = cx.dims(k);
            cx.fresh(s)
        }
    };
    let k = cx.r(5);
    let r = call(Any, || match k {
        0 => a.t.tile([[2usize, 1], [1, 2]]),
        1 => a.t.tile([[2usize, 3]]),
        2 => a.t.tile(vec![0usize]),
        3 => a.t.tile(2usize),
        _ => a.t.tile([1usize, 1, 1, 1, 1, 1, 1]),
    });
    if let Some(t) = &r {
        // whatever it is, it has to be consistent and made of a's elements
        let s = t.as_slice();
        let n: usize = t.shape().as_vec().iter().product();
        if s.len() != n {
            rt::violate("wrong_result", "the shape of the result does not match its data");
        }
        for x in s {
            let v = x.val();
            if !a.m.vals.iter().any(|y| y.same(v)) {
                rt::violate("wrong_result", "tile() made up an element");
            }
        }
    }
    discard(r);
}

fn transpose<E: Elem>(cx: &mut Ctx<E>) {
    let a = cx.pick_rank(1, 5);
    let k = cx.r(3);
    let r = call(Ok, || match k {
        0 => a.t.transpose(),
        1 => a.t.t(),
        _ => array::transpose(a.t),
    });
    if let Some(t) = r {
        let mut s = a.m.shape.clone();
        if s.len() == 1 {
            s.push(1);
            cx.put(t, M::new(s, a.m.vals.clone()));
            return;
        }
        let (rows, cols) = (a.m.rows(), a.m.cols());
        let k = s.len();
        s.swap(k - 1, k - 2);
        let mut v = Vec::new();
        for b in a.m.vals.chunks(rows * cols) {
            for i in 0..cols {
                for j in 0..rows {
                    v.push(b[j * cols + i]);
                }
            }
        }
        cx.put(t, M::new(s, v));
    }
}

fn tril_triu<E: Elem>(cx: &mut Ctx<E>) {
    if cx.one_in(8) {
        let a = cx.pick_rank(0, 1);
        let k = cx.one_in(2);
        let r = call(Panic, || if k { a.t.tril() } else { a.t.triu() });
        discard(r);
        return;
    }
    let a = cx.pick_rank(2, 5);
    let l = cx.one_in(2);
    let r = call(Ok, || if l { a.t.tril() } else { a.t.triu() });
    if let Some(t) = r {
        let (rows, cols) = (a.m.rows(), a.m.cols());
        let z = E::norm(E::V::from_i(0));
        let v = (0..a.m.n())
            .map(|k| {
                let (i, j) = (k % cols, k / cols % rows);
                if if l { i <= j } else { j <= i } {
                    a.m.vals[k]
                } else {
                    z
                }
            })
            .collect();
        cx.put(t, M::new(a.m.shape.clone(), v));
    }
}

fn diagflat<E: Elem>(cx: &mut Ctx<E>) {
    if cx.one_in(8) {
        let a = cx.pick_rank(2, 4);
        let r = call(Panic, || a.t.diagflat());
        discard(r);
        return;
    }
    let a = match cx.pick_if(|m| m.rank() == 1 && m.n() > 0 && m.n() <= 130) {
        Some(a) => a,
        None => {
            let n = 1 + cx.len(6).min(130);
            cx.fresh(vec![n])
        }
    };
    let r = call(Ok, || a.t.diagflat());
    if let Some(t) = r {
        let n = a.m.n();
        let z = E::norm(E::V::from_i(0));
        let v = (0..n * n).map(|k| if k / n == k % n { a.m.vals[k % n] } else { z }).collect();
        cx.put(t, M::new(vec![n, n], v));
    }
}

fn meshgrid<E: Elem>(cx: &mut Ctx<E>) {
    let k = 1 + cx.r(3);
    let mut ts = Vec::new();
    for _ in 0..k {
        let a = match cx.pick_if(|m| m.rank() == 1 && m.n() > 0 && m.n() <= 30) {
            Some(a) if cx.one_in(2) => a,
            _ => {
                let n = 1 + cx.len(5).min(30);
                cx.fresh(vec![n])
            }
        };
        ts.push(a);
    }
    let ij = cx.one_in(2);
    let byval = cx.one_in(2);
    let meth = cx.one_in(2);
    let f = |i: usize| ts[i].t;
    let g = |i: usize| calm(|| ts[i].t.clone());
    macro_rules! go {
        ($x:expr) => {{
            let x = $x;
            call(Ok, move || if ij { Vec::from(init::meshgrid_ij(x)) } else { Vec::from(init::meshgrid(x)) })
        }};
    }
    let r: Option<Vec<Tensor<E>>> = match (k, byval) {
        (1, true) => go!([g(0)]),
        (1, false) => go!([f(0)]),
        (2, _) if meth => call(Ok, || Vec::from(if ij { f(0).meshgrid_ij(f(1)) } else { f(0).meshgrid(f(1)) })),
        (2, true) => go!([g(0), g(1)]),
        (2, false) => go!([f(0), f(1)]),
        (_, true) => go!([g(0), g(1), g(2)]),
        _ => go!([f(0), f(1), f(2)]),
    };
    if let Some(mut r) = r {
        let mut s: Vec<usize> = ts.iter().map(|t| t.m.n()).collect();
        if !ij {
            s.reverse();
        }
        let st = strides(&s);
        let mut i = 0;
        for t in r.drain(..) {
            let d = if ij { i } else { k - 1 - i };
            let v = (0..prod(&s)).map(|j| ts[i].m.vals[j / st[d] % s[d]]).collect();
            cx.put(t, M::new(s.clone(), v));
            i += 1;
        }
        if i != k {
            wrong("meshgrid returned another number of tensors");
        }
        calm(move || drop(r));
    }
}

/// Integer tensors: operators the element types above do not have.
fn ints<E: Elem>(cx: &mut Ctx<E>) {
    let k = cx.r(4);
    let mut s = cx.dims(k);
    if k > 0 {
        s[0] = 1 + cx.len(4).min(3000);
    }
    let n = prod(&s);
    let k = cx.r(s.len() + 1);
    let bs = s[s.len() - k..].to_vec();
    let bn = prod(&bs);
    let op = cx.r(24);
    let av: Vec<i32> = (0..n).map(|_| cx.rng.u64() as i32 >> 12).collect();
    let bv: Vec<i32> = (0..bn)
        .map(|_| match op {
            5 | 6 => cx.rng.usize(16) as i32,
            _ => 1 + cx.rng.usize(1000) as i32,
        })
        .collect();
    let sh = calm(|| Shape::from(s.as_slice()));
    let (a2, b2) = (av.clone(), bv.clone());
    let a = calm(move || Tensor::<i32>::from_vec(a2, sh));
    let b = calm(move || Tensor::<i32>::from_vec(b2, bs.as_slice()));
    let c = 1 + cx.r(9) as i32;
    let u: Vec<u32> = bv.iter().map(|x| *x as u32 % 32).collect();
    let f: Box<dyn Fn(i32, i32) -> i32> = Box::new(move |x, y| match op {
        0 => x / y,
        1 => x % y,
        2 => x & y,
        3 => x | y,
        4 => x ^ y,
        5 => x << y,
        6 => x >> y,
        7 => !x,
        8 => c + x,
        9 => c - x,
        10 => x.count_ones() as i32,
        11 => x.rotate_left(y as u32 % 32),
        12 => x.abs(),
        13 => x / c,
        14 => x.rotate_right(y as u32 % 32),
        15 => x.swap_bytes(),
        16 => x.reverse_bits(),
        17 => x.to_be(),
        18 => x.count_zeros() as i32,
        19 => x.leading_zeros() as i32,
        20 => x.trailing_zeros() as i32,
        21 => x.min(y),
        22 => x.max(y),
        _ => x.leading_ones() as i32 * 64 + x.trailing_ones() as i32,
    });
    let r: Option<Tensor<i32>> = match op {
        10 | 18 | 19 | 20 | 23 => {
            let r = call(Ok, || match op {
                10 => (a.count_ones(), None),
                18 => (a.count_zeros(), None),
                19 => (a.leading_zeros(), None),
                20 => (a.trailing_zeros(), None),
                _ => (a.leading_ones(), Some(a.trailing_ones())),
            });
            match r {
                Some((t, u)) => {
                    let got: Vec<i32> = match &u {
                        Some(u) => t.as_slice().iter().zip(u.as_slice()).map(|(x, y)| *x as i32 * 64 + *y as i32).collect(),
                        None => t.as_slice().iter().map(|x| *x as i32).collect(),
                    };
                    calm(move || {
                        drop(t);
                        drop(u);
                    });
                    let want: Vec<i32> = av.iter().map(|x| f(*x, 0)).collect();
                    if got != want {
                        wrong("a bit count is wrong");
                    }
                }
                None => {}
            }
            None
        }
        11 | 14 => {
            let u = calm(|| Tensor::<u32>::from_vec(u.clone(), b.shape()));
            let r = call(Ok, || if op == 11 { a.rotate_left(&u) } else { a.rotate_right(&u) });
            calm(move || drop(u));
            r
        }
        _ => call(Ok, || match op {
            0 => &a / &b,
            1 => &a % &b,
            2 => &a & &b,
            3 => &a | &b,
            4 => &a ^ &b,
            5 => &a << &b,
            6 => &a >> &b,
            7 => !&a,
            8 => c + &a,
            9 => c - &a,
            12 => a.abs(),
            13 => &a / c,
            15 => a.swap_bytes(),
            16 => a.reverse_bits(),
            17 => a.to_be(),
            21 => a.min(&b),
            _ => a.max(&b),
        }),
    };
    if let Some(t) = r {
        let got = t.as_slice().to_vec();
        let gs = t.shape().as_vec();
        calm(move || drop(t));
        let want: Vec<i32> = (0..n).map(|i| f(av[i], bv[i % bn])).collect();
        if got != want || gs != s {
            wrong(&format!("integer operation {} is wrong: shape {:?}, expected {:?}", op, gs, s));
        }
    }
    calm(move || {
        drop(a);
        drop(b);
    });
}

/// Tensors of strings.
fn strings<E: Elem>(cx: &mut Ctx<E>) {
    let n = 1 + cx.r(4);
    let words: Vec<String> = (0..n).map(|_| format!("w{}", cx.rng.usize(1000))).collect();
    let refs: Vec<&str> = words.iter().map(|s| s.as_str()).collect();
    let k = cx.r(4);
    let r: Option<Tensor<String>> = match k {
        0 => call(Ok, || Tensor::<String>::from(refs[0])),
        1 => call(Ok, || Tensor::<String>::from(refs.clone())),
        2 => call(Ok, || Tensor::<String>::from(["a", "bb"])),
        _ => call(Ok, || {
            let t = Tensor::<String>::from(refs.clone());
            array::concatenate([&t, &t])
        }),
    };
    if let Some(t) = r {
        let want: Vec<String> = match k {
            0 => vec![words[0].clone()],
            1 => words.clone(),
            2 => vec!["a".to_string(), "bb".to_string()],
            _ => words.iter().chain(words.iter()).cloned().collect(),
        };
        let ok = t.as_slice() == want.as_slice();
        calm(move || drop(t));
        if !ok {
            wrong("a tensor of strings holds other strings");
        }
    }
}

// ------------------------------------------------------------ program

fn drop_one<E: Elem>(cx: &mut Ctx<E>) {
    if let Some(h) = cx.take_if(|_| true) {
        cx.drop_h(h);
    }
}

fn drop_many<E: Elem>(cx: &mut Ctx<E>) {
    for _ in 0..2 + cx.r(4) {
        if let Some(h) = cx.take_if(|_| true) {
            cx.drop_h(h);
        }
    }
}

fn send<E: Elem>(cx: &mut Ctx<E>) {
    if cx.nested {
        return;
    }
    let h = match cx.take_if(|_| true) {
        Some(h) => h,
        None => {
            let r = cx.pick();
            let t = calm(|| r.t.clone());
            cx.put_rc(t, r.m, r.blk);
            cx.regs.pop().unwrap()
        }
    };
    let q = cx.r(4);
    cx.w().mail[q].push_back(*h);
    rt::chan_release(q);
    rt::point(rt::K_OP);
}

fn recv<E: Elem>(cx: &mut Ctx<E>) {
    if cx.nested {
        return;
    }
    let q0 = cx.r(4);
    for d in 0..4 {
        let q = (q0 + d) % 4;
        if let Some(h) = cx.w().mail[q].pop_front() {
            rt::chan_acquire(q);
            verify(&h.t, &h.m, "contents_changed", true);
            cx.regs.push(Box::new(h));
            return;
        }
    }
    let _ = TID.get();
}

fn verify_regs<E: Elem>(cx: &mut Ctx<E>) {
    cx.verify_all();
}
