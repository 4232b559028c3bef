//! Operations that exist for float tensors only.
use crate::ops::*;
use crate::user::*;
use crate::world::Want::*;
use crate::world::*;
use essay_tensor::init;
use essay_tensor::tensor::{Shape, Tensor};
use essay_tensor::{io, linalg, signal, stats};
use num_complex::Complex;
use num_traits::MulAdd;
use std::rc::Rc;

type C = Ctx<f32>;

pub static T: &[(&'static str, u32, fn(&mut C))] = &[
    ("matmul", ARR, matmul),
    ("matmul_bad", ARR | BAD, matmul_bad),
    ("matvec", ARR, matvec),
    ("matvec_bad", ARR | BAD, matvec_bad),
    ("rfft_norm", ARR | SLOW, rfft_norm),
    ("histogram", FOLD, histogram),
    ("histogram2d", FOLD, histogram2d),
    ("linspace", CON, linspace),
    ("linspace_bad", CON | BAD, linspace_bad),
    ("arange", CON, arange),
    ("one_hot", CON, one_hot),
    ("mgrid", CON, mgrid),
    ("reduce_float", FOLD, reduce_float),
    ("unary_float", ELW, unary_float),
    ("binary_float", ELW, binary_float),
    ("float_other", ELW, float_other),
    ("normalize_unit", FOLD, normalize_unit),
    ("random_tensor", CON, random_tensor),
    ("from_tensors", CON | ARR, from_tensors),
    ("complex", ELW, complex),
    ("wav", CON, wav),
    ("file", CON, file),
];

fn wrong(msg: &str) -> ! {
    simrt::rt::violate("wrong_result", msg)
}

fn fin(m: &M<f32>) -> bool {
    m.vals.iter().all(|v| v.is_finite() && v.abs() < 1e12)
}

/// A finite operand with elements.
fn operand(cx: &mut C, lo: usize, hi: usize, cap: usize) -> Rf<f32> {
    match cx.pick_if(|m| m.n() > 0 && m.n() <= cap && m.rank() >= lo && m.rank() <= hi && fin(m)) {
        Some(r) => r,
        None => {
            let k = lo + cx.r(hi - lo + 1);
            let s = cx.dims(k);
            cx.fresh_fin(s)
        }
    }
}

fn put_tol(cx: &mut C, t: Tensor<f32>, shape: Vec<usize>, want: &[f64], scale: &[f64], tol: f64) {
    let m = M::new(shape, want.iter().map(|v| *v as f32).collect());
    put_round(cx, t, m, scale, tol);
}

/// Values that were computed with a library function: equal up to a few ulps.
fn put_fn(cx: &mut C, t: Tensor<f32>, shape: Vec<usize>, want: Vec<f32>) {
    let got: Vec<f32> = t.as_slice().iter().map(|x| x.val()).collect();
    if got.len() != want.len() {
        wrong(&format!("{} elements, expected {}", got.len(), want.len()));
    }
    for i in 0..got.len() {
        let (a, b) = (got[i], want[i]);
        let ok = a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-5 * b.abs() + 1e-30;
        if !ok {
            wrong(&format!("element {} is {}, expected {} (shape {:?})", i, a, b, shape));
        }
    }
    cx.put(t, M::new(shape, got));
}

// ------------------------------------------------------------ linalg

fn matmul(cx: &mut C) {
    let a = if cx.one_in(6) {
        let (x, y) = (1 + cx.len(5).min(200), 1 + cx.len(5).min(200));
        cx.fresh_fin(vec![x, y])
    } else {
        operand(cx, 2, 4, 2000)
    };
    let (m, k) = (a.m.rows(), a.m.cols());
    let r = a.m.rank();
    let b = match cx.pick_if(|x| x.rank() == r && fin(x) && x.n() > 0 && x.rows() == k && x.shape[..r - 2] == a.m.shape[..r - 2]) {
        Some(b) if b.m.n() < 2000 => b,
        _ => {
            let mut s = a.m.shape.clone();
            s[r - 2] = k;
            s[r - 1] = (1 + cx.len(6)).min(70);
            cx.fresh_fin(s)
        }
    };
    let n = b.m.cols();
    let batch = prod(&a.m.shape[..r - 2]);
    let meth = cx.one_in(2);
    let t = call(Ok, || if meth { a.t.matmul(b.t) } else { linalg::matmul(a.t, b.t) });
    if let Some(t) = t {
        let (mut w, mut s) = (Vec::new(), Vec::new());
        for z in 0..batch {
            for i in 0..m {
                for j in 0..n {
                    let (mut x, mut y) = (0f64, 0f64);
                    for l in 0..k {
                        let p = a.m.vals[(z * m + i) * k + l] as f64 * b.m.vals[(z * k + l) * n + j] as f64;
                        x += p;
                        y += p.abs();
                    }
                    w.push(x);
                    s.push(y);
                }
            }
        }
        let mut sh = a.m.shape.clone();
        sh[r - 2] = m;
        sh[r - 1] = n;
        put_tol(cx, t, sh, &w, &s, 1e-6 * (k + 8) as f64);
    }
}

fn matmul_bad(cx: &mut C) {
    let (a, b) = match cx.r(4) {
        0 => {
            let a = operand(cx, 2, 3, 2000);
            let mut s = a.m.shape.clone();
            let r = s.len();
            s[r - 2] = a.m.cols() + 1 + cx.r(4);
            (a, cx.fresh(s))
        }
        1 => {
            let a = operand(cx, 2, 3, 2000);
            let mut s = a.m.shape.clone();
            let r = s.len();
            if a.m.cols() == 1 {
                s[r - 2] = 2;
            } else {
                s[r - 2] = a.m.cols() - 1;
            }
            (a, cx.fresh(s))
        }
        2 => {
            let n = 1 + cx.r(4);
            let a = cx.fresh(vec![n]);
            let k = 1 + cx.r(4);
            (a, cx.fresh(vec![n, k]))
        }
        _ => {
            let (x, m, k, n) = (1 + cx.r(4), 1 + cx.r(4), 1 + cx.r(4), 1 + cx.r(4));
            let y = loop {
                let y = 1 + cx.r(5);
                if y != x {
                    break y;
                }
            };
            (cx.fresh(vec![x, m, k]), cx.fresh(vec![y, k, n]))
        }
    };
    discard(call(Panic, || a.t.matmul(b.t)));
}

fn matvec(cx: &mut C) {
    let a = operand(cx, 2, 4, 2000);
    let r = a.m.rank();
    let (m, k) = (a.m.rows(), a.m.cols());
    // the batch dimensions of x end with those of a
    let mut s = a.m.shape[..r - 2].to_vec();
    if cx.one_in(2) && a.m.n() < 200 {
        for _ in 0..1 + cx.r(2) {
            s.insert(0, 1 + cx.r(3));
        }
    }
    if s.is_empty() && cx.one_in(2) {
        s = vec![k];
    } else {
        let n = 1 + if cx.one_in(3) { cx.len(4).min(100) } else { cx.r(3) };
        s.extend([n, k]);
    }
    let x = match cx.pick_if(|x| x.shape == s && fin(x)) {
        Some(x) => x,
        None => cx.fresh_fin(s.clone()),
    };
    let rows = if s.len() == 1 { 1 } else { s[s.len() - 2] };
    let batch = x.m.n() / (rows * k);
    let abatch = a.m.n() / (m * k);
    if let Some(t) = call(Ok, || a.t.matvec(x.t)) {
        let (mut w, mut sc) = (Vec::new(), Vec::new());
        for z in 0..batch {
            for i in 0..rows {
                for j in 0..m {
                    let (mut p, mut q) = (0f64, 0f64);
                    for l in 0..k {
                        let v = x.m.vals[(z * rows + i) * k + l] as f64 * a.m.vals[(z % abatch * m + j) * k + l] as f64;
                        p += v;
                        q += v.abs();
                    }
                    w.push(p);
                    sc.push(q);
                }
            }
        }
        let mut sh = s.clone();
        *sh.last_mut().unwrap() = m;
        put_tol(cx, t, sh, &w, &sc, 1e-6 * (k + 8) as f64);
    }
}

fn matvec_bad(cx: &mut C) {
    let a = operand(cx, 1, 2, 2000);
    let n = if a.m.rank() == 1 {
        a.m.cols()
    } else if a.m.cols() > 1 && cx.one_in(2) {
        a.m.cols() - 1
    } else {
        a.m.cols() + 1 + cx.r(3)
    };
    let x = cx.fresh(vec![n]);
    discard(call(Panic, || a.t.matvec(x.t)));
}

// ------------------------------------------------------------ signal

fn rfft_norm(cx: &mut C) {
    let a = match cx.pick_if(|m| m.rank() >= 1 && m.n() > 0 && m.n() <= 600 && m.cols() <= 140 && fin(m)) {
        Some(a) => a,
        None => {
            let n = 1 + cx.len(12).min(300);
            let s = if cx.one_in(2) { vec![n] } else { vec![1 + cx.r(3), n] };
            cx.fresh_fin(s)
        }
    };
    if let Some(t) = call(Ok, || signal::rfft_norm(a.t, ())) {
        let n = a.m.cols();
        let o = n / 2 + 1;
        let (mut w, mut sc) = (Vec::new(), Vec::new());
        for b in 0..a.m.n() / n {
            let x: Vec<f64> = (0..n)
                .map(|i| {
                    let s = (std::f64::consts::PI / n as f64 * i as f64).sin();
                    a.m.vals[b * n + i] as f64 * s * s
                })
                .collect();
            let q: f64 = a.m.vals[b * n..(b + 1) * n].iter().map(|v| v.abs() as f64).sum();
            for k in 0..o {
                let (mut re, mut im) = (0., 0.);
                for i in 0..n {
                    let ph = -2. * std::f64::consts::PI * (k * i % n) as f64 / n as f64;
                    re += x[i] * ph.cos();
                    im += x[i] * ph.sin();
                }
                w.push((re * re + im * im).sqrt());
                sc.push(q + 1e-3);
            }
        }
        let mut sh = a.m.shape.clone();
        *sh.last_mut().unwrap() = o;
        put_tol(cx, t, sh, &w, &sc, 1e-4);
    }
}

// ------------------------------------------------------------ stats

fn bins_of(vals: &[f32], n: usize) -> (Vec<(usize, usize)>, f32, f32) {
    let min = vals.iter().cloned().fold(f32::INFINITY, f32::min);
    let max = vals.iter().cloned().fold(f32::NEG_INFINITY, f32::max);
    let d = if min == max { f32::EPSILON as f64 } else { (max as f64 - min as f64) / n as f64 };
    let b = vals
        .iter()
        .map(|v| {
            let x = (*v as f64 - min as f64) / d;
            let lo = ((x - 1e-3).floor().max(0.) as usize).min(n - 1);
            let hi = ((x + 1e-3).floor().max(0.) as usize).min(n - 1);
            (lo, hi)
        })
        .collect();
    (b, min, max)
}

fn check_bins(cx: &mut C, t: Tensor<f32>, n: usize, min: f32, max: f32) {
    let w: Vec<f64> = (0..=n).map(|i| min as f64 + (max as f64 - min as f64) * i as f64 / n as f64).collect();
    let s: Vec<f64> = w.iter().map(|_| min.abs().max(max.abs()) as f64 + 1e-6).collect();
    put_tol(cx, t, vec![n + 1], &w, &s, 1e-5);
}

fn check_counts(cx: &mut C, t: Tensor<f32>, shape: Vec<usize>, cells: &[(Vec<usize>, bool)]) {
    let n = prod(&shape);
    let mut lo = vec![0.; n];
    let mut hi = vec![0.; n];
    for (c, _) in cells {
        for x in c {
            hi[*x] += 1.;
        }
        if c.len() == 1 {
            lo[c[0]] += 1.;
        }
    }
    let got: Vec<f32> = t.as_slice().iter().map(|x| x.val()).collect();
    if got.len() != n {
        wrong("histogram has the wrong number of bins");
    }
    let sum: f32 = got.iter().sum();
    if sum != cells.len() as f32 {
        wrong(&format!("histogram counts {} of {} items", sum, cells.len()));
    }
    for i in 0..n {
        if got[i] < lo[i] || got[i] > hi[i] {
            wrong(&format!("bin {} counts {} items, expected {}..{}", i, got[i], lo[i], hi[i]));
        }
    }
    cx.put(t, M::new(shape, got));
}

fn histogram(cx: &mut C) {
    let a = operand(cx, 1, 1, 6000);
    let n = 1 + cx.len(12);
    let def = cx.one_in(4);
    let n = if def { 10 } else { n };
    if let Some((v, b)) = call(Ok, || if def { stats::histogram(a.t, ()) } else { stats::histogram(a.t, n) }) {
        let (w, min, max) = bins_of(&a.m.vals, n);
        let cells: Vec<(Vec<usize>, bool)> = w.iter().map(|(l, h)| ((*l..=*h).collect(), false)).collect();
        check_counts(cx, v, vec![n], &cells);
        check_bins(cx, b, n, min, max);
    }
}

fn histogram2d(cx: &mut C) {
    if cx.one_in(8) {
        let a = match cx.r(3) {
            0 => cx.fresh_fin(vec![2]),
            1 => cx.fresh_fin(vec![3, 3]),
            _ => cx.fresh_fin(vec![2, 2, 2]),
        };
        let r = call(Panic, || stats::histogram2d(a.t, 3));
        discard(r);
        return;
    }
    let a = match cx.pick_if(|m| m.rank() == 2 && m.cols() == 2 && m.n() > 0 && fin(m)) {
        Some(a) => a,
        None => {
            let n = 1 + cx.len(12).min(3000);
            cx.fresh_fin(vec![n, 2])
        }
    };
    let n = 1 + cx.len(6).min(60);
    if let Some((v, x, y)) = call(Ok, || stats::histogram2d(a.t, n)) {
        let xs: Vec<f32> = a.m.vals.iter().step_by(2).cloned().collect();
        let ys: Vec<f32> = a.m.vals.iter().skip(1).step_by(2).cloned().collect();
        let (bx, x0, x1) = bins_of(&xs, n);
        let (by, y0, y1) = bins_of(&ys, n);
        let cells: Vec<(Vec<usize>, bool)> = (0..xs.len())
            .map(|i| {
                let mut c = Vec::new();
                for p in by[i].0..=by[i].1 {
                    for q in bx[i].0..=bx[i].1 {
                        c.push(p * n + q);
                    }
                }
                (c, false)
            })
            .collect();
        check_counts(cx, v, vec![n, n], &cells);
        check_bins(cx, x, n, x0, x1);
        check_bins(cx, y, n, y0, y1);
    }
}

// ------------------------------------------------------------ init

fn range_pair(cx: &mut C, positive: bool) -> (Rf<f32>, Rf<f32>) {
    let k = cx.r(3);
    let s = cx.dims(k);
    let n = prod(&s);
    let lo: Vec<f32> = (0..n).map(|_| cx.r(20) as f32 + if positive { 1. } else { -10. }).collect();
    let hi: Vec<f32> = lo.iter().map(|v| v + cx.r(20) as f32).collect();
    let a = cx.fresh_with(s.clone(), lo);
    let b = cx.fresh_with(s, hi);
    (a, b)
}

fn linspace(cx: &mut C) {
    let kind = cx.r(5);
    let (a, b) = range_pair(cx, kind == 1);
    let len = cx.len(7).min(2000);
    let meth = cx.one_in(2);
    let t = call(Ok, || match kind {
        0 | 4 => if meth { a.t.linspace(b.t, len) } else { init::linspace(a.t, b.t, len) },
        1 => if meth { a.t.geomspace(b.t, len) } else { init::geomspace(a.t, b.t, len) },
        2 => if meth { a.t.logspace(b.t, len) } else { init::logspace(a.t, b.t, len) },
        _ => init::logspace_opt(a.t, b.t, len, 2.0f32),
    });
    if let Some(t) = t {
        let n = a.m.n();
        let mut sh = a.m.shape.clone();
        if kind == 1 && n == 1 {
            sh = vec![len];
        } else {
            sh.insert(0, len);
        }
        let mut w = Vec::new();
        for k in 0..len {
            for i in 0..n {
                let f = |x: f64, y: f64| x + if len > 1 { (y - x) / (len - 1) as f64 * k as f64 } else { 0. };
                let (x, y) = (a.m.vals[i] as f64, b.m.vals[i] as f64);
                w.push(match kind {
                    0 | 4 => f(x, y),
                    1 => f(x.ln(), y.ln()).exp(),
                    2 => 10f64.powf(f(x, y)),
                    _ => 2f64.powf(f(x, y)),
                });
            }
        }
        let s: Vec<f64> = w.iter().map(|x| x.abs() + if kind % 4 == 0 { 50. } else { 0. }).collect();
        let s = if s.is_empty() { vec![1.] } else { s };
        let wc: Vec<f64> = w.clone();
        if wc.iter().any(|x| *x > 1e35) {
            discard(Some(t));
            return;
        }
        put_tol(cx, t, sh, &wc, &s, 2e-4);
    }
}

fn linspace_bad(cx: &mut C) {
    let (a, b) = range_pair(cx, true);
    let kind = cx.r(3);
    let len = 2 + cx.r(4);
    if cx.one_in(2) {
        // decreasing in one position
        let mut v = b.m.vals.clone();
        let i = cx.r(v.len());
        v[i] = a.m.vals[i] - 0.5;
        let b = cx.fresh_with(b.m.shape.clone(), v);
        discard(call(Panic, || match kind {
            0 => init::linspace(a.t, b.t, len),
            1 => init::geomspace(a.t, b.t, len),
            _ => init::logspace(a.t, b.t, len),
        }));
    } else {
        let mut s = b.m.shape.clone();
        s.push(2);
        let b = cx.fresh(s);
        discard(call(Panic, || match kind {
            0 => init::linspace(a.t, b.t, len),
            1 => init::geomspace(a.t, b.t, len),
            _ => init::logspace(a.t, b.t, len),
        }));
    }
}

fn arange(cx: &mut C) {
    let a = cx.r(20) as f32 * 0.5 - 5.;
    let step = (1 + cx.r(6)) as f32 * 0.25;
    let len = cx.len(20) as f32 * 0.5;
    let down = cx.one_in(3);
    let (b, step) = if down { (a - len, -step) } else { (a + len, step) };
    let bad = len > 0. && cx.one_in(5);
    if bad {
        let z = cx.one_in(3);
        discard(call(Panic, || if z { init::arange(a, b, 0.) } else { init::arange(a, b, -step) }));
        return;
    }
    let meth = cx.one_in(2);
    if let Some(t) = call(Ok, || if meth { Tensor::arange(a, b, step) } else { init::arange(a, b, step) }) {
        let mut v = Vec::new();
        let mut x = a;
        while (step > 0. && x < b) || (step < 0. && x > b) {
            v.push(x);
            x += step;
        }
        cx.put(t, M::new(vec![v.len()], v));
    }
}

fn one_hot(cx: &mut C) {
    let n = 1 + cx.len(8);
    let k = cx.len(4).min(300);
    let mut idx: Vec<usize> = (0..k).map(|_| cx.r(n)).collect();
    if cx.one_in(5) {
        idx.push(n + cx.r(2));
        discard(call(Panic, || init::one_hot(&idx, n)));
        return;
    }
    let meth = cx.one_in(2);
    if let Some(t) = call(Ok, || if meth { Tensor::one_hot(&idx, n) } else { init::one_hot(&idx, n) }) {
        let v = (0..n).map(|i| if idx.contains(&i) { 1. } else { 0. }).collect();
        cx.put(t, M::new(vec![n], v));
    }
}

fn mgrid(cx: &mut C) {
    let k = cx.r(3);
    let r = call(Ok, || match k {
        0 => init::mgrid::<3, 2>(),
        1 => init::mgrid::<1, 4>(),
        _ => init::mgrid::<5, 3>(),
    });
    if let Some([x, y]) = r {
        let (m, n) = [(3, 2), (1, 4), (5, 3)][k];
        let mut a = Vec::new();
        let mut b = Vec::new();
        for j in 0..n {
            for i in 0..m {
                a.push(i as f32);
                b.push(j as f32);
            }
        }
        cx.put(x, M::new(vec![n, m], a));
        cx.put(y, M::new(vec![n, m], b));
    }
}

fn random_tensor(cx: &mut C) {
    let s = cx.shape();
    let s = if prod(&s) > 2000 { vec![4] } else { s };
    let sh = shp(cx, &s);
    let seed = if cx.one_in(2) { Some(cx.rng.u64()) } else { None };
    let norm = cx.one_in(2);
    if let Some(t) = call(Ok, move || if norm { init::random_normal(sh, seed) } else { init::random_uniform(sh, seed) }) {
        let v: Vec<f32> = t.as_slice().iter().map(|x| x.val()).collect();
        if v.len() != prod(&s) {
            wrong("a random tensor has the wrong size");
        }
        cx.put(t, M::new(s, v));
    }
}

fn from_tensors(cx: &mut C) {
    let a = operand(cx, 0, 3, 2000);
    let k = if cx.one_in(10) { 1 + cx.r(10) } else { 1 + cx.r(3) };
    let mut ts = vec![a];
    while ts.len() < k {
        let s = ts[0].m.shape.clone();
        let b = match cx.pick_if(|m| m.shape == s) {
            Some(b) => b,
            None => cx.fresh(s),
        };
        ts.push(b);
    }
    let form = cx.r(3);
    if k == 2 && cx.one_in(5) {
        // tensors of different shapes
        let mut s = ts[0].m.shape.clone();
        s.push(2);
        let b = cx.fresh(s);
        let (x, y) = (calm(|| ts[0].t.clone()), calm(|| b.t.clone()));
        discard(call(Panic, move || Tensor::from([x, y])));
        return;
    }
    let l: Vec<Tensor<f32>> = ts.iter().map(|r| calm(|| r.t.clone())).collect();
    let r = match (form, k) {
        (0, 2) => {
            let mut l = l;
            let y = l.pop().unwrap();
            let x = l.pop().unwrap();
            drop(l);
            call(Ok, move || Tensor::from([x, y]))
        }
        (1, _) => {
            let r = call(Ok, || Tensor::from(&l));
            calm(move || drop(l));
            r
        }
        _ => {
            let r = call(Ok, || Tensor::from(l.as_slice()));
            calm(move || drop(l));
            r
        }
    };
    if let Some(t) = r {
        let mut s = ts[0].m.shape.clone();
        s.insert(0, k);
        let v = ts.iter().flat_map(|r| r.m.vals.iter().cloned()).collect();
        cx.put(t, M::new(s, v));
    }
}

// ------------------------------------------------------------ reductions

fn reduce_float(cx: &mut C) {
    let a = operand(cx, 0, 4, 20000);
    let kind = cx.r(6);
    let whole = kind == 5 || cx.one_in(2) || a.m.rank() == 0;
    let (x, i) = if whole { (essay_tensor::tensor::Axis::from(None), None) } else { axis_opt(cx, a.m.rank()) };
    let t = call(Ok, move || match (kind, whole) {
        (0, true) => a.t.reduce_min(),
        (0, _) => a.t.reduce_min_axis(x),
        (1, true) => a.t.reduce_max(),
        (1, _) => a.t.reduce_max_axis(x),
        (2, true) => a.t.reduce_mean(),
        (2, _) => a.t.reduce_mean_axis(x),
        (3, true) => a.t.reduce_std(),
        (3, _) => a.t.reduce_std_axis(x),
        (4, true) => a.t.reduce_variance(),
        (4, _) => a.t.reduce_variance_axis(x),
        _ => a.t.reduce_hypot(),
    });
    if let Some(t) = t {
        let (sh, ls) = lanes(&a.m, i);
        let (mut w, mut s) = (Vec::new(), Vec::new());
        for l in &ls {
            let v: Vec<f64> = l.iter().map(|j| a.m.vals[*j] as f64).collect();
            let n = v.len() as f64;
            let mean = v.iter().sum::<f64>() / n;
            let var = v.iter().map(|x| (x - mean) * (x - mean)).sum::<f64>() / n;
            let amax = v.iter().fold(0f64, |a, b| a.max(b.abs()));
            let (r, q) = match kind {
                0 => (v.iter().cloned().fold(f64::INFINITY, f64::min), 0.),
                1 => (v.iter().cloned().fold(f64::NEG_INFINITY, f64::max), 0.),
                2 => (mean, amax),
                3 => {
                    // error of a square root
                    let e = 1e-6 * (n + 30.) * (amax * amax + 1e-6);
                    (var.sqrt(), (e / (var.sqrt() + 1e-30)).min(e.sqrt()))
                }
                4 => (var, amax * amax + 1e-6),
                _ => (v.iter().map(|x| x * x).sum::<f64>().sqrt(), amax * n.sqrt() + 1e-6),
            };
            w.push(r);
            s.push(q);
        }
        let n = ls.iter().map(|l| l.len()).max().unwrap_or(1);
        // Welford's recurrence loses about n ulps of the largest value
        let tol = if kind == 3 { 1. } else { 1e-6 * (n + 30) as f64 };
        put_tol(cx, t, sh, &w, &s, tol);
    }
}

fn normalize_unit(cx: &mut C) {
    let a = operand(cx, 0, 4, 5000);
    let min = a.m.vals.iter().cloned().fold(f32::MAX, f32::min);
    let max = a.m.vals.iter().cloned().fold(f32::MIN, f32::max);
    if let Some(t) = call(Ok, || a.t.normalize_unit()) {
        let v = a.m.vals.iter().map(|v| (v - min) / (max - min)).collect();
        put_fn(cx, t, a.m.shape.clone(), v);
    }
}

// ------------------------------------------------------------ element-wise

macro_rules! unary {
    ($($n:ident)*) => {
        static UN: &[(fn(&Tensor<f32>) -> Tensor<f32>, fn(f32) -> f32)] = &[$((|t| t.$n(), |x| x.$n())),*];
    };
}
unary!(floor ceil round trunc fract signum recip sqrt exp exp2 ln log2 log10 to_degrees to_radians cbrt sin asin sinh
    asinh cos acos cosh acosh tan atan tanh atanh exp_m1 ln_1p abs);

fn unary_float(cx: &mut C) {
    let a = cx.pick();
    let k = cx.r(UN.len());
    if let Some(t) = call(Ok, || UN[k].0(a.t)) {
        let v = a.m.vals.iter().map(|x| UN[k].1(*x)).collect();
        put_fn(cx, t, a.m.shape.clone(), v);
    }
}

fn binary_float(cx: &mut C) {
    let a = cx.pick_some();
    let b = suffix_of(cx, &a);
    let k = cx.r(8);
    let t = call(Ok, || match k {
        0 => a.t.powf(b.t),
        1 => a.t.log(b.t),
        2 => a.t.hypot(b.t),
        3 => a.t.atan2(b.t),
        4 => a.t.copysign(b.t),
        5 => a.t / b.t,
        6 => a.t % b.t,
        _ => a.t / 3.0f32,
    });
    if let Some(t) = t {
        let n = b.m.n();
        if k == 4 && b.m.vals.iter().any(|y| y.is_nan()) {
            // the sign of a computed NaN is not specified
            discard(Some(t));
            return;
        }
        let v = a.m.vals.iter().enumerate().map(|(i, x)| {
            let y = b.m.vals[i % n];
            match k {
                0 => x.powf(y),
                1 => x.log(y),
                2 => x.hypot(y),
                3 => x.atan2(y),
                4 => x.copysign(y),
                5 => x / y,
                6 => x % y,
                _ => x / 3.,
            }
        }).collect();
        put_fn(cx, t, bshape(&a.m.shape, &b.m.shape), v);
    }
}

fn float_other(cx: &mut C) {
    let a = cx.pick_some();
    match cx.r(4) {
        0 => {
            // pairs
            if let Some(t) = call(Ok, || a.t.sin_cos()) {
                let ok = t.size() == a.m.n()
                    && t.shape().as_vec() == a.m.shape
                    && (0..a.m.n()).all(|i| {
                        let (s, c) = t.as_slice()[i];
                        let (x, y) = a.m.vals[i].sin_cos();
                        s.same(x) && c.same(y)
                    });
                calm(move || drop(t));
                if !ok {
                    wrong("sin_cos is wrong");
                }
            }
        }
        1 => {
            let b = suffix_of(cx, &a);
            let c = suffix_of(cx, &a);
            let x = calm(|| a.t.clone());
            if let Some(t) = call(Ok, move || x.mul_add(b.t, c.t)) {
                let (n, k) = (b.m.n(), c.m.n());
                let v = a.m.vals.iter().enumerate().map(|(i, x)| x.mul_add(b.m.vals[i % n], c.m.vals[i % k])).collect();
                put_fn(cx, t, a.m.shape.clone(), v);
            }
        }
        2 => {
            let e = cx.r(4) as i32;
            if let Some(t) = call(Ok, || a.t.powi(e)) {
                let v = a.m.vals.iter().map(|x| x.powi(e)).collect();
                put_fn(cx, t, a.m.shape.clone(), v);
            }
        }
        _ => {
            let neg = cx.one_in(2);
            if let Some(t) = call(Ok, || if neg { a.t.is_negative() } else { a.t.is_positive() }) {
                let ok = t.size() == a.m.n()
                    && (0..a.m.n()).all(|i| {
                        let x = a.m.vals[i];
                        x.is_nan() || t.as_slice()[i] == if neg { x.is_sign_negative() } else { x.is_sign_positive() }
                    });
                calm(move || drop(t));
                if !ok {
                    wrong("is_negative/is_positive is wrong");
                }
            }
        }
    }
}

fn complex(cx: &mut C) {
    let k = cx.r(3);
    let s = cx.dims(k);
    let n = prod(&s);
    let v: Vec<Complex<f32>> = (0..n).map(|_| Complex::new(cx.r(20) as f32 - 8., 1. + cx.r(20) as f32)).collect();
    let mut b = vec_of(n);
    b.extend(v.iter().cloned());
    let t = calm(|| Tensor::<Complex<f32>>::from_vec(b, s.as_slice()));
    let near = |a: Complex<f32>, b: Complex<f32>| {
        a == b || (a.re.is_nan() && b.re.is_nan()) || (a - b).norm() <= 1e-4 * b.norm() + 1e-20 || !b.norm().is_finite()
    };
    let op = cx.r(20);
    match op {
        0..=5 => {
            let r = call(Ok, || match op {
                0 => t.re(),
                1 => t.im(),
                2 => t.norm_sqr(),
                3 => t.l1_norm(),
                4 => t.arg(),
                _ => t.norm(),
            });
            if let Some(r) = r {
                let w = v.iter().map(|c| match op {
                    0 => c.re,
                    1 => c.im,
                    2 => c.norm_sqr(),
                    3 => c.l1_norm(),
                    4 => c.arg(),
                    _ => c.norm(),
                }).collect();
                put_fn(cx, r, s, w);
            }
        }
        6 => {
            if let Some(p) = call(Ok, || t.to_polar()) {
                let ok = p.shape().as_vec() == s && p.size() == n
                    && (0..n).all(|i| {
                        let (x, y) = v[i].to_polar();
                        let (a, b) = p.as_slice()[i];
                        (x - a).abs() <= 1e-5 * x.abs() && (y - b).abs() <= 1e-5
                    });
                if !ok {
                    wrong("to_polar is wrong");
                }
                if let Some(q) = call(Ok, || Tensor::<Complex<f32>>::from_polar(&p)) {
                    let ok = q.shape().as_vec() == s && q.size() == n && (0..n).all(|i| near(q.as_slice()[i], v[i]));
                    calm(move || drop(q));
                    if !ok {
                        wrong("from_polar is wrong");
                    }
                }
                calm(move || drop(p));
            }
        }
        7..=10 => {
            // with a real or integer operand
            let k = cx.r(s.len() + 1);
            let bs = s[s.len() - k..].to_vec();
            let bn = prod(&bs);
            let f: Vec<f32> = (0..bn).map(|_| 1. + cx.r(5) as f32).collect();
            let u: Vec<u32> = f.iter().map(|x| *x as u32).collect();
            let (f2, u2, b2) = (f.clone(), u.clone(), bs.clone());
            let ft = calm(move || Tensor::<f32>::from_vec(f2, b2.as_slice()));
            let ut = calm(move || Tensor::<u32>::from_vec(u2, bs.as_slice()));
            let r = call(Ok, || match op {
                7 => t.scale(&ft),
                8 => t.unscale(&ft),
                9 => t.powu(&ut),
                _ => t.expf(&ft),
            });
            if let Some(r) = r {
                let ok = r.shape().as_vec() == s && r.size() == n
                    && (0..n).all(|i| {
                        let (c, x, y) = (v[i], f[i % bn], u[i % bn]);
                        near(r.as_slice()[i], match op {
                            7 => c.scale(x),
                            8 => c.unscale(x),
                            9 => c.powu(y),
                            _ => c.expf(x),
                        })
                    });
                calm(move || drop(r));
                if !ok {
                    wrong("a complex operation with a real operand is wrong");
                }
            }
            calm(move || {
                drop(ft);
                drop(ut);
            });
        }
        _ => {
            let r = call(Ok, || match op {
                11 => t.conj(),
                12 => &t * &t,
                13 => t.inv(),
                14 => t.finv(),
                15 => t.fdiv(&t),
                16 => t.powc(&t),
                17 => -&t,
                _ => &t + &t,
            });
            if let Some(r) = r {
                let ok = r.shape().as_vec() == s && r.size() == n
                    && (0..n).all(|i| {
                        let c = v[i];
                        near(r.as_slice()[i], match op {
                            11 => c.conj(),
                            12 => c * c,
                            13 => c.inv(),
                            14 => {
                                use num_complex::ComplexFloat;
                                c.recip()
                            }
                            15 => Complex::new(1., 0.),
                            16 => c.powc(c),
                            17 => -c,
                            _ => c + c,
                        })
                    });
                calm(move || drop(r));
                if !ok {
                    wrong("a complex operation is wrong");
                }
            }
        }
    }
    calm(move || drop(t));
}

// ------------------------------------------------------------ io

pub fn wav_bytes(ch: u16, rate: u32, samples: &[i16]) -> Vec<u8> {
    let mut b = Vec::new();
    b.extend(b"RIFF");
    b.extend((36 + samples.len() as u32 * 2).to_le_bytes());
    b.extend(b"WAVEfmt ");
    b.extend(16u32.to_le_bytes());
    b.extend(1u16.to_le_bytes());
    b.extend(ch.to_le_bytes());
    b.extend(rate.to_le_bytes());
    b.extend((rate.wrapping_mul(ch as u32 * 2)).to_le_bytes());
    b.extend((ch.wrapping_mul(2)).to_le_bytes());
    b.extend(16u16.to_le_bytes());
    b.extend(b"data");
    b.extend((samples.len() as u32 * 2).to_le_bytes());
    for s in samples {
        b.extend(s.to_le_bytes());
    }
    b
}

fn wav(cx: &mut C) {
    let ch = 1 + cx.r(3);
    let n = cx.len(12) * ch;
    let s: Vec<i16> = (0..n).map(|_| cx.rng.u64() as i16).collect();
    let b = wav_bytes(ch as u16, 44100, &s);
    let c = calm(|| {
        let mut v: Vec<u8> = Vec::new();
        v.extend(&b);
        Tensor::<u8>::from(v)
    });
    if let Some((t, rate)) = call(Ok, || io::decode_wav(&c)) {
        if rate.as_slice() != [44100] {
            wrong("decode_wav returned another sample rate");
        }
        calm(move || drop(rate));
        cx.put(t, M::new(vec![n / ch, ch], s.iter().map(|x| *x as f32 / 32768.).collect()));
    }
    calm(move || drop(c));
}

fn file(cx: &mut C) {
    let v = simrt::vfs::vfs();
    let name = ["small", "page", "none"][cx.r(3)];
    if v.lookup("/simfs/small").is_none() {
        v.put("/simfs/small", (0..37u8).collect());
        v.put("/simfs/page", (0..4096u32).map(|i| (i * 7) as u8).collect());
    }
    let path = format!("/simfs/{}", name);
    if let Some(r) = call(Ok, || io::read_file(path.as_str())) {
        match r {
            Result::Ok(t) => {
                let want: Vec<u8> = match name {
                    "small" => (0..37u8).collect(),
                    "page" => (0..4096u32).map(|i| (i * 7) as u8).collect(),
                    _ => wrong("read_file returned a file that does not exist"),
                };
                let ok = t.as_slice() == want.as_slice();
                calm(move || drop(t));
                if !ok {
                    wrong("read_file returned other bytes");
                }
            }
            Err(e) => {
                if name != "none" && !alloc_fired() {
                    wrong(&format!("read_file failed: {}", e));
                }
                calm(move || drop(e));
            }
        }
    }
}

#[allow(dead_code)]
fn unused(_: Shape, _: Rc<u8>) {}
