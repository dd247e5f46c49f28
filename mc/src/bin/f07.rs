//! F07: the covariance stays symmetric and positive, corrections never increase it, noise never decreases it,
//! and it does not depend on state, control or measurement values.
#![allow(unused_imports)]
use mc::explore::*;
use mc::fam::*;
use mc::gf::Gf;
use mc::num::*;
use mc::points::*;
use mc::rig::*;
use mc::steps::*;
use mc::*;
use std::collections::VecDeque;

/// One event: model values set first, then the operation.
#[derive(Clone)]
struct L<T> {
    k: K,
    sets: Vec<(W, Vec<T>)>,
    lambda: T,
}
fn diag<T: Sc>(n: usize, d: &[(i64, i64)]) -> Vec<T> {
    let mut v = vec![T::zero(); n * n];
    for i in 0..n {
        let (a, b) = d[i % d.len()];
        v[i * n + i] = T::dy(a, b);
    }
    v
}
/// The models: stable, growing, singular, nilpotent and coupling transitions; no, partial, full and correlated noise;
/// corrections of single components, sums, repeated rows and all states.
fn models<T: Alpha>(d: (usize, usize, usize), linear: bool, small: bool) -> Vec<L<T>> {
    let (n, m, c) = d;
    let z = T::zero();
    let o = T::one();
    let mat = |r: usize, c: usize, f: &dyn Fn(usize, usize) -> (i64, i64)| -> Vec<T> {
        (0..r * c).map(|i| { let (a, b) = f(i / c, i % c); T::dy(a, b) }).collect()
    };
    let id = diag::<T>(n, &[(1, 1)]);
    let rot = mat(n, n, &|i, j| if (i + 1) % n == j { (if i + 1 == n { -1 } else { 1 }, 1) } else { (0, 1) });
    let shear = mat(n, n, &|i, j| if i == j { (1, 1) } else if j == i + 1 { (1, 2) } else { (0, 1) });
    let shift = mat(n, n, &|i, j| if j == i + 1 { (1, 1) } else { (0, 1) });
    let dense = mat(n, n, &|i, j| ([3, -1, 2, 1, -2][(i * 2 + j) % 5], 4));
    let q0 = vec![z; n * n];
    let q1 = diag::<T>(n, &[(1, 4), (0, 1)]);
    let q2 = mat(n, n, &|_, _| (1, 8));
    let (p, t) = if linear { (K::Predict, K::Tuned) } else { (K::NlPredict, K::NlTuned) };
    let mut l = vec![];
    let mut pre = |k, a: &Vec<T>, q: &Vec<T>, lambda| l.push(L { k, sets: vec![(W::A, a.clone()), (W::Q, q.clone())], lambda });
    pre(p, &shear, &q1, o);
    pre(p, &id, &q2, o);
    pre(t, &dense, &q0, if T::EXACT { T::dy(2, 1) } else { T::dy(3, 4) });
    if !small {
        pre(p, &rot, &q0, o);
        pre(p, &shift, &q1, o);
        pre(t, &rot, &q2, if T::EXACT { T::dy(-4, 1) } else { T::dy(-5, 4) });
    }
    if linear {
        let b = mat(n, c, &|i, j| ([1, -1, 0, 2][(i + 2 * j) % 4], 2));
        let qc = mat(c, c, &|i, j| if i == j { (3, 4) } else { (1, 4) });
        l.push(L { k: K::Control, sets: vec![(W::B, b.clone()), (W::Qc, qc)], lambda: o });
        if !small {
            l.push(L { k: K::Control, sets: vec![(W::B, b), (W::Qc, vec![z; c * c])], lambda: o });
        }
    }
    let k = if linear { K::Correct } else { K::NlCorrect };
    let h1 = mat(m, n, &|i, j| if j == i % n { (1, 1) } else { (0, 1) });
    let h2 = mat(m, n, &|i, j| ([1, 1, -1, 2, 0][(i + j) % 5], 1));
    let h3 = vec![T::dy(1, 2); m * n];
    let r1 = diag::<T>(m, &[(1, 1)]);
    let r2 = mat(m, m, &|i, j| if i == j { (3, 4) } else { (1, 8) });
    let r3 = diag::<T>(m, &[(1, 16), (4, 1)]);
    let mut cor = |h: &Vec<T>, r: &Vec<T>| l.push(L { k, sets: vec![(W::H, h.clone()), (W::R, r.clone())], lambda: o });
    cor(&h1, &r1);
    cor(&h2, &r2);
    if !small {
        cor(&h3, &r3);
        cor(&vec![z; m * n], &r1);
        cor(&h1, &r3);
    }
    l
}
fn data<T: Sc>(s: &mut dyn Sys<T>, k: K, d: (usize, usize, usize), which: i64, out: &mut Vec<T>) {
    // the data the covariance must not depend on
    let v = Vals::<T>::dense(d, which);
    let f = if which == 3 { T::dy(0, 1) } else { T::dy(if which == 1 { -7 } else { 5 }, 2) };
    for w in [W::U, W::Z, W::X] {
        if s.has(w) && k.uses().contains(&w) {
            let x: Vec<T> = v.g(w).iter().map(|x| *x * f).collect();
            s.put(w, &x);
        }
    }
    *out = v.out.iter().map(|x| *x * f).collect();
}
fn act<T: Sc>(s: &mut dyn Sys<T>, l: &L<T>, which: i64, route: u8) -> Res {
    let d = s.dims();
    let mut v = Vals::zero(d);
    for (w, x) in &l.sets {
        s.put(*w, x);
    }
    data(s, l.k, d, which, &mut v.out);
    v.lambda = l.lambda;
    let n = d.0;
    v.v[W::X as usize].copy_from_slice(&s.buf(W::X)[..n]);
    perform(s, &v, l.k, route)
}

/// Exact arithmetic: every reachable covariance, every event from each, until nothing new appears.
fn reach<const P: u32>(h: &mut Harness, mk: Mk<Gf<P>>, linear: bool, small: bool, cap: usize)
where
    Gf<P>: Alpha + Sc<R = Gf<P>>,
{
    h.job(format!("reachable covariances {} {}", mk().label(), if small { "few models" } else { "all models" }), move |ctx| {
        let (mut a, mut b) = (mk(), mk());
        let d = a.dims();
        let n = d.0;
        let ls = models::<Gf<P>>(d, linear, small);
        let mut seen: std::collections::HashSet<Vec<u64>> = Default::default();
        let mut todo: VecDeque<Vec<Gf<P>>> = VecDeque::new();
        for start in [vec![Gf::<P>::new(0); n * n], diag::<Gf<P>>(n, &[(1, 1)]), diag::<Gf<P>>(n, &[(2, 1), (0, 1)]), vec![Gf::<P>::new(1); n * n]] {
            if seen.insert(start.iter().map(|x| x.bits()).collect()) {
                todo.push_back(start);
            }
        }
        let mut i = 0i64;
        while let Some(p) = todo.pop_front() {
            for (li, l) in ls.iter().enumerate() {
                i += 1;
                ctx.step(|| format!("{} P={p:?} event {li} ({:?} {:?} lambda {:?})", a.label(), l.k, l.sets, l.lambda));
                if let K::Correct | K::NlCorrect = l.k {
                    let mut v = Vals::<Gf<P>>::zero(d);
                    v.v[W::P as usize].copy_from_slice(&p);
                    for (w, x) in &l.sets {
                        v.v[*w as usize].copy_from_slice(x);
                    }
                    if !matches!(model(l.k, &v), Exp::To(..)) {
                        ctx.skipped += 1;
                        continue;
                    }
                }
                a.put(W::P, &p);
                b.put(W::P, &p);
                act(&mut *a, l, i % 4, (i % 4) as u8)?;
                act(&mut *b, l, (i + 1) % 4, ((i / 4) % 4) as u8)?;
                let (pa, pb) = (a.buf(W::P)[..n * n].to_vec(), b.buf(W::P)[..n * n].to_vec());
                for r in 0..n {
                    for c in 0..n {
                        ensure!(pa[r * n + c] == pa[c * n + r] && !pa[r * n + c].bad, "P is no longer symmetric: {pa:?}");
                        ensure!(pa[r * n + c] == pb[r * n + c], "P depends on the data: {pa:?} and {pb:?}");
                    }
                }
                let key: Vec<u64> = pa.iter().map(|x| x.bits()).collect();
                let mut f = 1;
                for k in &key {
                    f = mix(f, *k);
                }
                ctx.state(f);
                ctx.outcome(f);
                if seen.len() < cap && seen.insert(key) {
                    todo.push_back(pa);
                }
            }
        }
        ctx.traces = seen.len() as u64;
        Ok(())
    });
}

trait Num: Alpha {
    fn f(self) -> f64;
    const EPS: f64;
}
impl Num for f64 {
    fn f(self) -> f64 { self }
    const EPS: f64 = 1e-12;
}
impl Num for f32 {
    fn f(self) -> f64 { self as f64 }
    const EPS: f64 = 1e-5;
}
#[cfg(feature = "fixed")]
impl Num for I32F32 {
    fn f(self) -> f64 { self.to_num() }
    const EPS: f64 = 1e-6;
}
/// Positive semidefinite up to `tol`?
fn psd(n: usize, p: &[f64], tol: f64) -> bool {
    let mut a: Vec<f64> = (0..n * n).map(|i| (p[i] + p[i % n * n + i / n]) / 2.0 + if i / n == i % n { tol } else { 0.0 }).collect();
    for k in 0..n {
        let piv = a[k * n + k];
        if !(piv > 0.0) {
            return false;
        }
        for i in k + 1..n {
            let f = a[i * n + k] / piv;
            for j in k..n {
                a[i * n + j] -= f * a[k * n + j];
            }
        }
    }
    true
}
struct St<T> { x: Vec<T>, p: Vec<T>, top: f64 }
fn one<T: Num>(ctx: &mut Ctx, a: &mut dyn Sys<T>, b: &mut dyn Sys<T>, c: &mut dyn Sys<T>, from: &St<T>, l: &L<T>, i: i64, hist: &[usize]) -> Result<Option<St<T>>, Viol> {
    let d = a.dims();
    let n = d.0;
    ctx.step(|| format!("{} after {hist:?}: x={:?} P={:?} {:?} {:?} lambda {:?}", a.label(), from.x, from.p, l.k, l.sets, l.lambda));
    let before: Vec<f64> = from.p.iter().map(|x| x.f()).collect();
    let mut fp = i as u64 * 0;
    for x in &from.p {
        fp = mix(fp, x.bits());
    }
    ctx.state(fp);
    a.put(W::X, &from.x);
    b.put(W::X, &from.x);
    c.put(W::X, &from.x);
    a.put(W::P, &from.p);
    b.put(W::P, &from.p);
    c.put(W::P, &from.p);
    let r = (i % 4) as u8;
    act(a, l, i % 4, r)?;
    act(b, l, (i + 1) % 4, r)?;
    let pa: Vec<T> = a.buf(W::P)[..n * n].to_vec();
    let now: Vec<f64> = pa.iter().map(|x| x.f()).collect();
    let top = now.iter().chain(&before).fold(from.top, |m, x| m.max(x.abs()));
    // the innovation covariance of many measurements of many states is badly conditioned
    let eps = T::EPS * if n * d.1 > 40 { 1e3 } else { 1.0 };
    let tol = 1e-100 + eps * (top + if T::FIXED { 1e-3 } else { 0.0 });
    for k in 0..n * n {
        ensure!(now[k].is_finite(), "P[{k}] is {:?}", pa[k]);
        ensure!(pa[k].bits() == b.buf(W::P)[k].bits(), "P depends on the data: {:?} and {:?} in cell {k}", pa[k], b.buf(W::P)[k]);
        ensure!((now[k] - now[k % n * n + k / n]).abs() <= tol, "P is no longer symmetric: {pa:?}");
    }
    ensure!(psd(n, &now, tol), "P is no longer positive semidefinite: {pa:?}");
    let diff = |hi: &[f64], lo: &[f64]| -> Vec<f64> { hi.iter().zip(lo).map(|(a, b)| a - b).collect() };
    match l.k {
        K::Correct | K::NlCorrect => ensure!(psd(n, &diff(&before, &now), tol), "the correction increased the uncertainty: {before:?} to {now:?}"),
        K::Control => ensure!(psd(n, &diff(&now, &before), tol), "the control decreased the uncertainty: {before:?} to {now:?}"),
        _ => {
            // against the same step without process noise
            let mut l0 = l.clone();
            l0.sets[1].1.fill(T::zero());
            act(c, &l0, i % 4, r)?;
            let p0: Vec<f64> = c.buf(W::P)[..n * n].iter().map(|x| x.f()).collect();
            let up = p0.iter().fold(top, |m, x| m.max(x.abs()));
            ensure!(psd(n, &diff(&now, &p0), 1e-100 + eps * (up + if T::FIXED { 1e-3 } else { 0.0 })), "process noise decreased the uncertainty: {p0:?} to {now:?}");
        }
    }
    let mut o = 1;
    for x in &pa {
        o = mix(o, x.bits());
    }
    ctx.outcome(o);
    // rounding is relative to what the history has seen, as far as it can still be felt
    let cur = now.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    Ok(Some(St { x: a.buf(W::X)[..n].to_vec(), p: pa, top: cur.max(top * 0.5) }))
}
fn starts<T: Sc>(n: usize) -> Vec<Vec<T>> {
    let dense: Vec<T> = (0..n * n).map(|i| if i / n == i % n { T::dy(5 + (i % 3) as i64, 2) } else { T::dy(1, 2) }).collect();
    vec![vec![T::zero(); n * n], diag(n, &[(1, 1)]), vec![T::one(); n * n], diag(n, &[(0, 1), (8, 1)]), dense]
}
/// Every history up to a depth.
fn tree<T: Num>(h: &mut Harness, mk: Mk<T>, linear: bool, small: bool, depth: usize) {
    let n = mk().dims().0;
    for si in 0..starts::<T>(n).len() {
        h.job(format!("every history of {depth} events from start {si}, {} {}", mk().label(), if small { "few models" } else { "all models" }), move |ctx| {
            let (mut a, mut b, mut c) = (mk(), mk(), mk());
            let ls = models::<T>(a.dims(), linear, small);
            fn go<T: Num>(ctx: &mut Ctx, s: (&mut dyn Sys<T>, &mut dyn Sys<T>, &mut dyn Sys<T>), ls: &[L<T>], st: &St<T>, left: usize, i: &mut i64, hist: &mut Vec<usize>) -> Res {
                if left == 0 {
                    ctx.traces += 1;
                    return Ok(());
                }
                let (a, b, c) = s;
                for (k, l) in ls.iter().enumerate() {
                    *i += 1;
                    if let Some(nx) = one(ctx, a, b, c, st, l, *i, hist)? {
                        hist.push(k);
                        go(ctx, (a, b, c), ls, &nx, left - 1, i, hist)?;
                        hist.pop();
                    }
                }
                Ok(())
            }
            let p = starts::<T>(n)[si].clone();
            go(ctx, (&mut *a, &mut *b, &mut *c), &ls, &St { x: vec![T::zero(); n], p, top: 0.0 }, depth, &mut 0, &mut vec![])
        });
    }
}
/// Long histories: every word of up to `len` events repeated.
fn long<T: Num>(h: &mut Harness, mk: Mk<T>, linear: bool, len: usize, steps: usize) {
    h.job(format!("every cycle of up to {len} events for {steps} steps, {}", mk().label()), move |ctx| {
        let (mut a, mut b, mut c) = (mk(), mk(), mk());
        let n = a.dims().0;
        let mut ls = models::<T>(a.dims(), linear, true);
        for l in ls.iter_mut() {
            // noise in every direction: what rounding takes away does not pile up
            if !matches!(l.k, K::Control | K::Correct | K::NlCorrect) {
                l.sets[1].1 = diag(n, &[(1, 4), (1, 8)]);
            }
        }
        for wl in 1..=len {
            for code in 0..ls.len().pow(wl as u32) {
                let word: Vec<usize> = (0..wl).map(|j| code / ls.len().pow(j as u32) % ls.len()).collect();
                let start = &starts::<T>(n)[code % 5];
                let mut st = St { x: vec![T::zero(); n], p: start.clone(), top: 0.0 };
                for i in 0..steps {
                    st = one(ctx, &mut *a, &mut *b, &mut *c, &st, &ls[word[i % wl]], i as i64, &word)?.unwrap();
                    if st.p.iter().any(|x| x.f().abs() > if T::FIXED { 1e3 } else { 1e15 }) {
                        break;
                    }
                }
                ctx.traces += 1;
            }
        }
        Ok(())
    });
}

fn main() {
    let mut h = Harness::new("F07");
    let t = h.thorough;
    let cap = if t { 400_000 } else { 40_000 };
    reach(&mut h, reg!(Own, Gf<13>, 1 1 1), true, false, cap);
    reach(&mut h, reg!(Own, Gf<7>, 2 1 1), true, false, cap);
    reach(&mut h, reg!(Slice, Gf<11>, 2 2 2), true, false, cap);
    reach(&mut h, reg!(Own, Gf<5>, 2 3 1), true, false, cap);
    reach(&mut h, reg!(Boxed, Gf<5>, 3 1 2), true, false, cap);
    reach(&mut h, reg!(Own, Gf<7>, 3 2 1), true, false, cap);
    reach(&mut h, reg!(Arr, Gf<3>, 4 2 1), true, false, cap);
    reach(&mut h, reg!(Own, Gf<5>, 5 2 2), true, true, cap / 4);
    reach(&mut h, reg!(Own, Gf<7>, 6 3 2), true, true, cap / 8);
    reach(&mut h, ext!(Own, Gf<13>, 1 1 1), false, false, cap);
    reach(&mut h, ext!(Own, Gf<7>, 2 1 1), false, false, cap);
    reach(&mut h, ext!(Slice, Gf<5>, 3 2 1), false, false, cap);
    reach(&mut h, ext!(Own, Gf<3>, 4 3 1), false, false, cap);
    reach(&mut h, ext!(Own, Gf<7>, 5 2 1), false, true, cap / 4);
    let x = t as usize;
    tree::<f64>(&mut h, reg!(Own, f64, 1 1 1), true, false, 4 + x);
    tree::<f64>(&mut h, reg!(Slice, f64, 2 1 1), true, false, 4 + x);
    tree::<f64>(&mut h, reg!(Boxed, f64, 2 2 2), true, false, 4 + x);
    tree::<f64>(&mut h, reg!(Arr, f64, 2 3 1), true, true, 4 + x);
    tree::<f64>(&mut h, reg!(Own, f64, 3 1 2), true, true, 5 + x);
    tree::<f64>(&mut h, reg!(Wrap, f64, 4 2 1), true, true, 5 + x);
    tree::<f64>(&mut h, reg!(Own, f64, 6 3 2), true, true, 4 + x);
    tree::<f64>(&mut h, ext!(Own, f64, 1 1 1), false, false, 4 + x);
    tree::<f64>(&mut h, ext!(Boxed, f64, 2 1 1), false, false, 4 + x);
    tree::<f64>(&mut h, ext!(Slice, f64, 3 2 1), false, true, 5 + x);
    tree::<f64>(&mut h, ext!(Arr, f64, 5 2 1), false, true, 4 + x);
    tree::<f32>(&mut h, reg!(Slice, f32, 2 1 1), true, true, 5 + x);
    tree::<f32>(&mut h, reg!(Own, f32, 3 2 1), true, true, 5 + x);
    tree::<f32>(&mut h, ext!(Boxed, f32, 2 2 1), false, true, 5 + x);
    #[cfg(feature = "fixed")]
    {
        tree::<I32F32>(&mut h, reg!(Own, I32F32, 2 1 1), true, true, 4 + x);
        tree::<I32F32>(&mut h, reg!(Boxed, I32F32, 3 2 1), true, true, 4 + x);
        tree::<I32F32>(&mut h, ext!(Slice, I32F32, 2 1 1), false, true, 4 + x);
    }
    // beyond size thresholds
    reach(&mut h, reg!(Own, Gf<997>, 8 1 2), true, true, cap / 80);
    reach(&mut h, reg!(Slice, Gf<997>, 9 2 9), true, true, cap / 100);
    reach(&mut h, reg!(Boxed, Gf<997>, 17 1 1), true, true, cap / 400);
    reach(&mut h, ext!(Own, Gf<997>, 9 1 1), false, true, cap / 100);
    reach(&mut h, ext!(Wrap, Gf<997>, 12 2 1), false, true, cap / 200);
    tree::<f64>(&mut h, reg!(Own, f64, 8 3 2), true, true, 3 + x);
    tree::<f64>(&mut h, reg!(Slice, f64, 9 9 9), true, true, 3 + x);
    tree::<f64>(&mut h, reg!(Boxed, f64, 17 2 3), true, true, 2 + x);
    tree::<f64>(&mut h, reg!(Own, f64, 3 17 2), true, true, 3 + x);
    tree::<f64>(&mut h, ext!(Own, f64, 9 4 1), false, true, 3 + x);
    tree::<f64>(&mut h, ext!(Wrap, f64, 12 9 1), false, true, 3 + x);
    tree::<f64>(&mut h, ext!(Boxed, f64, 4 12 1), false, true, 3 + x);
    tree::<f32>(&mut h, reg!(Own, f32, 9 3 2), true, true, 2 + x);
    let (w, n) = if t { (4, 1000) } else { (3, 200) };
    long::<f64>(&mut h, reg!(Own, f64, 1 1 1), true, w, n);
    long::<f64>(&mut h, reg!(Own, f64, 2 1 1), true, w, n);
    long::<f64>(&mut h, reg!(Slice, f64, 3 2 1), true, w, n);
    long::<f64>(&mut h, ext!(Own, f64, 2 2 1), false, w, n);
    long::<f64>(&mut h, ext!(Boxed, f64, 4 1 1), false, w, n);
    h.run()
}
