//! N03: the provided number types follow each other through every history.
#![allow(unused_imports)]
use mc::explore::*;
use mc::fam::*;
use mc::num::*;
use mc::points::*;
use mc::rig::*;
use mc::steps::*;
use mc::*;
use minikalman::matrix::MatrixDataType;
use num_traits::{FromPrimitive, One, Zero};
use std::cell::Cell;

thread_local! { static LOST: Cell<bool> = const { Cell::new(false) }; }
/// Exact numbers that every provided type can hold: multiples of 2^-16 of at most 24 bits.
/// Whatever does not fit marks the run as not representable.
#[derive(Copy, Clone, PartialEq, PartialOrd, Default)]
struct Dy(i64);
impl std::fmt::Debug for Dy {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0 as f64 / 65536.0)
    }
}
fn dy(r: Option<i128>) -> Dy {
    match r {
        Some(r) if r.abs() < 1 << 24 => Dy(r as i64),
        _ => {
            LOST.with(|l| l.set(true));
            Dy(1 << 16)
        }
    }
}
fn exact_div(a: i128, b: i128) -> Option<i128> {
    if b != 0 && a % b == 0 { Some(a / b) } else { None }
}
impl std::ops::Add for Dy { type Output = Self; fn add(self, o: Self) -> Self { dy(Some(self.0 as i128 + o.0 as i128)) } }
impl std::ops::Sub for Dy { type Output = Self; fn sub(self, o: Self) -> Self { dy(Some(self.0 as i128 - o.0 as i128)) } }
impl std::ops::Mul for Dy { type Output = Self; fn mul(self, o: Self) -> Self { dy(exact_div(self.0 as i128 * o.0 as i128, 1 << 16)) } }
impl std::ops::Div for Dy { type Output = Self; fn div(self, o: Self) -> Self { dy(exact_div((self.0 as i128) << 16, o.0 as i128)) } }
impl std::ops::Neg for Dy { type Output = Self; fn neg(self) -> Self { Dy(-self.0) } }
impl std::ops::AddAssign for Dy { fn add_assign(&mut self, o: Self) { *self = *self + o } }
impl std::ops::SubAssign for Dy { fn sub_assign(&mut self, o: Self) { *self = *self - o } }
impl std::iter::Sum for Dy { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Dy(0), |a, b| a + b) } }
impl Zero for Dy { fn zero() -> Self { Dy(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
impl One for Dy { fn one() -> Self { Dy(1 << 16) } }
impl FromPrimitive for Dy {
    fn from_i64(n: i64) -> Option<Self> { Some(dy(Some((n as i128) << 16))) }
    fn from_u64(n: u64) -> Option<Self> { Some(dy(Some((n as i128) << 16))) }
    fn from_f64(n: f64) -> Option<Self> { let r = n * 65536.0; Some(dy(if r == r.floor() { Some(r as i128) } else { None })) }
}
impl MatrixDataType for Dy {
    fn recip(self) -> Self { Dy::one() / self }
    fn square_root(self) -> Self {
        let v = (self.0 as i128) << 16;
        if v < 0 { return dy(None); }
        let r = (v as f64).sqrt() as i128;
        dy((r.max(2) - 2..r + 2).find(|r| r * r == v))
    }
}
impl Sc for Dy {
    type R = Run<52, 1040>;
    const NAME: &'static str = "exact";
    fn to_ref(self) -> Self::R { Run::exact(self.0 as f64 / 65536.0) }
    fn agrees(self, r: Self::R) -> bool { self.0 as f64 / 65536.0 == r.v }
    fn bits(self) -> u64 { self.0 as u64 }
    fn dy(n: i64, d: i64) -> Self { dy(exact_div((n as i128) << 16, d as i128)) }
    fn garbage(k: usize) -> Self { Dy(k as i64 * 77777 - 100_000) }
}
trait Num: Sc { fn f(self) -> f64; fn of(v: f64) -> Self; }
impl Num for Dy { fn f(self) -> f64 { self.0 as f64 / 65536.0 } fn of(v: f64) -> Self { Dy::from_f64(v).unwrap() } }
impl Num for f64 { fn f(self) -> f64 { self } fn of(v: f64) -> Self { v } }
impl Num for f32 { fn f(self) -> f64 { self as f64 } fn of(v: f64) -> Self { v as f32 } }
#[cfg(feature = "fixed")]
impl Num for I16F16 { fn f(self) -> f64 { self.to_num() } fn of(v: f64) -> Self { I16F16::from_num(v) } }
#[cfg(feature = "fixed")]
impl Num for I32F32 { fn f(self) -> f64 { self.to_num() } fn of(v: f64) -> Self { I32F32::from_num(v) } }

/// One event of a history.
#[derive(Clone, Debug)]
struct L {
    k: K,
    sets: Vec<(W, Vec<f64>)>,
    lambda: f64,
    /// coefficients of the user's function: y_i = c0 x_i + c1 x_{i+1} + c2 x_i^2
    f: [f64; 3],
    /// choose R such that the innovation covariance is this factor times its transpose
    matched: Option<Vec<f64>>,
}
fn user<T: Sc + Num>(f: &[f64; 3], x: &[T], n: usize) -> Vec<T> {
    (0..n).map(|i| {
        let (a, b) = (x[i % x.len()], x[(i + 1) % x.len()]);
        let mut r = T::of(f[0]) * a + T::of(f[1]) * b;
        if f[2] != 0.0 {
            r = r + T::of(f[2]) * (a * a);
        }
        r
    }).collect()
}
fn user_ref<R: Ring>(c: &[R; 3], with_square: bool, x: &Mx<R>, n: usize) -> Mx<R> {
    let l = x.d.len();
    Mx::new(n, 1, (0..n).map(|i| {
        let (a, b) = (x.d[i % l], x.d[(i + 1) % l]);
        let r = c[0].mul(a).add(c[1].mul(b));
        if with_square { r.add(c[2].mul(a.mul(a))) } else { r }
    }).collect())
}
/// Puts the event's model values into the object and into `v`.
fn apply<T: Sc + Num>(s: &mut dyn Sys<T>, v: &mut Vals<T>, l: &L, route: u8) -> Res {
    for (w, x) in &l.sets {
        let x: Vec<T> = x.iter().map(|x| T::of(*x)).collect();
        s.put(*w, &x);
        v.v[*w as usize].copy_from_slice(&x);
    }
    v.lambda = T::of(l.lambda);
    let e = l.k.extra(v.d.0, v.d.1);
    if e > 0 {
        let y = user(&l.f, v.g(W::X), e);
        v.out[..e].copy_from_slice(&y);
    }
    s.put(W::X, &v.v[W::X as usize]);
    s.put(W::P, &v.v[W::P as usize]);
    perform(s, v, l.k, route)?;
    for w in [W::X, W::P] {
        let n = v.v[w as usize].len();
        v.v[w as usize].copy_from_slice(&s.buf(w)[..n]);
    }
    Ok(())
}
fn mat(r: usize, c: usize, f: &dyn Fn(usize, usize) -> f64) -> Vec<f64> {
    (0..r * c).map(|i| f(i / c, i % c)).collect()
}
/// Realistic models with decimal coefficients.
fn decimal(d: (usize, usize, usize), linear: bool) -> Vec<L> {
    let (n, m, c) = d;
    let b = L { k: K::Predict, sets: vec![], lambda: 1.0, f: [0.9, 0.1, 0.0], matched: None };
    let (p, t, k) = if linear { (K::Predict, K::Tuned, K::Correct) } else { (K::NlPredict, K::NlTuned, K::NlCorrect) };
    let shear = mat(n, n, &|i, j| if i == j { 1.0 } else if j == i + 1 { 0.1 } else { 0.0 });
    let turn = mat(n, n, &|i, j| if i == j { 0.8 } else if j == (i + 1) % n { if i < j { -0.6 } else { 0.6 } } else { 0.0 });
    let damp = mat(n, n, &|i, j| if i == j { 0.7 } else { 0.05 * (i as f64 - j as f64) });
    let q0 = vec![0.0; n * n];
    let q1 = mat(n, n, &|i, j| if i == j { 0.01 * (i + 1) as f64 } else { 0.0 });
    let q2 = mat(n, n, &|i, j| if i == j { 0.3 } else { 0.1 });
    let r1 = mat(m, m, &|i, j| if i == j { 0.25 } else { 0.0 });
    let r2 = mat(m, m, &|i, j| if i == j { 1.3 } else { 0.4 });
    let h1 = mat(m, n, &|i, j| if i % n == j { 1.0 } else { 0.0 });
    let h2 = mat(m, n, &|i, j| [0.7, -0.3, 1.1, 0.2][(i + j) % 4]);
    let z1 = mat(m, 1, &|i, _| 1.7 - 0.9 * i as f64);
    let z2 = mat(m, 1, &|i, _| -3.3 + i as f64);
    let mut l = vec![];
    for (kk, a, q, lambda) in [(p, &shear, &q1, 1.0), (p, &turn, &q0, 1.0), (p, &damp, &q2, 1.0), (t, &shear, &q1, 1.1), (t, &turn, &q2, 0.8)] {
        l.push(L { k: kk, sets: vec![(W::A, a.clone()), (W::Q, q.clone())], lambda, ..b.clone() });
    }
    for (h, z, r) in [(&h1, &z1, &r1), (&h2, &z1, &r2), (&h2, &z2, &r1)] {
        l.push(L { k, sets: vec![(W::H, h.clone()), (W::Z, z.clone()), (W::R, r.clone())], f: [1.1, -0.2, 0.0], ..b.clone() });
    }
    if linear {
        let bm = mat(n, c, &|i, j| [0.005, 0.1, 1.0][(i + j) % 3]);
        let qc = mat(c, c, &|i, j| if i == j { 0.5 } else { 0.1 });
        l.push(L { k: K::Control, sets: vec![(W::B, bm.clone()), (W::U, mat(c, 1, &|i, _| 9.81 - i as f64)), (W::Qc, qc)], ..b.clone() });
        l.push(L { k: K::Control, sets: vec![(W::B, bm), (W::U, vec![-2.5; c]), (W::Qc, vec![0.0; c * c])], ..b.clone() });
    } else {
        l[0].f = [0.5, 0.3, 0.05];
        let i = l.len() - 1;
        l[i].f = [0.3, 0.0, 0.1];
    }
    l
}
/// Models with binary fractions only.
fn binary(d: (usize, usize, usize), linear: bool) -> Vec<L> {
    let (n, m, c) = d;
    let b = L { k: K::Predict, sets: vec![], lambda: 1.0, f: [0.5, 1.0, 0.0], matched: None };
    let (p, t, k) = if linear { (K::Predict, K::Tuned, K::Correct) } else { (K::NlPredict, K::NlTuned, K::NlCorrect) };
    let shear = mat(n, n, &|i, j| if i == j { 1.0 } else if j == i + 1 { 0.5 } else { 0.0 });
    let turn = mat(n, n, &|i, j| if j == (i + 1) % n { if i < j { 1.0 } else { -1.0 } } else { 0.0 });
    let half = mat(n, n, &|i, j| if i == j { 0.5 } else if i == j + 1 { -0.25 } else { 0.0 });
    let q0 = vec![0.0; n * n];
    let q1 = mat(n, n, &|i, j| if i == j { 0.25 } else { 0.0 });
    let q2 = mat(n, n, &|i, j| if i == j { 1.5 } else { 0.5 });
    let h1 = mat(m, n, &|i, j| if i % n == j { 1.0 } else { 0.0 });
    let h2 = mat(m, n, &|i, j| [1.0, -0.5, 2.0, 0.0][(i + j) % 4]);
    let l1 = mat(m, m, &|i, j| if i == j { 1.0 } else { 0.0 });
    let l2 = mat(m, m, &|i, j| if i == j { 2.0 } else if j < i { 1.0 } else { 0.0 });
    let l3 = mat(m, m, &|i, j| if i == j { 0.5 } else if j < i { -0.25 } else { 0.0 });
    let z1 = mat(m, 1, &|i, _| 1.5 - i as f64);
    let z2 = mat(m, 1, &|i, _| -3.25 + 2.0 * i as f64);
    let mut l = vec![];
    for (kk, a, q, lambda) in [(p, &shear, &q1, 1.0), (p, &turn, &q0, 1.0), (p, &half, &q2, 1.0), (t, &shear, &q1, 0.5), (t, &turn, &q2, -1.0), (t, &half, &q1, 0.25), (t, &turn, &q1, 2.0)] {
        l.push(L { k: kk, sets: vec![(W::A, a.clone()), (W::Q, q.clone())], lambda, ..b.clone() });
    }
    for (h, z, f) in [(&h1, &z1, &l1), (&h2, &z1, &l2), (&h2, &z2, &l3)] {
        l.push(L { k, sets: vec![(W::H, h.clone()), (W::Z, z.clone())], f: [1.0, -0.5, 0.0], matched: Some(f.clone()), ..b.clone() });
    }
    if linear {
        let bm = mat(n, c, &|i, j| [0.125, 0.5, 1.0][(i + j) % 3]);
        let qc = mat(c, c, &|i, j| if i == j { 0.5 } else { 0.25 });
        l.push(L { k: K::Control, sets: vec![(W::B, bm.clone()), (W::U, mat(c, 1, &|i, _| 9.75 - i as f64)), (W::Qc, qc)], ..b.clone() });
        l.push(L { k: K::Control, sets: vec![(W::B, bm), (W::U, vec![-2.5; c]), (W::Qc, vec![0.0; c * c])], ..b.clone() });
    } else {
        l[0].f = [0.5, 0.25, 0.125];
        let i = l.len() - 1;
        l[i].f = [0.5, 0.0, 0.25];
    }
    l
}
fn starts(d: (usize, usize, usize)) -> Vec<(Vec<f64>, Vec<f64>)> {
    let n = d.0;
    vec![
        (mat(n, 1, &|i, _| 0.5 * (i + 1) as f64), mat(n, n, &|i, j| if i == j { 1.0 } else { 0.0 })),
        (mat(n, 1, &|i, _| 2.0 - i as f64), mat(n, n, &|i, j| if i == j { 4.0 } else { 0.5 })),
        (vec![0.0; n], vec![0.0; n * n]),
    ]
}
fn hist(ls: &[L], w: &[usize]) -> String {
    let mut s = String::new();
    for i in w {
        s += &format!("{:?} {:?} lambda {} f {:?} {:?}; ", ls[*i].k, ls[*i].sets, ls[*i].lambda, ls[*i].f, ls[*i].matched);
    }
    s
}

/// Representable histories: the same result in every type, to the last bit.
fn same_result<T: Sc + Num>(s: &mut dyn Sys<T>, from: &Vals<Dy>, l: &L, route: u8, want: &Vals<Dy>) -> Result<(), Viol> {
    let mut v = Vals::<T>::zero(from.d);
    for w in ALLW {
        for (a, b) in v.v[w as usize].iter_mut().zip(from.g(w)) {
            *a = T::of(b.f());
        }
    }
    for w in ALLW {
        if s.has(w) {
            s.put(w, &v.v[w as usize].clone());
        }
    }
    apply(s, &mut v, l, route)?;
    for w in [W::X, W::P] {
        for (i, (a, b)) in v.g(w).iter().zip(want.g(w)).enumerate() {
            ensure!(a.f() == b.f(), "{w:?}[{i}] is {a:?} in {}, but the exact value is {b:?}", T::NAME);
        }
    }
    Ok(())
}
macro_rules! kinds { ($t:ident, $fam:ty, $($d:literal)*) => {{
    #[cfg(feature = "fixed")]
    let fx: (Mk<I16F16>, Mk<I32F32>) = ($t!($fam, I16F16, $($d)*), $t!($fam, I32F32, $($d)*));
    #[cfg(not(feature = "fixed"))]
    let fx = ();
    ($t!($fam, Dy, $($d)*) as Mk<Dy>, $t!($fam, f64, $($d)*) as Mk<f64>, $t!($fam, f32, $($d)*) as Mk<f32>, fx)
}} }
#[cfg(feature = "fixed")]
type Fx = (Mk<I16F16>, Mk<I32F32>);
#[cfg(not(feature = "fixed"))]
type Fx = ();
type Kinds = (Mk<Dy>, Mk<f64>, Mk<f32>, Fx);

struct Live {
    dy: Box<dyn Sys<Dy>>,
    f64: Box<dyn Sys<f64>>,
    f32: Box<dyn Sys<f32>>,
    #[cfg(feature = "fixed")]
    a: Box<dyn Sys<I16F16>>,
    #[cfg(feature = "fixed")]
    b: Box<dyn Sys<I32F32>>,
}
fn exact_dfs(ctx: &mut Ctx, o: &mut Live, ls: &[L], v: &Vals<Dy>, word: &mut Vec<usize>, depth: usize, start: usize) -> Res {
    if depth == 0 {
        ctx.traces += 1;
        return Ok(());
    }
    for i in 0..ls.len() {
        word.push(i);
        let r = exact_step(ctx, o, ls, v, word, depth, start, i);
        word.pop();
        r?;
    }
    Ok(())
}
fn exact_step(ctx: &mut Ctx, o: &mut Live, ls: &[L], v: &Vals<Dy>, word: &mut Vec<usize>, depth: usize, start: usize, i: usize) -> Res {
    let mut l = ls[i].clone();
    let mut v = v.clone();
    ctx.step(|| format!("exact, start {start}, history {word:?} ending in {}", hist(ls, &word[word.len() - 1..])));
    LOST.with(|x| x.set(false));
    if let Some(f) = &l.matched {
        // R = F F' - H P H'
        let (n, m, _) = v.d;
        let h = &l.sets.iter().find(|s| s.0 == W::H).unwrap().1;
        let p: Vec<f64> = v.g(W::P).iter().map(|x| x.f()).collect();
        let mut r = vec![0.0; m * m];
        for a in 0..m {
            for b in 0..m {
                let mut s = 0.0;
                for k in 0..m { s += f[a * m + k] * f[b * m + k]; }
                for x in 0..n { for y in 0..n { s -= h[a * n + x] * p[x * n + y] * h[b * n + y]; } }
                r[a * m + b] = s;
            }
        }
        l.sets.push((W::R, r));
    }
    let route = (word.iter().sum::<usize>() % 4) as u8;
    let from = v.clone();
    apply(&mut *o.dy, &mut v, &l, route)?;
    if LOST.with(|x| x.get()) {
        ctx.skipped += 1;
        return Ok(());
    }
    same_result(&mut *o.f64, &from, &l, route, &v)?;
    same_result(&mut *o.f32, &from, &l, route, &v)?;
    #[cfg(feature = "fixed")]
    {
        same_result(&mut *o.a, &from, &l, route, &v)?;
        same_result(&mut *o.b, &from, &l, route, &v)?;
    }
    ctx.outcome(v.fp(&[W::X, W::P]));
    if !ctx.state(mix(v.fp(&ALLW), depth as u64)) {
        return Ok(()); // the rest was explored from here
    }
    exact_dfs(ctx, o, ls, &v, word, depth - 1, start)
}
fn exact_jobs(h: &mut Harness, k: Kinds, linear: bool, depth: usize) {
    let d = k.0().dims();
    for st in 0..3 {
        h.job(format!("representable histories of {depth} events, {}, start {st}", k.0().label()), move |ctx| {
            let mut o = Live {
                dy: k.0(), f64: k.1(), f32: k.2(),
                #[cfg(feature = "fixed")]
                a: (k.3).0(),
                #[cfg(feature = "fixed")]
                b: (k.3).1(),
            };
            let ls = binary(d, linear);
            let mut v = Vals::<Dy>::zero(d);
            let s = &starts(d)[st];
            v.v[W::X as usize] = s.0.iter().map(|x| Dy::of(*x)).collect();
            v.v[W::P as usize] = s.1.iter().map(|x| Dy::of(*x)).collect();
            exact_dfs(ctx, &mut o, &ls, &v, &mut vec![], depth, st)
        });
    }
}

/// A history in T, the same in double precision, and the rounding bound of T along it.
struct Pair<T: Sc> { v: Vals<T>, w: Vals<f64>, x: Mx<T::R>, p: Mx<T::R>, x64: Mx<<f64 as Sc>::R>, p64: Mx<<f64 as Sc>::R> }
impl<T: Sc> Clone for Pair<T> {
    fn clone(&self) -> Self {
        Pair { v: self.v.clone(), w: self.w.clone(), x: self.x.clone(), p: self.p.clone(), x64: self.x64.clone(), p64: self.p64.clone() }
    }
}
fn follow<T: Sc + Num>(ctx: &mut Ctx, s: &mut dyn Sys<T>, r: &mut dyn Sys<f64>, ls: &[L], at: &Pair<T>, word: &mut Vec<usize>, depth: usize) -> Res {
    if depth == 0 {
        ctx.traces += 1;
        return Ok(());
    }
    for i in 0..ls.len() {
        word.push(i);
        let x = follow_step(ctx, s, r, ls, at, word, depth, i);
        word.pop();
        x?;
    }
    Ok(())
}
fn bound<T: Sc>(k: K, v: &Vals<T>, f: &[T; 3], square: bool, x: &Mx<T::R>, p: &Mx<T::R>) -> Exp<T::R> {
    let e = k.extra(v.d.0, v.d.1);
    let c = [f[0].to_ref(), f[1].to_ref(), f[2].to_ref()];
    let out = if e > 0 { user_ref(&c, square, x, e) } else { Mx::zero(0, 1) };
    model_at(k, v, x, p, &out, false)
}
fn follow_step<T: Sc + Num>(ctx: &mut Ctx, s: &mut dyn Sys<T>, r: &mut dyn Sys<f64>, ls: &[L], at: &Pair<T>, word: &mut Vec<usize>, depth: usize, i: usize) -> Res {
    let l = &ls[i];
    let mut n = at.clone();
    ctx.step(|| format!("{}, history {word:?}: {}", s.label(), hist(ls, word)));
    // model values as T holds them
    let q = |x: f64| T::of(x).f();
    let rounded = L { k: l.k, sets: l.sets.iter().map(|(w, x)| (*w, x.iter().map(|x| q(*x)).collect())).collect(), lambda: q(l.lambda), f: l.f.map(q), matched: None };
    for (w, x) in &rounded.sets {
        for (j, x) in x.iter().enumerate() {
            n.v.v[*w as usize][j] = T::of(*x);
            n.w.v[*w as usize][j] = *x;
        }
    }
    n.v.lambda = T::of(rounded.lambda);
    n.w.lambda = rounded.lambda;
    let sq = rounded.f[2] != 0.0;
    let (Exp::To(x, p), Exp::To(x64, p64)) = (
        bound(l.k, &n.v, &rounded.f.map(T::of), sq, &n.x, &n.p),
        bound(l.k, &n.w, &rounded.f, sq, &n.x64, &n.p64),
    ) else {
        ctx.skipped += 1;
        return Ok(());
    };
    if x.huge() || p.huge() {
        ctx.skipped += 1;
        return Ok(());
    }
    let route = (word.iter().sum::<usize>() % 4) as u8;
    apply(s, &mut n.v, &rounded, route)?;
    apply(r, &mut n.w, &rounded, route)?;
    for (w, e, e64) in [(W::X, &x, &x64), (W::P, &p, &p64)] {
        for (j, (a, b)) in n.v.g(w).iter().zip(n.w.g(w)).enumerate() {
            let tol = 16.0 * (e.d[j].slack() + e64.d[j].slack());
            ensure!((a.f() - b).abs() <= tol, "{w:?}[{j}] is {a:?} in {} and {b:?} in double precision, although rounding explains only {tol:e}", T::NAME);
        }
    }
    (n.x, n.p, n.x64, n.p64) = (x, p, x64, p64);
    ctx.state(mix(n.v.fp(&ALLW), depth as u64));
    ctx.outcome(n.v.fp(&[W::X, W::P]));
    follow(ctx, s, r, ls, &n, word, depth - 1)
}
fn follow_jobs<T: Sc + Num>(h: &mut Harness, mk: Mk<T>, mk64: Mk<f64>, linear: bool, depth: usize) {
    let d = mk().dims();
    for st in 0..3 {
        for first in 0..decimal(d, linear).len() {
            h.job(format!("histories of {depth} events, {}, start {st}, first event {first}", mk().label()), move |ctx| {
                let (mut s, mut r) = (mk(), mk64());
                let ls = decimal(d, linear);
                let st = &starts(d)[st];
                let (mut v, mut w) = (Vals::<T>::zero(d), Vals::<f64>::zero(d));
                for (k, x) in [(W::X, &st.0), (W::P, &st.1)] {
                    v.v[k as usize] = x.iter().map(|x| T::of(*x)).collect();
                    w.v[k as usize] = x.clone();
                }
                let at = Pair { x: v.mx(W::X), p: v.mx(W::P), x64: w.mx(W::X), p64: w.mx(W::P), v, w };
                follow_step(ctx, &mut *s, &mut *r, &ls, &at, &mut vec![first], depth, first)?;
                if ctx.transitions == 0 {
                    ctx.bulk(1);
                }
                Ok(())
            });
        }
    }
}
macro_rules! both { ($h:ident, $t:ident, $fam:ty, $lin:literal, $($d:literal)*; $e:expr, $f:expr) => {
    exact_jobs(&mut $h, kinds!($t, $fam, $($d)*), $lin, $e);
    follow_jobs::<f32>(&mut $h, $t!($fam, f32, $($d)*), $t!($fam, f64, $($d)*), $lin, $f);
    #[cfg(feature = "fixed")]
    {
        follow_jobs::<I16F16>(&mut $h, $t!($fam, I16F16, $($d)*), $t!($fam, f64, $($d)*), $lin, $f);
        follow_jobs::<I32F32>(&mut $h, $t!($fam, I32F32, $($d)*), $t!($fam, f64, $($d)*), $lin, $f);
    }
} }
fn main() {
    let mut h = Harness::new("N03");
    let t = 1 + h.thorough as usize;
    both!(h, reg, Own, true, 1 1 1; 5 + t, 4 + t);
    both!(h, reg, Own, true, 2 1 1; 5 + t, 4 + t);
    both!(h, reg, Boxed, true, 3 2 1; 4 + t, 4 + t);
    both!(h, reg, Arr, true, 2 2 2; 4 + t, 3 + t);
    both!(h, reg, Slice, true, 4 3 2; 4 + t, 3 + t);
    both!(h, ext, Own, false, 2 1 0; 5 + t, 4 + t);
    both!(h, ext, Slice, false, 3 2 0; 4 + t, 4 + t);
    // beyond size thresholds
    both!(h, reg, Own, true, 9 2 3; 2 + t, 2 + t);
    both!(h, reg, Slice, true, 3 9 9; 2 + t, 2 + t);
    both!(h, reg, Boxed, true, 17 1 2; 2 + t, 1 + t);
    both!(h, ext, Own, false, 9 9 0; 2 + t, 2 + t);
    both!(h, ext, Boxed, false, 2 12 0; 2 + t, 2 + t);
    h.run()
}
