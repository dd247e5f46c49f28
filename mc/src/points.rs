//! Single steps of the real objects compared with the reference equations, and the enumerations of
//! inputs and histories that drive them.
use crate::ensure;
use crate::explore::*;
use crate::num::*;
use crate::rig::*;

#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash)]
pub enum K { Predict, Tuned, Control, Correct, NlPredict, NlTuned, NlCorrect }
impl K {
    pub fn uses(self) -> &'static [W] {
        match self {
            K::Predict | K::Tuned => &[W::X, W::P, W::A, W::Q],
            K::NlPredict | K::NlTuned => &[W::P, W::A, W::Q, W::X],
            K::Control => &[W::X, W::P, W::B, W::U, W::Qc],
            K::Correct | K::NlCorrect => &[W::X, W::P, W::H, W::Z, W::R],
        }
    }
    /// Length of the vector the user's function returns.
    pub fn extra(self, n: usize, m: usize) -> usize {
        match self {
            K::NlPredict | K::NlTuned => n,
            K::NlCorrect => m,
            _ => 0,
        }
    }
    pub fn tuned(self) -> bool {
        matches!(self, K::Tuned | K::NlTuned)
    }
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Var { Cell(W, usize, usize), Lambda, Out(usize) }

#[derive(Clone)]
pub struct Vals<T> {
    pub d: (usize, usize, usize),
    pub v: [Vec<T>; 10],
    pub lambda: T,
    pub out: Vec<T>,
}
impl<T: Sc> Vals<T> {
    pub fn zero(d: (usize, usize, usize)) -> Self {
        let v = ALLW.map(|w| {
            let (r, c) = w.shape(d.0, d.1, d.2);
            vec![T::zero(); r * c]
        });
        Vals { d, v, lambda: T::one(), out: vec![T::zero(); d.0.max(d.1)] }
    }
    #[inline(always)]
    pub fn g(&self, w: W) -> &[T] {
        &self.v[w as usize]
    }
    pub fn set(&mut self, w: W, i: usize, j: usize, x: T) {
        let c = w.shape(self.d.0, self.d.1, self.d.2).1;
        self.v[w as usize][i * c + j] = x;
        if w.symmetric() {
            self.v[w as usize][j * c + i] = x;
        }
    }
    pub fn var(&self, v: Var) -> T {
        match v {
            Var::Cell(w, i, j) => self.g(w)[i * w.shape(self.d.0, self.d.1, self.d.2).1 + j],
            Var::Lambda => self.lambda,
            Var::Out(i) => self.out[i],
        }
    }
    pub fn put(&mut self, v: Var, x: T) {
        match v {
            Var::Cell(w, i, j) => self.set(w, i, j, x),
            Var::Lambda => self.lambda = x,
            Var::Out(i) => self.out[i] = x,
        }
    }
    pub fn mx(&self, w: W) -> Mx<T::R> {
        let (r, c) = w.shape(self.d.0, self.d.1, self.d.2);
        Mx::of(r, c, self.g(w))
    }
    pub fn ident(mut self, w: W) -> Self {
        let (r, c) = w.shape(self.d.0, self.d.1, self.d.2);
        for i in 0..r.min(c) {
            self.set(w, i, i, T::one());
        }
        self
    }
    pub fn fp(&self, ws: &[W]) -> u64 {
        let mut h = 7;
        for w in ws {
            for x in self.g(*w) {
                h = mix(h, x.bits());
            }
        }
        h
    }
    pub fn show(&self, k: K) -> String {
        let mut s = format!("{k:?} n,m,c={:?}", self.d);
        for w in k.uses() {
            s += &format!(" {w:?}={:?}", self.g(*w));
        }
        if k.tuned() {
            s += &format!(" lambda={:?}", self.lambda);
        }
        let e = k.extra(self.d.0, self.d.1);
        if e > 0 {
            s += &format!(" f={:?}", &self.out[..e]);
        }
        s
    }
    /// A dense, well-conditioned assignment: everything non-zero and told apart, P, Q, Q_u and R diagonally dominant.
    pub fn dense(d: (usize, usize, usize), seed: i64) -> Self {
        let mut s = Self::zero(d);
        let mut q = 3 + seed;
        let mut next = |den: i64| {
            q = (q * 5 + 7) % 61;
            let n = q % 7 - 3;
            T::dy(if n == 0 { 2 } else { n }, den)
        };
        for w in ALLW {
            let (r, c) = w.shape(d.0, d.1, d.2);
            for i in 0..r {
                for j in 0..c {
                    if w.symmetric() {
                        if i == j {
                            s.set(w, i, i, T::dy(4 + ((i as i64 + seed + w as i64) % 3), 1));
                        } else if i < j {
                            s.set(w, i, j, next(8));
                        }
                    } else {
                        s.set(w, i, j, next(if matches!(w, W::A | W::B | W::H) { 2 } else { 1 }));
                    }
                }
            }
        }
        for i in 0..s.out.len() {
            s.out[i] = next(1);
        }
        s.lambda = T::dy(2, 1);
        s
    }
}

pub fn vars(ws: &[W], d: (usize, usize, usize)) -> Vec<Var> {
    let mut o = vec![];
    for &w in ws {
        let (r, c) = w.shape(d.0, d.1, d.2);
        for i in 0..r {
            for j in (if w.symmetric() { i } else { 0 })..c {
                o.push(Var::Cell(w, i, j));
            }
        }
    }
    o
}
pub fn vars_of(k: K, d: (usize, usize, usize)) -> Vec<Var> {
    let mut v = vars(k.uses(), d);
    if k.tuned() {
        v.push(Var::Lambda);
    }
    v.extend((0..k.extra(d.0, d.1)).map(Var::Out));
    v
}

pub enum Exp<R> {
    To(Mx<R>, Mx<R>),
    NotPosDef,
    Unknown,
}
/// The reference equations.
pub fn model<T: Sc>(k: K, v: &Vals<T>) -> Exp<T::R> {
    let n = v.d.0;
    let crooked = (0..n * n).any(|i| v.g(W::P)[i].bits() != v.g(W::P)[i % n * n + i / n].bits());
    model_at(k, v, &v.mx(W::X), &v.mx(W::P), &Mx::of(k.extra(v.d.0, v.d.1), 1, &v.out), crooked)
}
/// The same for an estimate (and a function value) that may carry an error already.
pub fn model_at<T: Sc>(k: K, v: &Vals<T>, x: &Mx<T::R>, p: &Mx<T::R>, out: &Mx<T::R>, crooked: bool) -> Exp<T::R> {
    let m = v.d.1;
    match k {
        K::Predict | K::Tuned | K::NlPredict | K::NlTuned => {
            let a = v.mx(W::A);
            let ap = a.mul(p);
            let mut pp = ap.mul(&a.t());
            if ap.huge() || pp.huge() || p.mul(&a.t()).huge() {
                return Exp::Unknown;
            }
            if k.tuned() {
                let l = v.lambda.to_ref();
                match l.mul(l).inv() {
                    Some(f) if f.huge() || ap.scale(f).huge() || p.scale(f).huge() || l.mul(l).huge() => return Exp::Unknown,
                    Some(f) => pp = pp.scale(f),
                    None => return Exp::Unknown,
                }
            }
            let xp = if matches!(k, K::Predict | K::Tuned) { a.mul(x) } else { out.clone() };
            Exp::To(xp, pp.add(&v.mx(W::Q)))
        }
        K::Control => {
            let b = v.mx(W::B);
            Exp::To(x.add(&b.mul(&v.mx(W::U))), p.add(&b.mul(&v.mx(W::Qc)).mul(&b.t())))
        }
        K::Correct | K::NlCorrect => {
            let h = v.mx(W::H);
            let pht = p.mul(&h.t());
            let s = h.mul(&pht).add(&v.mx(W::R));
            if crooked && s.posdef_upper() != s.t().posdef_upper() {
                // P symmetric up to rounding only, and it matters
                return Exp::Unknown;
            }
            match s.posdef() {
                Some(true) => {}
                Some(false) => return Exp::NotPosDef,
                None => return Exp::Unknown,
            }
            let si = match s.inv() {
                Some(i) => i,
                None => return Exp::Unknown,
            };
            if (0..m).any(|i| si.at(i, i).vague()) {
                return Exp::Unknown;
            }
            let g = pht.mul(&si);
            if pht.huge() || s.huge() || si.huge() || g.huge() || g.mul(&h).huge() || g.mul(&h).mul(p).huge() || h.t().mul(&si).huge() {
                return Exp::Unknown;
            }
            let hx = if k == K::Correct { h.mul(x) } else { out.clone() };
            let y = v.mx(W::Z).sub(&hx);
            Exp::To(x.add(&g.mul(&y)), p.sub(&g.mul(&h).mul(p)))
        }
    }
}

/// One measurement update in reference arithmetic, on values that may carry error bounds already; None when the
/// innovation covariance is not clearly usable.
pub fn update_ref<R: Ring>(x: &Mx<R>, p: &Mx<R>, h: &Mx<R>, z: &Mx<R>, r: &Mx<R>) -> Option<(Mx<R>, Mx<R>)> {
    let pht = p.mul(&h.t());
    let s = h.mul(&pht).add(r);
    if s.posdef() != Some(true) {
        return None;
    }
    let si = s.inv()?;
    if (0..s.r).any(|i| si.at(i, i).vague()) {
        return None;
    }
    let g = pht.mul(&si);
    Some((x.add(&g.mul(&z.sub(&h.mul(x)))), p.sub(&g.mul(h).mul(p))))
}

pub fn load<T: Sc>(s: &mut dyn Sys<T>, v: &Vals<T>, ws: &[W]) {
    for &w in ws {
        s.put(w, v.g(w));
    }
}

/// Runs the operation on the real object; the user's function returns `v.out` and is checked to be called
/// exactly once, with the state before the step.
pub fn perform<T: Sc>(s: &mut dyn Sys<T>, v: &Vals<T>, k: K, route: u8) -> Res {
    attempt(s, v, k, route, true)
}
/// The same; `usable` is false for a correction that must come to nothing, which need not ask for the function's value.
pub fn attempt<T: Sc>(s: &mut dyn Sys<T>, v: &Vals<T>, k: K, route: u8, usable: bool) -> Res {
    let mut calls = 0;
    let mut wrong: Option<String> = None;
    let x = v.g(W::X);
    let e = k.extra(v.d.0, v.d.1);
    {
        let mut f = |seen: &[T], out: &mut [T]| {
            calls += 1;
            if seen.len() != x.len() || seen.iter().zip(x).any(|(a, b)| a.bits() != b.bits()) {
                wrong = Some(format!("the function was given {seen:?} instead of the state {x:?}"));
            }
            if out.len() != e {
                wrong = Some(format!("the function was given room for {} values instead of {e}", out.len()));
            }
            out.copy_from_slice(&v.out[..e]);
        };
        match k {
            K::Predict => s.op(Op::Predict, route),
            K::Tuned => s.op(Op::Tuned(v.lambda), route),
            K::Control => s.op(Op::Control, route),
            K::Correct => s.op(Op::Correct, route),
            K::NlPredict => s.op(Op::NlPredict(&mut f), route),
            K::NlTuned => s.op(Op::NlTuned(v.lambda, &mut f), route),
            K::NlCorrect => s.op(Op::NlCorrect(&mut f), route),
        }
    }
    if let Some(w) = wrong {
        return viol(w);
    }
    if e > 0 {
        ensure!(calls == 1 || calls == 0 && !usable, "the function was called {calls} times");
    }
    Ok(())
}

/// Compares the estimate held by the real object with the expectation.
pub fn verify<T: Sc>(s: &mut dyn Sys<T>, v: &Vals<T>, k: K, want: &(Mx<T::R>, Mx<T::R>)) -> Res {
    if let Err(i) = agree(s.buf(W::X), &want.0) {
        let got = s.buf(W::X)[..v.d.0].to_vec();
        return viol(format!("state[{i}] is {:?}, expected {:?} (state {got:?})", got[i], want.0.d[i]));
    }
    if matches!(k, K::NlPredict | K::NlTuned) {
        for i in 0..v.d.0 {
            ensure!(s.buf(W::X)[i].bits() == v.out[i].bits(), "state[{i}] is {:?}, the function returned {:?}", s.buf(W::X)[i], v.out[i]);
        }
    }
    if let Err(i) = agree(s.buf(W::P), &want.1) {
        let n = v.d.0;
        return viol(format!("covariance[{},{}] is {:?}, expected {:?}", i / n, i % n, s.buf(W::P)[i], want.1.d[i]));
    }
    Ok(())
}

/// Load, run, compare. Inputs whose innovation covariance is not certainly positive definite are skipped.
pub fn point<T: Sc>(ctx: &mut Ctx, s: &mut dyn Sys<T>, v: &Vals<T>, k: K, route: u8, poison: Option<usize>) -> Res {
    ctx.step(|| format!("{} route {route}: {}", s.label(), v.show(k)));
    let want = match model(k, v) {
        Exp::To(x, p) => (x, p),
        _ => {
            ctx.skipped += 1;
            return Ok(());
        }
    };
    load(s, v, k.uses());
    if let Some(g) = poison {
        if s.open() {
            s.arena().poison(g);
        }
    }
    let mut fp = v.fp(k.uses());
    fp = mix(fp, v.lambda.bits());
    for i in 0..k.extra(v.d.0, v.d.1) {
        fp = mix(fp, v.out[i].bits());
    }
    ctx.state(mix(fp, k as u64));
    perform(s, v, k, route)?;
    verify(s, v, k, &want)?;
    let mut h = 1;
    for x in s.buf(W::X).iter() {
        h = mix(h, x.bits());
    }
    for x in s.buf(W::P).iter() {
        h = mix(h, x.bits());
    }
    ctx.outcome(h);
    Ok(())
}

/// All assignments of at most `k` variables to other values, the rest as in `base`; fewest deviations first.
pub fn deviations<T: Sc>(base: &Vals<T>, vs: &[Var], values: &[T], k: usize, f: &mut dyn FnMut(&Vals<T>) -> Res) -> Res {
    fn rec<T: Sc>(cur: &mut Vals<T>, vs: &[Var], values: &[T], from: usize, left: usize, f: &mut dyn FnMut(&Vals<T>) -> Res) -> Res {
        if left == 0 {
            return f(cur);
        }
        for i in from..vs.len() {
            if vs.len() - i < left {
                break;
            }
            let old = cur.var(vs[i]);
            for x in values {
                if x.bits() != old.bits() {
                    cur.put(vs[i], *x);
                    rec(cur, vs, values, i + 1, left - 1, f)?;
                }
            }
            cur.put(vs[i], old);
        }
        Ok(())
    }
    let mut cur = base.clone();
    for d in 0..=k {
        rec(&mut cur, vs, values, 0, d, f)?;
    }
    Ok(())
}
/// The full grid over all the variables.
pub fn grid<T: Sc>(base: &Vals<T>, vs: &[Var], values: &[T], f: &mut dyn FnMut(&Vals<T>) -> Res) -> Res {
    let mut cur = base.clone();
    fn rec<T: Sc>(cur: &mut Vals<T>, vs: &[Var], values: &[T], f: &mut dyn FnMut(&Vals<T>) -> Res) -> Res {
        match vs.split_first() {
            None => f(cur),
            Some((v, rest)) => {
                for x in values {
                    cur.put(*v, *x);
                    rec(cur, rest, values, f)?;
                }
                Ok(())
            }
        }
    }
    rec(&mut cur, vs, values, f)
}

/// Homogeneous rescaling by powers of two per state component and per measurement: s_i for states, t_i for measurements.
pub fn rescale<T: Sc>(v: &Vals<T>, k: K, st: &dyn Fn(usize) -> T, ms: &dyn Fn(usize) -> T) -> Vals<T> {
    let (n, m, c) = v.d;
    let mut o = v.clone();
    let one = T::one();
    for w in ALLW {
        let (r, cc) = w.shape(n, m, c);
        for i in 0..r {
            for j in 0..cc {
                let f = match w {
                    W::X => st(i),
                    W::P | W::Q => st(i) * st(j),
                    W::A => st(i) / st(j),
                    W::B => st(i),
                    W::U | W::Qc => one,
                    W::H => ms(i) / st(j),
                    W::Z => ms(i),
                    W::R => ms(i) * ms(j),
                };
                o.v[w as usize][i * cc + j] = v.v[w as usize][i * cc + j] * f;
            }
        }
    }
    for i in 0..o.out.len() {
        let f = if k == K::NlCorrect { if i < m { ms(i) } else { one } } else if i < n { st(i) } else { one };
        o.out[i] = v.out[i] * f;
    }
    o
}

/// A word over `a` letters containing every word of length `l` as a factor (de Bruijn, linearised).
pub fn debruijn(a: usize, l: usize) -> Vec<usize> {
    fn db(t: usize, p: usize, a: usize, l: usize, w: &mut Vec<usize>, out: &mut Vec<usize>) {
        if t > l {
            if l % p == 0 {
                out.extend_from_slice(&w[1..=p]);
            }
        } else {
            w[t] = w[t - p];
            db(t + 1, p, a, l, w, out);
            for j in w[t - p] + 1..a {
                w[t] = j;
                db(t + 1, t, a, l, w, out);
            }
        }
    }
    let mut out = vec![];
    db(1, 1, a, l, &mut vec![0; a * l + 1], &mut out);
    let head: Vec<_> = out.iter().take(l - 1).cloned().collect();
    out.extend(head);
    out
}

/// A letter of a history: change some model values (by index into alternatives) or run an operation.
#[derive(Clone)]
pub enum Ev<T> {
    Set(W, Vec<T>),
    Lambda(T),
    Out(Vec<T>),
    Do(K),
}
impl<T: Sc> Ev<T> {
    pub fn show(&self) -> String {
        match self {
            Ev::Set(w, v) => format!("{w:?}:={v:?}"),
            Ev::Lambda(l) => format!("lambda:={l:?}"),
            Ev::Out(l) => format!("f:={l:?}"),
            Ev::Do(k) => format!("{k:?}"),
        }
    }
}

/// Drives one live object through a sequence of events without ever reloading it, checking every step
/// against the reference equations applied to the estimate it held before the step.
pub struct Walk<T: Sc> {
    pub v: Vals<T>,
    pub route: u8,
    hist: Vec<u16>,
}
impl<T: Sc> Walk<T> {
    pub fn start(s: &mut dyn Sys<T>, v: &Vals<T>, route: u8) -> Self {
        for w in ALLW {
            if s.has(w) {
                s.put(w, v.g(w));
            }
        }
        Walk { v: v.clone(), route, hist: vec![] }
    }
    /// `strict`: an unusable innovation covariance must leave the estimate alone; otherwise such steps are not taken.
    pub fn event(&mut self, ctx: &mut Ctx, s: &mut dyn Sys<T>, letter: usize, ev: &Ev<T>, strict: bool) -> Res {
        self.hist.push(letter as u16);
        match ev {
            Ev::Set(w, x) => {
                self.v.v[*w as usize].copy_from_slice(x);
                s.put(*w, x);
            }
            Ev::Lambda(l) => self.v.lambda = *l,
            Ev::Out(o) => self.v.out = o.clone(),
            Ev::Do(k) => {
                let (v, hist) = (&self.v, &self.hist);
                ctx.step(|| format!("{} route {}: history {:?}.. ({} events) then {}", s.label(), self.route, &hist[hist.len().saturating_sub(24)..], hist.len(), v.show(*k)));
                let fp = mix(v.fp(&ALLW), *k as u64);
                match model(*k, v) {
                    Exp::To(x, p) => {
                        perform(s, v, *k, self.route)?;
                        verify(s, v, *k, &(x, p))?;
                    }
                    Exp::NotPosDef if strict => {
                        attempt(s, v, *k, self.route, false)?;
                        for w in [W::X, W::P] {
                            for (i, o) in v.g(w).iter().enumerate() {
                                ensure!(s.buf(w)[i].bits() == o.bits(), "{w:?}[{i}] changed from {o:?} to {:?} by an unusable correction", s.buf(w)[i]);
                            }
                        }
                    }
                    _ => {
                        ctx.skipped += 1;
                        return Ok(());
                    }
                }
                ctx.state(fp);
                for w in [W::X, W::P] {
                    let n = self.v.v[w as usize].len();
                    self.v.v[w as usize].copy_from_slice(&s.buf(w)[..n]);
                }
                ctx.outcome(self.v.fp(&[W::X, W::P]));
                // what follows starts from a symmetric covariance again (F07 judges how far rounding may take it)
                if straighten(&mut self.v.v[W::P as usize], self.v.d.0) {
                    s.put(W::P, &self.v.v[W::P as usize]);
                }
            }
        }
        Ok(())
    }
}

/// Replaces the lower by the upper triangle; true if that changed anything.
pub fn straighten<T: Sc>(p: &mut [T], n: usize) -> bool {
    let mut changed = false;
    for i in 0..n {
        for j in 0..i {
            changed |= p[i * n + j].bits() != p[j * n + i].bits();
            p[i * n + j] = p[j * n + i];
        }
    }
    changed
}

/// Value alphabets.
pub trait Alpha: Sc {
    fn all() -> Vec<Self>;
    fn few() -> Vec<Self>;
    const EXACT: bool;
    const FIXED: bool = false;
}
macro_rules! alpha_gf { ($($p:literal),*) => { $(impl Alpha for crate::gf::Gf<$p> {
    fn all() -> Vec<Self> { (0..$p).map(crate::gf::Gf::new).collect() }
    fn few() -> Vec<Self> { vec![crate::gf::Gf::new(1), crate::gf::Gf::new($p - 1)] }
    const EXACT: bool = true;
})* } }
alpha_gf!(3, 5, 7, 11, 13, 997);
impl Alpha for f64 {
    fn all() -> Vec<Self> {
        vec![0.0, 1.0, -1.0, 0.5, -2.0, 3.0, 9.313225746154785e-10, -7.62939453125e-6, 1048576.0, -0.0, 0.1, 1e-40]
    }
    fn few() -> Vec<Self> {
        vec![0.0, 1.0, -1.0, 2.5, 9.313225746154785e-10, 4096.0]
    }
    const EXACT: bool = false;
}
impl Alpha for f32 {
    fn all() -> Vec<Self> {
        vec![0.0, 1.0, -1.0, 0.5, -2.0, 3.0, 9.5367431640625e-7, -3.0517578125e-5, 4096.0, -0.0, 0.1, 1e-12]
    }
    fn few() -> Vec<Self> {
        vec![0.0, 1.0, -1.0, 2.5, 9.5367431640625e-7, 1024.0]
    }
    const EXACT: bool = false;
}
#[cfg(feature = "fixed")]
impl Alpha for I16F16 {
    fn all() -> Vec<Self> {
        [0.0, 1.0, -1.0, 0.5, -2.0, 3.0, 0.0009765625, -0.125].map(I16F16::from_num).to_vec()
    }
    fn few() -> Vec<Self> {
        [0.0, 1.0, -1.0, 2.5].map(I16F16::from_num).to_vec()
    }
    const EXACT: bool = false;
    const FIXED: bool = true;
}
#[cfg(feature = "fixed")]
impl Alpha for I32F32 {
    fn all() -> Vec<Self> {
        [0.0, 1.0, -1.0, 0.5, -2.0, 3.0, 0.0000152587890625, -0.125].map(I32F32::from_num).to_vec()
    }
    fn few() -> Vec<Self> {
        [0.0, 1.0, -1.0, 2.5].map(I32F32::from_num).to_vec()
    }
    const EXACT: bool = false;
    const FIXED: bool = true;
}
