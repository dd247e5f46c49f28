//! F11: all routes to an operation agree; the extended filter with linear functions is the linear filter.
#![allow(unused_imports)]
use mc::explore::*;
use mc::fam::*;
use mc::gf::Gf;
use mc::num::*;
use mc::points::*;
use mc::rig::*;
use mc::steps::*;
use mc::*;
use minikalman::prelude::*;

const LIN: &[K] = &[K::Predict, K::Control, K::Correct, K::Tuned];
const NL: &[K] = &[K::NlPredict, K::NlCorrect, K::NlTuned];

fn differs<T: Sc>(ctx: &mut Ctx, s: &mut [Box<dyn Sys<T>>], d: (usize, usize, usize)) -> Res {
    let mut o = 1;
    for (w, n) in [(W::X, d.0), (W::P, d.0 * d.0)] {
        for i in 0..n {
            let x = s[0].buf(w)[i];
            o = mix(o, x.bits());
            for r in 1..s.len() {
                let y = s[r].buf(w)[i];
                ensure!(x.bits() == y.bits(), "{w:?}[{i}] is {x:?} by route 0 and {y:?} by route {r}");
            }
        }
    }
    ctx.outcome(o);
    Ok(())
}
fn route_steps<T: Alpha>(h: &mut Harness, mk: Mk<T>, ks: &'static [K], b: Base, values: Vec<T>, depth: usize) {
    h.job(format!("routes {ks:?} {} up to {depth} deviations from {b:?} over {} values", mk().label(), values.len()), move |ctx| {
        let mut s: Vec<_> = (0..4).map(|_| mk()).collect();
        let d = s[0].dims();
        let mut i = 0;
        for k in ks {
            let bv = base::<T>(b, *k, d);
            let vs = vars_of(*k, d);
            deviations(&bv, &vs, &values, depth, &mut |v| {
                if k.tuned() && v.lambda == T::zero() || matches!(model(*k, v), Exp::Unknown) && T::FIXED {
                    ctx.skipped += 1;
                    return Ok(());
                }
                i += 1;
                ctx.step(|| v.show(*k));
                ctx.state(mix(v.fp(k.uses()), *k as u64));
                let usable = !matches!(model(*k, v), Exp::NotPosDef | Exp::Unknown);
                for r in 0..4 {
                    load(&mut *s[r], v, k.uses());
                    if s[r].open() {
                        s[r].arena().poison(i + r);
                    }
                    attempt(&mut *s[r], v, *k, r as u8, usable)?;
                }
                differs(ctx, &mut s, d)
            })?;
        }
        Ok(())
    });
}
fn tame<T: Alpha>(s: &mut dyn Sys<T>, d: (usize, usize, usize)) -> bool {
    T::EXACT || s.buf(W::P)[..d.0 * d.0].iter().chain(std::iter::empty()).all(|x| *x < T::dy(64, 1) && *x > T::dy(-64, 1))
}
fn tamex<T: Alpha>(s: &mut dyn Sys<T>, d: (usize, usize, usize)) -> bool {
    T::EXACT || s.buf(W::X)[..d.0].iter().all(|x| *x < T::dy(64, 1) && *x > T::dy(-64, 1))
}
fn route_walks<T: Alpha>(h: &mut Harness, mk: Mk<T>, ks: &'static [K], len: usize) {
    h.job(format!("routes: every history of {len} events, {} {ks:?}", mk().label()), move |ctx| {
        let mut s: Vec<_> = (0..4).map(|_| mk()).collect();
        let d = s[0].dims();
        let sets: &[W] = &[W::P, W::H, W::R, W::A, W::X];
        let ls = letters::<T>(ks, d, sets);
        let word = debruijn(ls.len(), len);
        let v0 = Vals::<T>::dense(d, 2);
        let mut v = v0.clone();
        for w in ALLW {
            if s[0].has(w) {
                for s in s.iter_mut() {
                    s.put(w, v.g(w));
                }
            }
        }
        for (i, &l) in word.iter().enumerate() {
            match &ls[l] {
                Ev::Set(w, x) => s.iter_mut().for_each(|s| s.put(*w, x)),
                Ev::Lambda(l) => v.lambda = *l,
                Ev::Out(o) => v.out = o.clone(),
                Ev::Do(k) => {
                    for w in ALLW {
                        if s[0].has(w) {
                            let n = v.g(w).len();
                            v.v[w as usize].copy_from_slice(&s[0].buf(w)[..n]);
                        }
                    }
                    ctx.step(|| format!("event {i}: {}", v.show(*k)));
                    ctx.state(mix(v.fp(k.uses()), *k as u64));
                    let usable = matches!(model(*k, &v), Exp::To(..));
                    for r in 0..4 {
                        attempt(&mut *s[r], &v, *k, r as u8, usable)?;
                    }
                    differs(ctx, &mut s, d)?;
                    if !tame(&mut *s[0], d) || !tamex(&mut *s[0], d) {
                        for s in s.iter_mut() {
                            s.put(W::X, v0.g(W::X));
                            s.put(W::P, v0.g(W::P));
                        }
                    }
                }
            }
        }
        Ok(())
    });
}

/// Linear and extended filter side by side.
struct Duo<T: Sc> { a: Box<dyn Sys<T>>, b: Box<dyn Sys<T>> }
fn times<T: Sc>(m: &[T], x: &[T], r: usize, out: &mut [T]) {
    for i in 0..r {
        let mut s = T::zero();
        for j in 0..x.len() {
            s = s + m[i * x.len() + j] * x[j];
        }
        out[i] = s;
    }
}
impl<T: Alpha> Duo<T> {
    fn put(&mut self, w: W, v: &[T]) {
        self.a.put(w, v);
        self.b.put(w, v);
    }
    fn go(&mut self, ctx: &mut Ctx, v: &Vals<T>, k: K, r: usize) -> Res {
        let d = v.d;
        ctx.step(|| format!("{} against {}, route {r}: {}", self.a.label(), self.b.label(), v.show(k)));
        let want = model(k, v);
        if let Exp::Unknown = want {
            ctx.skipped += 1;
            return Ok(());
        }
        ctx.state(mix(v.fp(k.uses()), k as u64));
        let usable = matches!(want, Exp::To(..));
        attempt(&mut *self.a, v, k, r as u8, usable)?;
        let nk = match k { K::Predict => K::NlPredict, K::Tuned => K::NlTuned, _ => K::NlCorrect };
        let mut u = v.clone();
        if k == K::Correct {
            times(v.g(W::H), v.g(W::X), d.1, &mut u.out);
        } else {
            times(v.g(W::A), v.g(W::X), d.0, &mut u.out);
        }
        attempt(&mut *self.b, &u, nk, r as u8, usable)?;
        let mut o = 1;
        for (wi, (w, n)) in [(W::X, d.0), (W::P, d.0 * d.0)].into_iter().enumerate() {
            for i in 0..n {
                let (x, y) = (self.a.buf(w)[i], self.b.buf(w)[i]);
                o = mix(o, x.bits());
                let ok = match &want {
                    // the state and the covariance agree within the bound of both computations
                    Exp::To(wx, wp) => {
                        let m = if wi == 0 { wx.d[i] } else { wp.d[i] };
                        x.bits() == y.bits() || !T::EXACT && x.agrees(m) && y.agrees(m)
                    }
                    _ => x.bits() == y.bits(),
                };
                ensure!(ok, "{w:?}[{i}] is {x:?} in the linear and {y:?} in the extended filter");
            }
        }
        ctx.outcome(o);
        Ok(())
    }
}
fn duo_steps<T: Alpha>(h: &mut Harness, mk: fn() -> Duo<T>, b: Base, values: Vec<T>, depth: usize) {
    h.job(format!("linear and extended, {} up to {depth} deviations from {b:?} over {} values", mk().b.label(), values.len()), move |ctx| {
        let mut s = mk();
        let d = s.a.dims();
        let mut i = 0;
        for k in [K::Predict, K::Tuned, K::Correct] {
            let bv = base::<T>(b, k, d);
            let vs = vars_of(k, d);
            deviations(&bv, &vs, &values, depth, &mut |v| {
                i += 1;
                if k.tuned() && v.lambda == T::zero() {
                    return Ok(());
                }
                for w in k.uses() {
                    s.put(*w, v.g(*w));
                }
                s.go(ctx, v, k, i % 4)
            })?;
        }
        Ok(())
    });
}
fn duo_walks<T: Alpha>(h: &mut Harness, mk: fn() -> Duo<T>, len: usize) {
    h.job(format!("linear and extended, every history of {len} events, {}", mk().b.label()), move |ctx| {
        let d = mk().a.dims();
        let sets: &[W] = &[W::P, W::H, W::R, W::A, W::X, W::Z, W::Q];
        let ls = letters::<T>(&[K::Predict, K::Tuned, K::Correct], d, sets);
        let word = debruijn(ls.len(), len);
        let v0 = Vals::<T>::dense(d, 2);
        let mut s = mk();
        for route in 0..2 {
            let mut v = v0.clone();
            for w in ALLW {
                if s.b.has(w) {
                    s.put(w, v.g(w));
                }
            }
            for &l in &word {
                match &ls[l] {
                    Ev::Set(w, x) => {
                        s.put(*w, x);
                        v.v[*w as usize].copy_from_slice(x);
                    }
                    Ev::Lambda(l) => v.lambda = *l,
                    Ev::Out(_) => {}
                    Ev::Do(k) => {
                        s.go(ctx, &v, *k, route * 2 + 1)?;
                        for w in [W::X, W::P] {
                            let n = v.g(w).len();
                            let mut x = s.a.buf(w)[..n].to_vec();
                            if !T::EXACT && !(tame(&mut *s.a, d) && tamex(&mut *s.a, d)) {
                                x = v0.g(w).to_vec();
                            }
                            v.v[w as usize].copy_from_slice(&x);
                        }
                        // exact filters run on by themselves
                        if !T::EXACT {
                            // each step starts from a symmetric covariance
                            straighten(&mut v.v[W::P as usize], d.0);
                            let (x, p) = (v.g(W::X).to_vec(), v.g(W::P).to_vec());
                            s.put(W::X, &x);
                            s.put(W::P, &p);
                        }
                    }
                }
            }
            ctx.traces += 1;
        }
        Ok(())
    });
}
fn duo<F: Fam<T>, T: Sc, const N: usize, const M: usize>() -> Duo<T> {
    Duo { a: Reg::<F, T, N, M, 1>::boxed(), b: Ext::<F, T, N, M>::boxed() }
}

fn n_states<const N: usize>(k: &impl KalmanFilterNumStates<N>) -> usize { k.states() }
fn n_controls<const N: usize>(k: &impl KalmanFilterNumControls<N>) -> usize { k.controls() }
fn n_obs<const N: usize>(k: &impl KalmanFilterNumObservations<N>) -> usize { k.observations() }
fn dims<const N: usize, const M: usize, const C: usize>(ctx: &mut Ctx) -> Res {
    ctx.step(|| format!("dimensions reported for {N} states, {M} measurements, {C} controls"));
    let r = Reg::<Own, f64, N, M, C>::new();
    let e = Ext::<Boxed, f32, N, M>::new();
    let got = [
        (r.kf.states(), N), (n_states(&r.kf), N), (e.kf.states(), N), (n_states(&e.kf), N),
        (r.ctl.states(), N), (n_states(&r.ctl), N), (r.ctl.controls(), C), (n_controls(&r.ctl), C),
        (r.obs.states(), N), (n_states(&r.obs), N), (r.obs.measurements(), M), (n_obs(&r.obs), M),
        (e.obs.states(), N), (n_states(&e.obs), N), (e.obs.measurements(), M), (n_obs(&e.obs), M),
    ];
    for (i, (g, w)) in got.iter().enumerate() {
        ensure!(g == w, "dimension {i} is reported as {g}, not {w}");
    }
    ctx.state((N * 100 + M * 10 + C) as u64);
    ctx.outcome((N * 100 + M * 10 + C) as u64);
    Ok(())
}

fn main() {
    let mut h = Harness::new("F11");
    let t = h.thorough;
    h.job("reported dimensions", |ctx| {
        macro_rules! m { ($n:literal; $m:literal) => {{ dims::<$n, $m, 1>(ctx)?; dims::<$n, $m, 2>(ctx)?; dims::<$n, $m, 3>(ctx)?; dims::<$n, $m, 5>(ctx)?; }} }
        macro_rules! n { ($($n:literal)*) => { $( m!($n; 1); m!($n; 2); m!($n; 3); m!($n; 4); m!($n; 7); )* } }
        n!(1 2 3 4 5 6 9);
        Ok(())
    });
    let x = t as usize;
    macro_rules! gf { ($($n:literal $m:literal $c:literal $d:literal;)*) => { $(
        route_steps::<Gf<3>>(&mut h, reg!(Own, Gf<3>, $n $m $c), LIN, Base::Zero, Gf::<3>::all(), $d + x);
        route_steps::<Gf<7>>(&mut h, reg!(Own, Gf<7>, $n $m $c), LIN, Base::Dense(0), Gf::<7>::all(), 1 + x);
        route_steps::<Gf<3>>(&mut h, ext!(Own, Gf<3>, $n $m $c), NL, Base::Zero, Gf::<3>::all(), $d + x);
        route_walks::<Gf<7>>(&mut h, reg!(Own, Gf<7>, $n $m $c), LIN, 4);
        route_walks::<Gf<7>>(&mut h, ext!(Own, Gf<7>, $n $m $c), NL, 4);
        duo_steps::<Gf<3>>(&mut h, duo::<Own, Gf<3>, $n, $m>, Base::Zero, Gf::<3>::all(), $d + x);
        duo_steps::<Gf<7>>(&mut h, duo::<Own, Gf<7>, $n, $m>, Base::Dense(1), Gf::<7>::all(), 1 + x);
        duo_walks::<Gf<7>>(&mut h, duo::<Own, Gf<7>, $n, $m>, 4);
    )* } }
    gf!(1 1 1 4; 2 1 1 3; 1 2 2 3; 2 2 1 3; 3 2 2 2; 2 3 1 2; 4 2 1 2; 5 3 3 1; 3 6 4 1;);
    macro_rules! ma { ($($f:ty, $t:ty, $n:literal $m:literal $c:literal;)*) => { $(
        route_steps::<$t>(&mut h, reg!($f, $t, $n $m $c), LIN, Base::Dense(0), <$t>::all(), 1 + x);
        route_steps::<$t>(&mut h, reg!($f, $t, $n $m $c), LIN, Base::Ident, <$t>::few(), 1 + x);
        route_steps::<$t>(&mut h, ext!($f, $t, $n $m $c), NL, Base::Dense(1), <$t>::all(), 1 + x);
        route_walks::<$t>(&mut h, reg!($f, $t, $n $m $c), LIN, 4);
        route_walks::<$t>(&mut h, ext!($f, $t, $n $m $c), NL, 4);
        duo_steps::<$t>(&mut h, duo::<$f, $t, $n, $m>, Base::Dense(0), <$t>::all(), 1 + x);
        duo_steps::<$t>(&mut h, duo::<$f, $t, $n, $m>, Base::Ident, <$t>::few(), 1 + x);
        duo_walks::<$t>(&mut h, duo::<$f, $t, $n, $m>, 4);
    )* } }
    ma!(Own, f64, 1 1 1; Slice, f64, 2 1 1; Boxed, f64, 3 2 2; Arr, f64, 2 3 1; Wrap, f32, 2 2 1; Own, f32, 4 2 1;);
    // beyond size thresholds
    macro_rules! wide { ($($n:literal $m:literal $c:literal;)*) => { $(
        route_steps::<Gf<7>>(&mut h, reg!(Own, Gf<7>, $n $m $c), LIN, Base::Dense(0), vec![Gf::<7>::new(3)], 1);
        route_steps::<f64>(&mut h, reg!(Slice, f64, $n $m $c), LIN, Base::Dense(0), vec![0.0, 2.5], 1);
        route_steps::<f64>(&mut h, ext!(Boxed, f64, $n $m $c), NL, Base::Dense(1), vec![0.0, 2.5], 1);
        route_walks::<f64>(&mut h, reg!(Own, f64, $n $m $c), LIN, 2 + x);
        route_walks::<f64>(&mut h, ext!(Own, f64, $n $m $c), NL, 2 + x);
        duo_steps::<Gf<7>>(&mut h, duo::<Own, Gf<7>, $n, $m>, Base::Dense(1), vec![Gf::<7>::new(3)], 1);
        duo_steps::<f64>(&mut h, duo::<Slice, f64, $n, $m>, Base::Dense(1), vec![0.0, 2.5], 1);
        duo_walks::<f64>(&mut h, duo::<Own, f64, $n, $m>, 2 + x);
    )* } }
    wide!(8 3 2; 9 9 9; 3 12 9; 12 1 1; 17 2 3; 2 17 1;);
    #[cfg(feature = "fixed")]
    ma!(Own, I32F32, 2 1 1; Slice, I16F16, 1 1 1;);
    #[cfg(feature = "alloc")]
    {
        route_walks::<f64>(&mut h, reg_built!(f64, 3 2 1), LIN, 3);
        route_walks::<f64>(&mut h, ext_built!(f64, 3 2 1), NL, 3);
    }
    h.run()
}
