//! F10: a correction whose innovation covariance is not positive definite is ignored.
#![allow(unused_imports)]
use mc::explore::*;
use mc::fam::*;
use mc::gf::Gf;
use mc::num::*;
use mc::points::*;
use mc::rig::*;
use mc::steps::*;
use mc::*;

/// One correction with whatever covariance; an unusable one must change nothing, now or for what follows.
fn check<T: Alpha>(ctx: &mut Ctx, s: &mut dyn Sys<T>, f: &mut dyn Sys<T>, v: &Vals<T>, k: K, route: u8, i: usize) -> Res {
    let d = v.d;
    let want = model(k, v);
    if let Exp::Unknown = want {
        ctx.skipped += 1;
        return Ok(());
    }
    ctx.step(|| format!("{} route {route}: {}", s.label(), v.show(k)));
    load(s, v, k.uses());
    if s.open() {
        s.arena().poison(i % 4);
    }
    match want {
        Exp::To(x, p) => {
            // usable: taken as usual
            perform(s, v, k, route)?;
            verify(s, v, k, &(x, p))?;
            ctx.traces += 1;
            return Ok(());
        }
        _ => attempt(s, v, k, route, false)?,
    }
    ctx.state(v.fp(k.uses()));
    for w in k.uses() {
        for (j, x) in v.g(*w).iter().enumerate() {
            ensure!(s.buf(*w)[j].bits() == x.bits(), "{w:?}[{j}] was {x:?} and is {:?} after an unusable correction", s.buf(*w)[j]);
        }
    }
    ctx.outcome(k as u64);
    // what follows: the same on an object that never saw it
    if i % 3 == 0 {
        let b = Vals::<T>::dense(d, (i % 5) as i64);
        for step in [[W::H, W::R], [W::H, W::Z]][i % 2].iter().map(Some).chain([None]) {
            if let Some(w) = step {
                s.put(*w, b.g(*w));
            }
        }
        let mut u = v.clone();
        for w in k.uses() {
            let n = v.g(*w).len();
            u.v[*w as usize].copy_from_slice(&s.buf(*w)[..n]);
        }
        load(f, &u, k.uses());
        let usable = !matches!(model(k, &u), Exp::NotPosDef | Exp::Unknown);
        if usable {
            attempt(s, &u, k, route, usable)?;
            attempt(f, &u, k, route, usable)?;
            for w in [W::X, W::P] {
                for j in 0..v.g(w).len() {
                    ensure!(s.buf(w)[j].bits() == f.buf(w)[j].bits(), "a later correction gives {w:?}[{j}] = {:?} instead of {:?}", s.buf(w)[j], f.buf(w)[j]);
                }
            }
        }
    }
    Ok(())
}
fn bases<T: Sc>(k: K, d: (usize, usize, usize)) -> Vec<(String, Vals<T>)> {
    let mut v: Vec<(String, Vals<T>)> = vec![("nothing".into(), Vals::zero(d))];
    let mut certain = Vals::<T>::dense(d, 0);
    certain.v[W::P as usize].fill(T::zero());
    certain.v[W::R as usize].fill(T::zero());
    v.push(("certainty without noise".into(), certain.clone()));
    for p in 0..d.1 {
        // the p-th measurement has no noise, the others do
        let mut c = certain.clone();
        for i in 0..d.1 {
            if i != p {
                c.set(W::R, i, i, T::dy(3, 1));
            }
        }
        v.push((format!("certainty, no noise on component {p}"), c.clone()));
        // with negative noise there
        c.set(W::R, p, p, T::dy(-1, 2));
        v.push((format!("certainty, negative noise on component {p}"), c));
        // dense, with negative noise there outweighing the uncertainty
        let mut c = Vals::<T>::dense(d, 1);
        c.set(W::R, p, p, T::dy(-200, 1));
        v.push((format!("uncertainty outweighed on component {p}"), c));
    }
    // unobserving measurement, no noise
    let mut c = Vals::<T>::dense(d, 2);
    c.v[W::H as usize].fill(T::zero());
    c.v[W::R as usize].fill(T::zero());
    v.push(("no observation and no noise".into(), c));
    if d.1 > d.0 {
        // more measurements than states, no noise: rank deficient, exactly
        let mut c = Vals::<T>::zero(d);
        c = c.ident(W::P);
        for i in 0..d.1 {
            c.set(W::H, i, i % d.0, T::one());
        }
        v.push(("repeated measurements without noise".into(), c));
    }
    // correlations above one
    if d.1 > 1 {
        let mut c = Vals::<T>::zero(d).ident(W::R);
        c.set(W::R, 0, d.1 - 1, T::dy(2, 1));
        v.push(("correlation above one".into(), c));
    }
    let _ = k;
    v
}
fn devs<T: Alpha>(h: &mut Harness, k: K, mk: Mk<T>, values: Vec<T>, depth: usize) {
    let d = mk().dims();
    for (name, b) in bases::<T>(k, d) {
        let values = values.clone();
        h.job(format!("{k:?} {} up to {depth} deviations from {name}, {} values", mk().label(), values.len()), move |ctx| {
            let (mut s, mut f) = (mk(), mk());
            let vs = vars_of(k, d);
            let rs = routes(k);
            let mut i = 0;
            let (sr, fr) = (&mut *s, &mut *f);
            for r in rs {
                deviations(&b, &vs, &values, depth.min(1), &mut |v| {
                    i += 1;
                    check(ctx, sr, fr, v, k, *r, i)
                })?;
            }
            if depth > 1 {
                deviations(&b, &vs, &values, depth, &mut |v| {
                    i += 1;
                    check(ctx, sr, fr, v, k, rs[i % rs.len()], i)
                })?;
            }
            if ctx.transitions == 0 { ctx.outcome(0); }
            Ok(())
        });
    }
}
/// Every noise covariance over the grid, with several uncertainties.
fn noises<T: Alpha>(h: &mut Harness, k: K, mk: Mk<T>, values: Vec<T>) {
    let d = mk().dims();
    h.job(format!("{k:?} {} every measurement noise over {} values", mk().label(), values.len()), move |ctx| {
        let (mut s, mut f) = (mk(), mk());
        let vs = vars(&[W::R], d);
        let rs = routes(k);
        let mut i = 0;
        for seed in 0..3i64 {
            let mut b = Vals::<T>::dense(d, seed);
            if seed == 0 {
                b.v[W::P as usize].fill(T::zero());
            } else if seed == 1 {
                b.v[W::P as usize].fill(T::one());
            }
            grid(&b, &vs, &values, &mut |v| {
                i += 1;
                check(ctx, &mut *s, &mut *f, v, k, rs[i % rs.len()], i)
            })?;
        }
        if ctx.transitions == 0 { ctx.outcome(0); }
        Ok(())
    });
}
/// Histories in which usable and unusable corrections alternate.
fn histories<T: Alpha>(h: &mut Harness, ks: &'static [K], mk: Mk<T>, len: usize) {
    h.job(format!("histories of {len} events with unusable corrections, {}", mk().label()), move |ctx| {
        let d = mk().dims();
        let a = Vals::<T>::dense(d, 0);
        let mut ls: Vec<Ev<T>> = ks.iter().map(|k| Ev::Do(*k)).collect();
        let n = d.0;
        let m = d.1;
        ls.push(Ev::Set(W::R, vec![T::zero(); m * m]));
        ls.push(Ev::Set(W::R, a.g(W::R).to_vec()));
        let mut neg = a.g(W::R).to_vec();
        neg[m * m - 1] = T::dy(-100, 1);
        ls.push(Ev::Set(W::R, neg));
        ls.push(Ev::Set(W::P, vec![T::zero(); n * n]));
        ls.push(Ev::Set(W::P, a.g(W::P).to_vec()));
        ls.push(Ev::Set(W::H, vec![T::zero(); m * n]));
        ls.push(Ev::Set(W::H, a.g(W::H).to_vec()));
        ls.push(Ev::Set(W::X, a.g(W::X).to_vec()));
        if !T::EXACT {
            // no noise in the process: certainty stays
            ls.push(Ev::Set(W::Q, vec![T::zero(); n * n]));
        }
        let word = debruijn(ls.len(), len);
        let mut s = mk();
        for r in 0..4u8 {
            let mut w = Walk::start(&mut *s, &Vals::dense(d, 2), r);
            for &l in &word {
                w.event(ctx, &mut *s, l, &ls[l], true)?;
                // an estimate that rounding has made lopsided is no valid input
                let pp: Vec<f64> = w.v.g(W::P).iter().map(|x| x.to_ref().weight()).collect();
                let top = pp.iter().fold(0.0f64, |a, b| a.max(*b));
                let lopsided = (0..n * n).any(|i| (pp[i] - pp[i % n * n + i / n]).abs() > 1e-3 * top || (i / n != i % n && pp[i] > 1.001 * (pp[i / n * (n + 1)] * pp[i % n * (n + 1)]).sqrt()));
                if !T::EXACT && lopsided || !T::EXACT && w.v.g(W::P).iter().chain(w.v.g(W::X)).any(|x| !(*x < T::dy(256, 1) && *x > T::dy(-256, 1))) {
                    for q in [W::P, W::X] {
                        let x = a.g(q).to_vec();
                        w.event(ctx, &mut *s, 99, &Ev::Set(q, x), true)?;
                    }
                }
            }
            ctx.traces += 1;
        }
        Ok(())
    });
}
/// An innovation covariance that is not a number is not positive definite.
fn nans<T: Alpha>(h: &mut Harness, k: K, mk: Mk<T>, nan: T) {
    let d = mk().dims();
    h.job(format!("{k:?} {} with a cell that is not a number", mk().label()), move |ctx| {
        let (mut s, mut f) = (mk(), mk());
        for seed in 0..3 {
            for w in [W::R, W::P, W::H] {
                for var in vars(&[w], d) {
                    for r in routes(k) {
                        let good = Vals::<T>::dense(d, seed);
                        let mut v = good.clone();
                        v.put(var, nan);
                        ctx.step(|| format!("{} route {r}: {}", s.label(), v.show(k)));
                        load(&mut *s, &v, k.uses());
                        ctx.state(mix(v.fp(k.uses()), *r as u64));
                        attempt(&mut *s, &v, k, *r, false)?;
                        for q in k.uses() {
                            for (j, x) in v.g(*q).iter().enumerate() {
                                ensure!(s.buf(*q)[j].bits() == x.bits(), "{q:?}[{j}] was {x:?} and is {:?} after a correction whose covariance is not a number", s.buf(*q)[j]);
                            }
                        }
                        // repaired, the same measurement works as on objects that never saw it
                        load(&mut *s, &good, k.uses());
                        load(&mut *f, &good, k.uses());
                        perform(&mut *s, &good, k, *r)?;
                        perform(&mut *f, &good, k, *r)?;
                        for q in [W::X, W::P] {
                            for j in 0..v.g(q).len() {
                                ensure!(s.buf(q)[j].bits() == f.buf(q)[j].bits(), "a later correction gives {q:?}[{j}] = {:?} instead of {:?}", s.buf(q)[j], f.buf(q)[j]);
                            }
                        }
                        ctx.outcome(fp_of(&*s.buf(W::X)));
                        ctx.traces += 1;
                    }
                }
            }
        }
        Ok(())
    });
}
fn fp_of<T: Sc>(v: &[T]) -> u64 {
    v.iter().fold(3, |h, x| mix(h, x.bits()))
}
fn main() {
    let mut h = Harness::new("F10");
    macro_rules! nan { ($($f:ty, $t:ident, $n:literal $m:literal;)*) => { $(
        nans(&mut h, K::Correct, reg!($f, $t, $n $m 1), $t::NAN);
        nans(&mut h, K::NlCorrect, ext!($f, $t, $n $m 1), $t::NAN);
    )* } }
    nan!(Own, f64, 1 1; Slice, f64, 2 2; Boxed, f32, 3 2; Arr, f64, 2 4; Wrap, f32, 4 3; Own, f64, 5 5;);
    let t = h.thorough;
    macro_rules! ex { ($($n:literal $m:literal $q:literal $th:literal;)*) => { $(
        devs(&mut h, K::Correct, reg!(Own, Gf<3>, $n $m 1), Gf::<3>::all(), if t { $th } else { $q });
        devs(&mut h, K::NlCorrect, ext!(Own, Gf<3>, $n $m 1), Gf::<3>::all(), if t { $th } else { $q });
        devs(&mut h, K::Correct, reg!(Slice, Gf<7>, $n $m 1), Gf::<7>::all(), if t { 2 } else { 1 });
    )* } }
    ex!(1 1 4 4; 1 2 4 4; 2 1 4 5; 2 2 3 4; 3 1 3 4; 3 2 3 4; 2 3 3 4; 1 4 3 4; 3 3 2 3; 4 1 2 3; 4 2 2 3; 4 4 2 2; 2 5 2 3; 6 3 2 2; 1 7 2 3;);
    grid_all(&mut h);
    macro_rules! ma { ($($f:ty, $t:ty, $n:literal $m:literal;)*) => { $(
        devs(&mut h, K::Correct, reg!($f, $t, $n $m 1), <$t>::few(), if t { 3 } else { 2 });
        devs(&mut h, K::Correct, reg!($f, $t, $n $m 1), <$t>::all(), if t { 2 } else { 1 });
        devs(&mut h, K::NlCorrect, ext!($f, $t, $n $m 1), <$t>::few(), if t { 3 } else { 2 });
        devs(&mut h, K::NlCorrect, ext!($f, $t, $n $m 1), <$t>::all(), if t { 2 } else { 1 });
        histories(&mut h, &[K::Correct, K::Predict, K::Control], reg!($f, $t, $n $m 1), if t { 5 } else { 4 });
        histories(&mut h, &[K::NlCorrect, K::NlPredict], ext!($f, $t, $n $m 1), if t { 5 } else { 4 });
    )* } }
    ma!(Own, f64, 1 1; Slice, f64, 2 1; Boxed, f64, 2 2; Arr, f64, 3 2; Wrap, f64, 1 3; Own, f32, 2 3; Slice, f32, 3 1; Boxed, f32, 2 2; Own, f64, 4 4;);
    // beyond size thresholds
    macro_rules! wide { ($($n:literal $m:literal;)*) => { $(
        devs(&mut h, K::Correct, reg!(Own, Gf<7>, $n $m 1), vec![Gf::<7>::new(0), Gf::<7>::new(3)], 1);
        devs(&mut h, K::NlCorrect, ext!(Boxed, Gf<7>, $n $m 1), vec![Gf::<7>::new(0), Gf::<7>::new(3)], 1);
        devs(&mut h, K::Correct, reg!(Slice, f64, $n $m 1), vec![0.0, -2.0], 1);
        devs(&mut h, K::NlCorrect, ext!(Own, f64, $n $m 1), vec![0.0, -2.0], 1);
        histories(&mut h, &[K::Correct, K::Predict, K::Control], reg!(Own, f64, $n $m 1), if t { 4 } else { 3 });
        histories(&mut h, &[K::NlCorrect, K::NlPredict], ext!(Own, f64, $n $m 1), if t { 4 } else { 3 });
    )* } }
    wide!(8 8; 9 2; 2 9; 12 3; 3 12; 17 1; 1 17;);
    histories(&mut h, &[K::Correct, K::Predict, K::Control, K::Tuned], reg!(Own, Gf<7>, 2 2 1), 4);
    histories(&mut h, &[K::Correct, K::Predict, K::Control], reg!(Own, Gf<5>, 3 2 1), 4);
    histories(&mut h, &[K::NlCorrect, K::NlPredict], ext!(Own, Gf<7>, 2 2 1), 4);
    let iv = |l: &[f64]| l.to_vec();
    noises(&mut h, K::Correct, reg!(Own, f64, 1 1 1), (-64..=64).map(|i| i as f64 / 8.0).collect());
    noises(&mut h, K::Correct, reg!(Own, f64, 2 2 1), (-8..=8).map(|i| i as f64 / 2.0).collect());
    noises(&mut h, K::Correct, reg!(Slice, f64, 2 3 1), iv(&[-2.0, -1.0, 0.0, 0.5, 1.0, 3.0]));
    noises(&mut h, K::Correct, reg!(Boxed, f64, 1 4 1), iv(&[-1.0, 0.0, 2.0]));
    noises(&mut h, K::NlCorrect, ext!(Own, f64, 2 2 1), (-8..=8).map(|i| i as f64 / 2.0).collect());
    noises(&mut h, K::NlCorrect, ext!(Slice, f64, 3 3 1), iv(&[-2.0, -1.0, 0.0, 0.5, 1.0, 3.0]));
    noises(&mut h, K::NlCorrect, ext!(Boxed, f32, 1 4 1), vec![-1.0, 0.0, 2.0]);
    #[cfg(feature = "fixed")]
    {
        noises(&mut h, K::Correct, reg!(Own, I16F16, 1 1 1), (-64..=64).map(|i| I16F16::dy(i, 8)).collect());
        noises(&mut h, K::Correct, reg!(Own, I32F32, 2 2 1), (-8..=8).map(|i| I32F32::dy(i, 2)).collect());
        noises(&mut h, K::NlCorrect, ext!(Own, I32F32, 2 2 1), (-8..=8).map(|i| I32F32::dy(i, 2)).collect());
        devs(&mut h, K::Correct, reg!(Own, I32F32, 2 1 1), I32F32::few(), 2);
        devs(&mut h, K::Correct, reg!(Boxed, I16F16, 1 1 1), I16F16::few(), 2);
        devs(&mut h, K::NlCorrect, ext!(Slice, I32F32, 2 2 1), I32F32::few(), 2);
    }
    h.run()
}
fn grid_all(h: &mut Harness) {
    noises(h, K::Correct, reg!(Own, Gf<13>, 1 1 1), Gf::<13>::all());
    noises(h, K::Correct, reg!(Own, Gf<11>, 2 2 1), Gf::<11>::all());
    noises(h, K::Correct, reg!(Own, Gf<3>, 2 3 1), Gf::<3>::all());
    noises(h, K::Correct, reg!(Own, Gf<5>, 3 3 1), Gf::<5>::all());
    noises(h, K::Correct, reg!(Own, Gf<3>, 2 4 1), Gf::<3>::all());
    noises(h, K::NlCorrect, ext!(Own, Gf<5>, 3 3 1), Gf::<5>::all());
    noises(h, K::NlCorrect, ext!(Own, Gf<3>, 2 4 1), Gf::<3>::all());
}
