//! F09: temporaries that may share memory do so without changing any result.
#![allow(unused_imports)]
use mc::explore::*;
use mc::fam::*;
use mc::gf::Gf;
use mc::num::*;
use mc::points::*;
use mc::rig::*;
use mc::steps::*;
use mc::*;

/// Every way to share that the documentation permits.
fn layouts() -> Vec<Vec<Vec<Role>>> {
    use Role::*;
    let pairs: [&[(Role, Role)]; 7] = [&[], &[(SInv, KHP)], &[(SInv, HP)], &[(HP, PHt)], &[(PHt, KHP)], &[(SInv, KHP), (HP, PHt)], &[(SInv, HP), (PHt, KHP)]];
    let mut v = vec![];
    for p in pairs {
        for tp in [false, true] {
            let mut g: Vec<Vec<Role>> = p.iter().map(|(a, b)| vec![*a, *b]).collect();
            if tp {
                g.push(vec![TempP, TempBQ]);
            }
            if !g.is_empty() {
                v.push(g);
            }
        }
    }
    v
}
fn compare<T: Alpha>(ctx: &mut Ctx, a: &mut dyn Sys<T>, b: &mut dyn Sys<T>, d: (usize, usize, usize)) -> Res {
    let mut o = 1;
    for (w, n) in [(W::X, d.0), (W::P, d.0 * d.0)] {
        for i in 0..n {
            let (x, y) = (a.buf(w)[i], b.buf(w)[i]);
            ensure!(x.bits() == y.bits(), "{w:?}[{i}] is {x:?} with separate and {y:?} with shared temporaries");
            o = mix(o, x.bits());
        }
    }
    ctx.outcome(o);
    Ok(())
}
type Pair<T> = fn(Vec<Vec<Role>>) -> (Box<dyn Sys<T>>, Box<dyn Sys<T>>);
fn lin<T: Sc, const N: usize, const M: usize, const C: usize>(g: Vec<Vec<Role>>) -> (Box<dyn Sys<T>>, Box<dyn Sys<T>>) {
    (Box::new(Reg::<Own, T, N, M, C>::new()), Box::new(Reg::<Own, T, N, M, C>::with(Arena::sharing(g), T::zero())))
}
fn ext<T: Sc, const N: usize, const M: usize>(g: Vec<Vec<Role>>) -> (Box<dyn Sys<T>>, Box<dyn Sys<T>>) {
    (Box::new(Ext::<Own, T, N, M>::new()), Box::new(Ext::<Own, T, N, M>::with(Arena::sharing(g), T::zero())))
}
fn kinds(linear: bool) -> &'static [K] {
    if linear { &[K::Correct, K::Control, K::Predict, K::Tuned] } else { &[K::NlCorrect, K::NlPredict, K::NlTuned] }
}
/// Single steps from every deviation; each layout, each kind of garbage in the temporaries.
fn steps<T: Alpha>(h: &mut Harness, mk: Pair<T>, linear: bool, b: Base, values: Vec<T>, depth: usize) {
    for (gi, g) in layouts().into_iter().enumerate() {
        if !linear && g.iter().any(|x| x.contains(&Role::TempBQ)) {
            continue;
        }
        let values = values.clone();
        let label = mk(vec![]).0.label();
        h.job(format!("steps with {g:?} shared ({gi}), {label}, up to {depth} deviations from {b:?}"), move |ctx| {
            let (mut s, mut t) = mk(g.clone());
            let d = s.dims();
            let mut i = 0;
            for k in kinds(linear) {
                let bv = base::<T>(b, *k, d);
                let vs = vars_of(*k, d);
                let rs = routes(*k);
                deviations(&bv, &vs, &values, if *k == kinds(linear)[0] { depth } else { depth.min(2) }, &mut |v| {
                    i += 1;
                    if !matches!(model(*k, v), Exp::To(..)) || *k == K::Tuned && v.lambda == T::zero() {
                        ctx.skipped += 1;
                        return Ok(());
                    }
                    ctx.step(|| format!("{} with {g:?} shared, route {}: {}", s.label(), rs[i % rs.len()], v.show(*k)));
                    ctx.state(mix(v.fp(k.uses()), *k as u64));
                    load(&mut *s, v, k.uses());
                    load(&mut *t, v, k.uses());
                    t.arena().poison(i % 4);
                    perform(&mut *s, v, *k, rs[i % rs.len()])?;
                    perform(&mut *t, v, *k, rs[i % rs.len()])?;
                    compare(ctx, &mut *s, &mut *t, d)
                })?;
            }
            Ok(())
        });
    }
}
/// Histories over live objects.
fn walks<T: Alpha>(h: &mut Harness, mk: Pair<T>, linear: bool, len: usize) {
    for (gi, g) in layouts().into_iter().enumerate() {
        if !linear && g.iter().any(|x| x.contains(&Role::TempBQ)) {
            continue;
        }
        let label = mk(vec![]).0.label();
        h.job(format!("every history of {len} events with {g:?} shared ({gi}), {label}"), move |ctx| {
            let (mut s, mut t) = mk(g.clone());
            let d = s.dims();
            let sets: &[W] = if linear { &[W::P, W::H, W::R, W::A, W::B] } else { &[W::P, W::H, W::R, W::A] };
            let ls = letters::<T>(kinds(linear), d, sets);
            let word = debruijn(ls.len(), len);
            let v0 = Vals::<T>::dense(d, 2);
            for route in 0..4 {
                let mut v = v0.clone();
                for w in ALLW {
                    if s.has(w) {
                        s.put(w, v.g(w));
                        t.put(w, v.g(w));
                    }
                }
                for (i, &l) in word.iter().enumerate() {
                    match &ls[l] {
                        Ev::Set(w, x) => {
                            s.put(*w, x);
                            t.put(*w, x);
                        }
                        Ev::Lambda(l) => v.lambda = *l,
                        Ev::Out(o) => v.out = o.clone(),
                        Ev::Do(k) => {
                            for w in ALLW {
                                if s.has(w) {
                                    let n = v.g(w).len();
                                    v.v[w as usize].copy_from_slice(&s.buf(w)[..n]);
                                }
                            }
                            ctx.step(|| format!("{} with {g:?} shared, route {route}, event {i}: {}", s.label(), v.show(*k)));
                            ctx.state(mix(v.fp(k.uses()), *k as u64));
                            let r = routes(*k);
                            perform(&mut *s, &v, *k, r[route % r.len()])?;
                            perform(&mut *t, &v, *k, r[route % r.len()])?;
                            compare(ctx, &mut *s, &mut *t, d)?;
                            if !T::EXACT && s.buf(W::P)[..d.0 * d.0].iter().chain(&v.v[0]).any(|x| !(*x < T::dy(64, 1) && *x > T::dy(-64, 1))) {
                                for w in [W::X, W::P] {
                                    s.put(w, v0.g(w));
                                    t.put(w, v0.g(w));
                                }
                            }
                        }
                    }
                }
                ctx.traces += 1;
            }
            Ok(())
        });
    }
}
fn main() {
    let mut h = Harness::new("F09");
    let t = h.thorough;
    let x = t as usize;
    macro_rules! both { ($($n:literal $m:literal $c:literal;)*) => { $(
        let small = $n * $m <= 6;
        steps::<Gf<3>>(&mut h, lin::<Gf<3>, $n, $m, $c>, true, Base::Zero, Gf::<3>::all(), if small { 3 + x } else { 2 + x });
        steps::<Gf<3>>(&mut h, ext::<Gf<3>, $n, $m>, false, Base::Zero, Gf::<3>::all(), if small { 3 + x } else { 2 + x });
        steps::<Gf<7>>(&mut h, lin::<Gf<7>, $n, $m, $c>, true, Base::Dense(0), Gf::<7>::all(), 1 + x);
        steps::<f64>(&mut h, lin::<f64, $n, $m, $c>, true, Base::Dense(1), f64::few(), 1 + x);
        steps::<f64>(&mut h, ext::<f64, $n, $m>, false, Base::Dense(1), f64::few(), 1 + x);
        walks::<f64>(&mut h, lin::<f64, $n, $m, $c>, true, if t { 4 } else { 3 });
        walks::<f64>(&mut h, ext::<f64, $n, $m>, false, if t { 4 } else { 3 });
        walks::<Gf<7>>(&mut h, lin::<Gf<7>, $n, $m, $c>, true, 3);
    )* } }
    both!(1 1 1; 2 1 1; 1 2 1; 2 2 2; 3 2 1; 2 3 2; 3 1 2; 4 2 1; 4 4 1; 3 5 4; 6 3 2;);
    // beyond size thresholds
    macro_rules! wide { ($($n:literal $m:literal $c:literal;)*) => { $(
        steps::<Gf<7>>(&mut h, lin::<Gf<7>, $n, $m, $c>, true, Base::Dense(0), vec![Gf::<7>::new(3)], 1);
        steps::<f64>(&mut h, lin::<f64, $n, $m, $c>, true, Base::Dense(1), vec![2.5], 1);
        steps::<f64>(&mut h, ext::<f64, $n, $m>, false, Base::Dense(1), vec![2.5], 1);
        walks::<f64>(&mut h, lin::<f64, $n, $m, $c>, true, 2);
        walks::<f64>(&mut h, ext::<f64, $n, $m>, false, 2);
        walks::<Gf<7>>(&mut h, lin::<Gf<7>, $n, $m, $c>, true, 2);
    )* } }
    wide!(8 3 2; 9 9 9; 3 9 1; 17 2 3; 3 17 2; 12 8 1;);
    walks::<f32>(&mut h, lin::<f32, 3, 2, 1>, true, 3);
    walks::<f32>(&mut h, ext::<f32, 2, 1>, false, 3);
    #[cfg(feature = "fixed")]
    {
        walks::<I32F32>(&mut h, lin::<I32F32, 2, 1, 1>, true, 3);
        steps::<I32F32>(&mut h, lin::<I32F32, 3, 2, 1>, true, Base::Dense(1), I32F32::few(), 1 + x);
    }
    h.run()
}
