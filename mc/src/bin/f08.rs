//! F08: no hidden memory. Several live objects, every interleaving of events up to a length; after every
//! operation the same operation on freshly built objects, loaded with the same estimate and model, must give the
//! same bits, and equal inputs must have given equal results before.
#![allow(unused_imports)]
use mc::explore::*;
use mc::fam::*;
use mc::gf::Gf;
use mc::num::*;
use mc::points::*;
use mc::pre::*;
use mc::rig::*;
use mc::*;
use minikalman::prelude::*;
use std::collections::HashMap;

const LINX: usize = 3; // filters: two linear, one extended
struct World<F: Fam<T>, T: Sc, const N: usize, const M1: usize, const M2: usize, const C1: usize, const C2: usize> {
    k: [KfOf<F, T, N>; 2],
    e: EkfOf<F, T, N>,
    c1: CtlOf<F, T, N, C1>,
    c2: CtlOf<F, T, N, C2>,
    o1: ObsOf<F, T, N, M1>,
    o2: ObsOf<F, T, N, M2>,
    e1: EobsOf<F, T, N, M1>,
    e2: EobsOf<F, T, N, M2>,
    arena: Arena<T>,
}
impl<F: Fam<T>, T: Sc, const N: usize, const M1: usize, const M2: usize, const C1: usize, const C2: usize> World<F, T, N, M1, M2, C1, C2> {
    fn new(i: T) -> Self {
        let mut arena = Arena::new();
        let a = &mut arena;
        World {
            k: [mk_kf::<F, T, N>(a, i), mk_kf::<F, T, N>(a, i)],
            e: mk_ekf::<F, T, N>(a, i),
            c1: mk_ctl::<F, T, N, C1>(a, i),
            c2: mk_ctl::<F, T, N, C2>(a, i),
            o1: mk_obs::<F, T, N, M1>(a, i),
            o2: mk_obs::<F, T, N, M2>(a, i),
            e1: mk_eobs::<F, T, N, M1>(a, i),
            e2: mk_eobs::<F, T, N, M2>(a, i),
            arena,
        }
    }
    fn slot(&mut self, s: Slot) -> &mut [T] {
        use Slot::*;
        let (n, v): (usize, &mut [T]) = match s {
            Fx(2) => (N, self.e.state_vector_mut().as_mut_slice()),
            Fp(2) => (N * N, self.e.estimate_covariance_mut().as_mut_slice()),
            Fa(2) => (N * N, self.e.state_transition_jacobian_mut().as_mut_slice()),
            Fq(2) => (N * N, self.e.direct_process_noise_mut().as_mut_slice()),
            Fx(i) => (N, self.k[i].state_vector_mut().as_mut_slice()),
            Fp(i) => (N * N, self.k[i].estimate_covariance_mut().as_mut_slice()),
            Fa(i) => (N * N, self.k[i].state_transition_mut().as_mut_slice()),
            Fq(i) => (N * N, self.k[i].direct_process_noise_mut().as_mut_slice()),
            Cb(0) => (N * C1, self.c1.control_matrix_mut().as_mut_slice()),
            Cu(0) => (C1, self.c1.control_vector_mut().as_mut_slice()),
            Cq(0) => (C1 * C1, self.c1.process_noise_covariance_mut().as_mut_slice()),
            Cb(_) => (N * C2, self.c2.control_matrix_mut().as_mut_slice()),
            Cu(_) => (C2, self.c2.control_vector_mut().as_mut_slice()),
            Cq(_) => (C2 * C2, self.c2.process_noise_covariance_mut().as_mut_slice()),
            Oh(0) => (M1 * N, self.o1.observation_matrix_mut().as_mut_slice()),
            Oz(0) => (M1, self.o1.measurement_vector_mut().as_mut_slice()),
            Or(0) => (M1 * M1, self.o1.measurement_noise_covariance_mut().as_mut_slice()),
            Oh(1) => (M2 * N, self.o2.observation_matrix_mut().as_mut_slice()),
            Oz(1) => (M2, self.o2.measurement_vector_mut().as_mut_slice()),
            Or(1) => (M2 * M2, self.o2.measurement_noise_covariance_mut().as_mut_slice()),
            Oh(2) => (M1 * N, self.e1.observation_jacobian_matrix_mut().as_mut_slice()),
            Oz(2) => (M1, self.e1.measurement_vector_mut().as_mut_slice()),
            Or(2) => (M1 * M1, self.e1.measurement_noise_covariance_mut().as_mut_slice()),
            Oh(_) => (M2 * N, self.e2.observation_jacobian_matrix_mut().as_mut_slice()),
            Oz(_) => (M2, self.e2.measurement_vector_mut().as_mut_slice()),
            Or(_) => (M2 * M2, self.e2.measurement_noise_covariance_mut().as_mut_slice()),
        };
        &mut v[..n]
    }
    fn run(&mut self, a: Act, lambda: T) {
        // the user's functions: a fixed nonlinear map
        fn f<T: Sc>(x: &[T], y: &mut [T]) {
            let n = x.len();
            for (i, y) in y.iter_mut().enumerate() {
                *y = x[(i + 1) % n] * T::dy(1, 2) + x[i % n] * x[0] * T::dy(1, 64) + T::dy(i as i64 + 1, 2);
            }
        }
        type Px<F, T, const N: usize> = minikalman::buffers::types::PredictedStateEstimateVectorBuffer<N, T, <F as Fam<T>>::V<N>>;
        type X<F, T, const N: usize> = minikalman::buffers::types::StateVectorBuffer<N, T, <F as Fam<T>>::V<N>>;
        type Y<F, T, const M: usize> = minikalman::buffers::types::InnovationVectorBuffer<M, T, <F as Fam<T>>::V<M>>;
        lib(|| match a {
            Act::Predict(2) => self.e.predict_nonlinear(|x: &X<F, T, N>, y: &mut Px<F, T, N>| f(&x.as_slice()[..N], &mut y.as_mut_slice()[..N])),
            Act::Tuned(2) => self.e.predict_tuned_nonlinear(lambda, |x: &X<F, T, N>, y: &mut Px<F, T, N>| f(&x.as_slice()[..N], &mut y.as_mut_slice()[..N])),
            Act::Predict(i) => self.k[i].predict(),
            Act::Tuned(i) => self.k[i].predict_tuned(lambda),
            Act::Control(i, 0) => self.k[i].control(&mut self.c1),
            Act::Control(i, _) => self.k[i].control(&mut self.c2),
            Act::Correct(2, 0) => self.e.correct_nonlinear(&mut self.e1, |x: &X<F, T, N>, y: &mut Y<F, T, M1>| f(&x.as_slice()[..N], &mut y.as_mut_slice()[..M1])),
            Act::Correct(2, _) => self.e.correct_nonlinear(&mut self.e2, |x: &X<F, T, N>, y: &mut Y<F, T, M2>| f(&x.as_slice()[..N], &mut y.as_mut_slice()[..M2])),
            Act::Correct(i, 0) => self.k[i].correct(&mut self.o1),
            Act::Correct(i, _) => self.k[i].correct(&mut self.o2),
        })
    }
}
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
enum Slot { Fx(usize), Fp(usize), Fa(usize), Fq(usize), Cb(usize), Cu(usize), Cq(usize), Oh(usize), Oz(usize), Or(usize) }
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
enum Act { Predict(usize), Tuned(usize), Control(usize, usize), Correct(usize, usize) }
impl Act {
    fn code(self) -> u64 {
        (match self { Act::Predict(i) => i, Act::Tuned(i) => 10 + i, Act::Control(i, c) => 20 + 3 * i + c, Act::Correct(i, o) => 40 + 3 * i + o }) as u64
    }
    fn on(self) -> usize {
        match self { Act::Predict(i) | Act::Tuned(i) | Act::Control(i, _) | Act::Correct(i, _) => i }
    }
    fn uses(self) -> Vec<Slot> {
        use Slot::*;
        let i = self.on();
        let mut v = vec![Fx(i), Fp(i)];
        match self {
            Act::Predict(_) | Act::Tuned(_) => v.extend([Fa(i), Fq(i)]),
            Act::Control(_, c) => v.extend([Cb(c), Cu(c), Cq(c)]),
            Act::Correct(_, o) => { let o = o + if i == 2 { 2 } else { 0 }; v.extend([Oh(o), Oz(o), Or(o)]) }
        }
        v
    }
}
#[derive(Clone, Debug)]
enum Letter { Do(Act), Next(Slot) }
fn every_slot() -> Vec<Slot> {
    use Slot::*;
    let mut v = vec![];
    for i in 0..LINX { v.extend([Fx(i), Fp(i), Fa(i), Fq(i)]); }
    for i in 0..2 { v.extend([Cb(i), Cu(i), Cq(i)]); }
    for i in 0..4 { v.extend([Oh(i), Oz(i), Or(i)]); }
    v
}
fn letters(kind: usize) -> Vec<Letter> {
    use Act::*;
    use Slot::*;
    let (acts, slots): (Vec<Act>, Vec<Slot>) = match kind {
        // two linear filters sharing controls and measurements
        0 => (vec![Predict(0), Tuned(0), Control(0, 0), Correct(0, 0), Correct(0, 1), Predict(1), Control(1, 0), Correct(1, 0)], vec![Fa(0), Fp(0), Oh(0), Cb(0)]),
        // every model value of one linear filter and its objects
        1 => (vec![Predict(0), Tuned(0), Control(0, 0), Control(0, 1), Correct(0, 0), Correct(0, 1)], vec![Fa(0), Fq(0), Cb(0), Cu(0), Cq(0), Oh(0), Oz(0), Or(0), Fx(0), Fp(0)]),
        // an extended filter next to a linear one
        2 => (vec![Predict(2), Tuned(2), Correct(2, 0), Correct(2, 1), Predict(0), Correct(0, 0)], vec![Fa(2), Fq(2), Fp(2), Oh(2), Oz(2), Or(2), Fx(2)]),
        // everything
        _ => (vec![Predict(0), Tuned(0), Control(0, 0), Control(0, 1), Correct(0, 0), Correct(0, 1), Predict(1), Tuned(1), Control(1, 0), Control(1, 1), Correct(1, 0), Correct(1, 1), Predict(2), Tuned(2), Correct(2, 0), Correct(2, 1)], every_slot()),
    };
    acts.into_iter().map(Letter::Do).chain(slots.into_iter().map(Letter::Next)).collect()
}
/// The `k`-th setting of a quantity.
fn setting<T: Sc>(s: Slot, len: usize, k: usize) -> Vec<T> {
    use Slot::*;
    let sym = matches!(s, Fp(_) | Fq(_) | Cq(_) | Or(_));
    let n = (len as f64).sqrt().round() as usize;
    (0..len)
        .map(|i| {
            let (a, b) = if sym { ((i / n).min(i % n), (i / n).max(i % n)) } else { (0, i) };
            let id = match s { Fx(j) => j, Fp(j) => 5 + j, Fa(j) => 9 + j, Fq(j) => 14 + j, Cb(j) => 20 + j, Cu(j) => 24 + j, Cq(j) => 27 + j, Oh(j) => 31 + j, Oz(j) => 40 + j, Or(j) => 45 + j };
            let r = ((a * 5 + b * 3 + id * 7 + k * 11) % 13) as i64 - 6;
            if sym && a == b {
                T::dy(3 + (k as i64 + a as i64 + id as i64) % 3, 1)
            } else if sym {
                T::dy(r, 16)
            } else {
                T::dy(if r == 0 { 2 } else { r }, 8)
            }
        })
        .collect()
}
struct Truth<T> { v: HashMap<Slot, Vec<T>>, k: HashMap<Slot, usize> }

fn world<F: Fam<T>, T: Alpha, const N: usize, const M1: usize, const M2: usize, const C1: usize, const C2: usize>(h: &mut Harness, kind: usize, len: usize, poison: bool) {
    h.job(format!("every history of {len} events over {} letters (kind {kind}), states {N} measurements {M1},{M2} controls {C1},{C2} {} {}{}", letters(kind).len(), F::NAME, T::NAME, if poison { ", temporaries overwritten" } else { "" }), move |ctx| {
        type Fresh<T, const N: usize, const M1: usize, const M2: usize, const C1: usize, const C2: usize> = World<Boxed, T, N, M1, M2, C1, C2>;
        let mut w = World::<F, T, N, M1, M2, C1, C2>::new(T::zero());
        let mut tr = Truth { v: HashMap::new(), k: HashMap::new() };
        let slots = every_slot();
        for &s in &slots {
            let n = w.slot(s).len();
            let v = setting::<T>(s, n, 0);
            w.slot(s).copy_from_slice(&v);
            tr.v.insert(s, v);
            tr.k.insert(s, 0);
        }
        let ls = letters(kind);
        let word = debruijn(ls.len(), len);
        let mut memo: HashMap<u64, u64> = HashMap::new();
        let mut i = 0usize;
        for &l in &word {
            i += 1;
            let act = match &ls[l] {
                Letter::Next(s) => {
                    let k = tr.k[s] + 1;
                    tr.k.insert(*s, k % 3);
                    let v = setting::<T>(*s, tr.v[s].len(), k % 3);
                    w.slot(*s).copy_from_slice(&v);
                    tr.v.insert(*s, v);
                    continue;
                }
                Letter::Do(a) => *a,
            };
            if poison {
                w.arena.poison(i % 4);
            }
            let lambda = T::dy([2, -1, 4][i % 3], if T::EXACT { 1 } else { 2 });
            let uses = act.uses();
            ctx.step(|| format!("event {i}: {act:?} lambda {lambda:?} with {:?}; last letters {:?}", uses.iter().map(|s| (*s, tr.v[s].clone())).collect::<Vec<_>>(), word[i.saturating_sub(12)..i].iter().map(|l| ls[*l].clone()).collect::<Vec<_>>()));
            let mut fp = mix(act.code(), if matches!(act, Act::Tuned(_)) { lambda.bits() } else { 0 });
            for s in &uses {
                for x in &tr.v[s] {
                    fp = mix(fp, x.bits());
                }
            }
            ctx.state(fp);
            w.run(act, lambda);
            // the same from scratch
            let mut fresh = Fresh::<T, N, M1, M2, C1, C2>::new(T::zero());
            for s in &uses {
                fresh.slot(*s).copy_from_slice(&tr.v[s]);
            }
            fresh.run(act, lambda);
            let mut out = 1;
            for s in [Slot::Fx(act.on()), Slot::Fp(act.on())] {
                let (a, b) = (w.slot(s).to_vec(), fresh.slot(s).to_vec());
                for j in 0..a.len() {
                    ensure!(a[j].bits() == b[j].bits(), "{s:?}[{j}] is {:?}, with fresh objects {:?}", a[j], b[j]);
                    out = mix(out, a[j].bits());
                }
                // keep the values within range
                let big = a.iter().any(|x| !(*x < T::dy(64, 1) && *x > T::dy(-64, 1))) && !T::EXACT;
                let v = if big || a.iter().any(|x| *x != *x) { setting::<T>(s, a.len(), i % 3) } else { a };
                w.slot(s).copy_from_slice(&v);
                tr.v.insert(s, v);
            }
            if let Some(o) = memo.get(&fp) {
                ensure!(*o == out, "the same input gave a different result earlier");
            } else if memo.len() < 2_000_000 {
                memo.insert(fp, out);
            }
            ctx.outcome(out);
            // nothing else may have changed
            if i % 16 == 0 || len < 4 {
                for s in &slots {
                    for (j, x) in tr.v[s].iter().enumerate() {
                        ensure!(w.slot(*s)[j].bits() == x.bits(), "{s:?}[{j}] changed from {x:?} to {:?}", w.slot(*s)[j]);
                    }
                }
            }
        }
        Ok(())
    });
}

type Pw<const N: usize, const M1: usize, const M2: usize, const C1: usize, const C2: usize> = World<Boxed, Pf, N, M1, M2, C1, C2>;
type Bits = Vec<(Slot, Vec<u64>)>;
/// A world at its starting values (different for each `k`); the same memory is used again and again.
fn reset<const N: usize, const M1: usize, const M2: usize, const C1: usize, const C2: usize>(w: &mut Pw<N, M1, M2, C1, C2>, k: usize) {
    for s in every_slot() {
        let v = setting::<Pf>(s, w.slot(s).len(), k);
        w.slot(s).copy_from_slice(&v);
    }
}
fn values<const N: usize, const M1: usize, const M2: usize, const C1: usize, const C2: usize>(w: &mut Pw<N, M1, M2, C1, C2>) -> Bits {
    every_slot().into_iter().map(|s| (s, w.slot(s).iter().map(|x| x.bits()).collect())).collect()
}
fn same(what: &str, got: Bits, want: &Bits) -> Res {
    for ((s, a), (_, b)) in got.iter().zip(want) {
        for j in 0..a.len() {
            ensure!(a[j] == b[j], "{what}: {s:?}[{j}] is {:?}, undisturbed {:?}", f64::from_bits(a[j]), f64::from_bits(b[j]));
        }
    }
    Ok(())
}
/// One of the operations alone: its scheduling points and what it leaves.
fn alone<const N: usize, const M1: usize, const M2: usize, const C1: usize, const C2: usize>(w: &mut Pw<N, M1, M2, C1, C2>, k: usize, a: Act) -> (u64, Bits) {
    reset(w, k);
    let n = points(|| w.run(a, Pf(2.0 - k as f64 / 2.0)));
    (n, values(w))
}
fn acts() -> Vec<Act> {
    letters(3).into_iter().filter_map(|l| if let Letter::Do(a) = l { Some(a) } else { None }).filter(|a| a.on() != 1).collect()
}
/// Every operation, interrupted at every scheduling point by every operation on other objects (and that one, for
/// `nested`, at every point of its own by a third); and by building and dropping other objects.
fn interrupts<const N: usize, const M1: usize, const M2: usize, const C1: usize, const C2: usize>(h: &mut Harness, nested: bool) {
    for a in acts() {
        h.job(format!("{a:?} interrupted at every point by every operation on other objects{}, states {N} measurements {M1},{M2} controls {C1},{C2}", if nested { ", itself interrupted at every point" } else { "" }), move |ctx| {
            let mk = || Pw::<N, M1, M2, C1, C2>::new(Pf(0.0));
            let (mut wa, mut wb, mut wc) = (mk(), mk(), mk());
            let (na, ra) = alone(&mut wa, 0, a);
            let c = a;
            let (_, rc) = alone(&mut wc, 2, c);
            let mut all: Vec<Option<Act>> = acts().into_iter().map(Some).collect();
            if !nested { all.push(None); }
            for b in all {
                let (nb, rb) = match b { Some(b) => alone(&mut wb, 1, b), None => (0, vec![]) };
                for i in 0..na {
                    for j in 0..if nested { nb } else { 1 } {
                        ctx.step(|| if nested { format!("at point {i} of {a:?}: {b:?} on other objects, at whose point {j}: {c:?} on yet others") } else { format!("at point {i} of {a:?}: {b:?} on other objects") });
                        ctx.state(mix(mix(i, j), b.map_or(99, Act::code)));
                        reset(&mut wa, 0);
                        if b.is_some() { reset(&mut wb, 1); }
                        if nested { reset(&mut wc, 2); }
                        let mut fb = || match b {
                            Some(b) => wb.run(b, Pf(1.5)),
                            None => {
                                let mut w = mk();
                                w.slot(Slot::Fx(0))[0] = Pf(3.0);
                                w.run(Act::Predict(0), Pf(1.5));
                            }
                        };
                        let mut fc = || wc.run(c, Pf(1.0));
                        let mut hooks: Vec<(u64, &mut dyn FnMut())> = vec![(i, &mut fb)];
                        if nested { hooks.push((j, &mut fc)); }
                        interrupted(hooks, || wa.run(a, Pf(2.0)));
                        same("the interrupted operation", values(&mut wa), &ra)?;
                        if b.is_some() { same("the interrupting operation", values(&mut wb), &rb)?; }
                        if nested { same("the innermost operation", values(&mut wc), &rc)?; }
                        ctx.outcome(mix(i, j));
                    }
                }
            }
            Ok(())
        });
    }
}
/// Two threads, each with its own objects: every pair of operations and every schedule that switches from the
/// first to the second, back, and to the second again.
fn threads<const N: usize, const M1: usize, const M2: usize, const C1: usize, const C2: usize>(h: &mut Harness) {
    for a in acts() {
        h.job(format!("{a:?} and every operation on another thread, every schedule with two preemptions, states {N} measurements {M1},{M2} controls {C1},{C2}"), move |ctx| {
            let mk = || Pw::<N, M1, M2, C1, C2>::new(Pf(0.0));
            let (mut wa, mut wb) = (mk(), mk());
            let (na, ra) = alone(&mut wa, 0, a);
            for b in acts() {
                let (nb, rb) = alone(&mut wb, 1, b);
                let batons: Vec<_> = (0..na * nb).map(|_| Baton::new()).collect();
                let wb = &mut wb;
                let wa = &mut wa;
                let (ra, rb, batons) = (&ra, &rb, &batons);
                std::thread::scope(|s| {
                    let other = s.spawn(move || {
                        let mut r = Ok(());
                        for t in 0..na * nb {
                            if r.is_ok() { reset(wb, 1); }
                            let bad = r.is_err();
                            let run = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| batons[t as usize].run(1, t % nb, u64::MAX, || if !bad { wb.run(b, Pf(1.5)) })));
                            if r.is_ok() {
                                r = if run.is_err() { viol("the operation on the second thread panicked") } else { same("the operation on the second thread", values(wb), rb) }.map_err(|e| (t, e));
                            }
                        }
                        r
                    });
                    let mut r = Ok(());
                    for t in 0..na * nb {
                        if r.is_ok() { reset(wa, 0); }
                        let bad = r.is_err();
                        let run = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| batons[t as usize].run(0, t / nb, u64::MAX, || if !bad { wa.run(a, Pf(2.0)) })));
                        if r.is_ok() {
                            r = if run.is_err() { viol("the operation on the first thread panicked") } else { same("the operation on the first thread", values(wa), ra) }.map_err(|e| (t, e));
                        }
                    }
                    let o = other.join().unwrap();
                    let first = [r, o].into_iter().filter_map(|r| r.err()).min_by_key(|e| e.0);
                    for t in 0..first.as_ref().map_or(na * nb, |f| f.0 + 1) {
                        ctx.step(|| format!("{a:?} for {} points, then {b:?} on another thread for {} points, then the rest of each", t / nb, t % nb));
                        ctx.state(mix(t, b.code()));
                        ctx.outcome(t);
                    }
                    first.map_or(Ok(()), |f| Err(f.1))
                })?;
            }
            Ok(())
        });
    }
}

fn main() {
    let mut h = Harness::new("F08");
    let t = h.thorough;
    let l = if t { 5 } else { 4 };
    macro_rules! worlds { ($($f:ty, $t:ty, $n:literal $m1:literal $m2:literal $c1:literal $c2:literal;)*) => { $(
        for poison in [false, true] {
            if poison && !<$f as Fam<$t>>::OPEN { continue; }
            world::<$f, $t, $n, $m1, $m2, $c1, $c2>(&mut h, 0, l, poison);
            world::<$f, $t, $n, $m1, $m2, $c1, $c2>(&mut h, 1, 4, poison);
            world::<$f, $t, $n, $m1, $m2, $c1, $c2>(&mut h, 2, l, poison);
            world::<$f, $t, $n, $m1, $m2, $c1, $c2>(&mut h, 3, if t { 4 } else { 3 }, poison);
        }
    )* } }
    worlds!(
        Own, Gf<3>, 1 1 2 1 2;
        Own, Gf<3>, 2 1 2 1 2;
        Slice, Gf<7>, 2 3 1 2 1;
        Boxed, Gf<5>, 3 2 1 1 2;
        Own, f64, 2 1 2 1 2;
        Own, f64, 3 2 1 2 1;
        Arr, f64, 4 1 3 1 2;
        Wrap, f32, 2 2 1 1 1;
        Own, f64, 5 3 2 1 3;
        Slice, f32, 1 1 1 1 1;
    );
    #[cfg(feature = "fixed")]
    worlds!(Own, I32F32, 2 1 2 1 1;);
    interrupts::<1, 1, 2, 1, 2>(&mut h, false);
    interrupts::<2, 1, 2, 2, 1>(&mut h, false);
    interrupts::<3, 3, 1, 1, 2>(&mut h, false);
    interrupts::<1, 1, 2, 1, 2>(&mut h, true);
    threads::<1, 1, 2, 1, 2>(&mut h);
    if t {
        interrupts::<5, 2, 4, 3, 1>(&mut h, false);
        interrupts::<2, 1, 2, 2, 1>(&mut h, true);
        threads::<2, 1, 2, 2, 1>(&mut h);
    }
    // beyond size thresholds
    macro_rules! wide { ($($f:ty, $t:ty, $n:literal $m1:literal $m2:literal $c1:literal $c2:literal;)*) => { $(
        for poison in [false, true] {
            if poison && !<$f as Fam<$t>>::OPEN { continue; }
            world::<$f, $t, $n, $m1, $m2, $c1, $c2>(&mut h, 0, 3, poison);
            world::<$f, $t, $n, $m1, $m2, $c1, $c2>(&mut h, 2, 3, poison);
            world::<$f, $t, $n, $m1, $m2, $c1, $c2>(&mut h, 3, if t { 3 } else { 2 }, poison);
        }
    )* } }
    wide!(
        Own, f64, 9 9 2 9 2;
        Slice, Gf<7>, 9 1 3 2 12;
        Own, f64, 17 2 3 1 2;
        Own, f64, 2 17 1 1 17;
        Boxed, f64, 12 8 9 3 4;
        Wrap, f32, 8 3 8 8 1;
    );
    h.run()
}
