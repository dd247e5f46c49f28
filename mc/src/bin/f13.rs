//! F13: operations write nothing but the estimate; accessors read and write exactly the quantity they name.
#![allow(unused_imports)]
use mc::explore::*;
use mc::fam::*;
use mc::gf::Gf;
use mc::num::*;
use mc::points::*;
use mc::rig::*;
use mc::steps::*;
use mc::*;
use minikalman::prelude::*;

const ROLES: [(W, Role); 10] = [(W::X, Role::X), (W::P, Role::P), (W::A, Role::A), (W::Q, Role::Q), (W::B, Role::B), (W::U, Role::U), (W::Qc, Role::Qc), (W::H, Role::H), (W::Z, Role::Z), (W::R, Role::R)];
const LIN: &[K] = &[K::Predict, K::Tuned, K::Control, K::Correct];
const NL: &[K] = &[K::NlPredict, K::NlTuned, K::NlCorrect];

/// Everything but the estimate, through accessors and (where it can be seen) in memory.
fn frame<T: Sc>(s: &mut dyn Sys<T>, v: &Vals<T>) -> Res {
    for (w, role) in ROLES.iter().skip(2) {
        if !s.has(*w) {
            continue;
        }
        let n = v.g(*w).len();
        for i in 0..n {
            ensure!(s.buf(*w)[i].bits() == v.g(*w)[i].bits(), "{w:?}[{i}] changed from {:?} to {:?}", v.g(*w)[i], s.buf(*w)[i]);
        }
        if s.open() {
            let m = s.arena().dump(*role);
            for i in 0..n.min(m.len()) {
                ensure!(m[i].bits() == v.g(*w)[i].bits(), "the memory of {w:?}[{i}] changed from {:?} to {:?}", v.g(*w)[i], m[i]);
            }
        }
    }
    if s.open() {
        ensure!(s.arena().tails_intact(), "memory beyond a matrix changed");
    }
    Ok(())
}
fn frames<T: Alpha>(h: &mut Harness, mk: Mk<T>, ks: &'static [K], b: Base, values: Vec<T>, depth: usize) {
    h.job(format!("frame of {ks:?} {} up to {depth} deviations from {b:?} over {} values", mk().label(), values.len()), move |ctx| {
        let mut s = mk();
        let d = s.dims();
        let mut i = 0;
        // what the operation does not use holds recognisable values
        let other = Vals::<T>::dense(d, 3);
        for k in ks {
            let mut bv = other.clone();
            let z = base::<T>(b, *k, d);
            for w in k.uses() {
                bv.v[*w as usize] = z.g(*w).to_vec();
            }
            let vs = vars_of(*k, d);
            let rs = routes(*k);
            deviations(&bv, &vs, &values, depth, &mut |v| {
                i += 1;
                let e = model(*k, v);
                if k.tuned() && v.lambda == T::zero() || T::FIXED && matches!(e, Exp::Unknown) {
                    ctx.skipped += 1;
                    return Ok(());
                }
                ctx.step(|| format!("{} route {}: {}", s.label(), rs[i % rs.len()], v.show(*k)));
                ctx.state(mix(v.fp(k.uses()), *k as u64));
                for w in ALLW {
                    if s.has(w) {
                        s.put(w, v.g(w));
                    }
                }
                attempt(&mut *s, v, *k, rs[i % rs.len()], matches!(e, Exp::To(..)))?;
                frame(&mut *s, v)?;
                let n = d.0;
                ctx.outcome(s.buf(W::P)[..n * n].iter().fold(3, |h, x| mix(h, x.bits())));
                Ok(())
            })?;
        }
        Ok(())
    });
}
/// The same where nothing is assumed of the values: every single cell of every matrix set to every odd value
/// (asymmetric noises, infinities, numbers that are none), and every matrix as a whole made lopsided.
fn odd_frames<T: Alpha>(h: &mut Harness, mk: Mk<T>, ks: &'static [K]) {
    h.job(format!("frame of {ks:?} {} with unsymmetric and non-finite values", mk().label()), move |ctx| {
        let mut s = mk();
        let d = s.dims();
        let mut odd: Vec<T> = T::all();
        odd.extend((0..4).map(T::garbage));
        let mut i = 0;
        for k in ks {
            for seed in 0..3 {
                let mut b = Vals::<T>::dense(d, seed);
                if seed > 0 {
                    for w in [W::P, W::Q, W::Qc, W::R] {
                        let n = w.shape(d.0, d.1, d.2).0;
                        for c in 0..n * n {
                            let x = b.v[w as usize][c];
                            b.v[w as usize][c] = if seed == 1 { x + T::dy((c / n) as i64, 4) } else { T::zero() - x };
                        }
                    }
                }
                for w in ALLW {
                    if !s.has(w) {
                        continue;
                    }
                    for c in 0..b.g(w).len() {
                        for (o, x) in odd.iter().enumerate() {
                            let old = b.v[w as usize][c];
                            b.v[w as usize][c] = *x;
                            i += 1;
                            let r = routes(*k)[i % routes(*k).len()];
                            ctx.step(|| format!("{} route {r}, {w:?}[{c}] := {x:?} in {}", s.label(), b.show(*k)));
                            ctx.state(mix(mix(seed as u64 * 31 + *k as u64, w as u64 * 1000 + c as u64), o as u64));
                            for w in ALLW {
                                if s.has(w) {
                                    s.put(w, b.g(w));
                                }
                            }
                            attempt(&mut *s, &b, *k, r, false)?;
                            frame(&mut *s, &b)?;
                            ctx.outcome(s.buf(W::P).iter().fold(3, |h, x| mix(h, x.bits())));
                            b.v[w as usize][c] = old;
                        }
                    }
                }
            }
        }
        Ok(())
    });
}
fn frame_walks<T: Alpha>(h: &mut Harness, mk: Mk<T>, ks: &'static [K], len: usize) {
    h.job(format!("frame of every history of {len} events, {} {ks:?}", mk().label()), move |ctx| {
        let mut s = mk();
        let d = s.dims();
        let ls = letters::<T>(ks, d, if ks[0] == K::Predict { &[W::P, W::H, W::R, W::A, W::B] } else { &[W::P, W::H, W::R, W::A] });
        let word = debruijn(ls.len(), len);
        let v0 = Vals::<T>::dense(d, 2);
        let mut v = v0.clone();
        for w in ALLW {
            if s.has(w) {
                s.put(w, v.g(w));
            }
        }
        for (i, &l) in word.iter().enumerate() {
            match &ls[l] {
                Ev::Set(w, x) => {
                    s.put(*w, x);
                    v.v[*w as usize].copy_from_slice(x);
                }
                Ev::Lambda(l) => v.lambda = *l,
                Ev::Out(o) => v.out = o.clone(),
                Ev::Do(k) => {
                    ctx.step(|| format!("event {i}: {}", v.show(*k)));
                    ctx.state(mix(v.fp(k.uses()), *k as u64));
                    let usable = matches!(model(*k, &v), Exp::To(..));
                    attempt(&mut *s, &v, *k, (i % 4).min(routes(*k).len() - 1) as u8, usable)?;
                    frame(&mut *s, &v)?;
                    for w in [W::X, W::P] {
                        let n = v.g(w).len();
                        let x = s.buf(w)[..n].to_vec();
                        v.v[w as usize].copy_from_slice(&x);
                    }
                    if !T::EXACT && v.g(W::P).iter().chain(v.g(W::X)).any(|x| !(*x < T::dy(64, 1) && *x > T::dy(-64, 1))) {
                        for w in [W::X, W::P] {
                            s.put(w, v0.g(w));
                            v.v[w as usize] = v0.g(w).to_vec();
                        }
                    }
                    ctx.outcome(v.fp(&[W::X, W::P]));
                }
            }
        }
        Ok(())
    });
}

// Accessors: (quantity, how) -> memory. how 0: inherent mutable, 1: trait mutable; for reading also 2: inherent, 3: trait.
macro_rules! via {
    ($s:ident, $w:ident, $how:ident, $v:ident; $($W:ident: $obj:ident $rd:ident $wr:ident $tr:path, $tw:path);*;) => {
        match ($w, $how) {
            $(
                (W::$W, 0) => run($s.$obj.$wr().as_mut_slice(), $v),
                (W::$W, 1) => { use $tw as Tr; run(Tr::$wr(&mut $s.$obj).as_mut_slice(), $v) }
                (W::$W, 2) => read($s.$obj.$rd().as_slice(), $v),
                (W::$W, 3) => { use $tr as Tr; read(Tr::$rd(&$s.$obj).as_slice(), $v) }
                (W::$W, 4) => run($s.$obj.$wr().as_matrix_mut().as_mut_slice(), $v),
                (W::$W, 5) => read($s.$obj.$rd().as_matrix().as_slice(), $v),
            )*
            _ => return false,
        }
    };
}
fn run<T: Copy>(m: &mut [T], v: &mut Vec<T>) {
    let n = v.len();
    m[..n].copy_from_slice(v);
}
fn read<T: Copy>(m: &[T], v: &mut Vec<T>) {
    let n = v.len();
    v.copy_from_slice(&m[..n]);
}
trait Access<T: Sc>: Sys<T> {
    /// False when there is no such accessor.
    fn via(&mut self, w: W, how: usize, v: &mut Vec<T>) -> bool;
}
impl<F: Fam<T>, T: Sc, const N: usize, const M: usize, const C: usize> Access<T> for Reg<F, T, N, M, C> {
    fn via(&mut self, w: W, how: usize, v: &mut Vec<T>) -> bool {
        if (w, how) == (W::Q, 1) || (w, how) == (W::Q, 3) {
            return false; // the linear filter offers its process noise without a trait
        }
        let s = self;
        match (w, how) {
            (W::Q, 0) => run(s.kf.direct_process_noise_mut().as_mut_slice(), v),
            (W::Q, 2) => read(s.kf.direct_process_noise().as_slice(), v),
            (W::Q, 4) => run(s.kf.direct_process_noise_mut().as_matrix_mut().as_mut_slice(), v),
            (W::Q, 5) => read(s.kf.direct_process_noise().as_matrix().as_slice(), v),
            _ => via!(s, w, how, v;
                X: kf state_vector state_vector_mut KalmanFilterStateVector, KalmanFilterStateVectorMut;
                P: kf estimate_covariance estimate_covariance_mut KalmanFilterEstimateCovariance, KalmanFilterEstimateCovarianceMut;
                A: kf state_transition state_transition_mut KalmanFilterStateTransition, KalmanFilterStateTransitionMut;
                B: ctl control_matrix control_matrix_mut KalmanFilterControlTransition, KalmanFilterControlTransitionMut;
                U: ctl control_vector control_vector_mut KalmanFilterControlVector, KalmanFilterControlVectorMut;
                Qc: ctl process_noise_covariance process_noise_covariance_mut KalmanFilterControlProcessNoiseCovariance, KalmanFilterControlProcessNoiseMut;
                H: obs observation_matrix observation_matrix_mut KalmanFilterObservationTransformation, KalmanFilterObservationTransformationMut;
                Z: obs measurement_vector measurement_vector_mut KalmanFilterMeasurementVector, KalmanFilterObservationVectorMut;
                R: obs measurement_noise_covariance measurement_noise_covariance_mut KalmanFilterMeasurementNoiseCovariance, KalmanFilterMeasurementNoiseCovarianceMut;
            ),
        }
        true
    }
}
impl<F: Fam<T>, T: Sc, const N: usize, const M: usize> Access<T> for Ext<F, T, N, M> {
    fn via(&mut self, w: W, how: usize, v: &mut Vec<T>) -> bool {
        let s = self;
        via!(s, w, how, v;
            X: kf state_vector state_vector_mut KalmanFilterStateVector, KalmanFilterStateVectorMut;
            P: kf estimate_covariance estimate_covariance_mut KalmanFilterEstimateCovariance, KalmanFilterEstimateCovarianceMut;
            A: kf state_transition_jacobian state_transition_jacobian_mut ExtendedKalmanFilterStateTransition, ExtendedKalmanFilterStateTransitionMut;
            Q: kf direct_process_noise direct_process_noise_mut KalmanFilterDirectProcessNoiseCovariance, KalmanFilterDirectProcessNoiseMut;
            H: obs observation_jacobian_matrix observation_jacobian_matrix_mut ExtendedKalmanFilterObservationTransformation, ExtendedKalmanFilterObservationTransformationMut;
            Z: obs measurement_vector measurement_vector_mut KalmanFilterMeasurementVector, KalmanFilterObservationVectorMut;
            R: obs measurement_noise_covariance measurement_noise_covariance_mut KalmanFilterMeasurementNoiseCovariance, KalmanFilterMeasurementNoiseCovarianceMut;
        );
        true
    }
}
type MkA<T> = fn() -> Box<dyn Access<T>>;
/// Every sequence of writes through every accessor up to a length; everything is read back after each.
fn accessors<T: Alpha>(h: &mut Harness, name: &str, mk: MkA<T>, len: usize) {
    h.job(format!("every sequence of {len} writes through accessors, {} {name}", mk().label()), move |ctx| {
        let mut s = mk();
        let d = s.dims();
        let mut writers = vec![];
        for w in ALLW {
            if s.has(w) {
                for how in [0, 1, 4] {
                    let (r, c) = w.shape(d.0, d.1, d.2);
                    let mut v = vec![T::zero(); r * c];
                    if s.via(w, how, &mut v) {
                        writers.push((w, how));
                    }
                }
            }
        }
        ensure!(writers.len() >= 2 * 7, "accessors missing: {writers:?}");
        let mut now = Vals::<T>::dense(d, 1);
        for w in ALLW {
            if s.has(w) {
                s.put(w, now.g(w));
            }
        }
        let mut n = 0i64;
        for l in debruijn(writers.len(), len) {
            let (w, how) = writers[l];
            n += 1;
            let mut v: Vec<T> = (0..now.g(w).len() as i64).map(|i| T::dy((i * 3 + n * 5 + w as i64 * 11) % 97 - 48, 8)).collect();
            ctx.step(|| format!("write {n}: {w:?} := {v:?} through accessor kind {how}"));
            lib(|| s.via(w, how, &mut v));
            now.v[w as usize] = v;
            for (r, role) in ROLES {
                if !s.has(r) {
                    continue;
                }
                let want = now.g(r).to_vec();
                for how in [2, 3, 5] {
                    let mut got = vec![T::garbage(2); want.len()];
                    if lib(|| s.via(r, how, &mut got)) {
                        ensure!(got.iter().zip(&want).all(|(a, b)| a.bits() == b.bits()), "reading {r:?} through accessor kind {how} gives {got:?} instead of {want:?}");
                    }
                }
                if s.open() {
                    let m = s.arena().dump(role);
                    if !m.is_empty() {
                        ensure!(m.iter().zip(&want).all(|(a, b)| a.bits() == b.bits()), "the memory of {r:?} is {m:?} instead of {want:?}");
                    }
                }
            }
            ctx.state(now.fp(&ALLW));
            ctx.outcome(now.fp(&ALLW));
        }
        Ok(())
    });
}
fn main() {
    let mut h = Harness::new("F13");
    let t = h.thorough;
    let x = t as usize;
    macro_rules! gf { ($($n:literal $m:literal $c:literal $d:literal;)*) => { $(
        frames::<Gf<3>>(&mut h, reg!(Own, Gf<3>, $n $m $c), LIN, Base::Zero, Gf::<3>::all(), $d + x);
        frames::<Gf<3>>(&mut h, ext!(Own, Gf<3>, $n $m $c), NL, Base::Zero, Gf::<3>::all(), $d + x);
        frames::<Gf<7>>(&mut h, reg!(Slice, Gf<7>, $n $m $c), LIN, Base::Dense(0), Gf::<7>::all(), 1 + x);
        frames::<Gf<7>>(&mut h, ext!(Slice, Gf<7>, $n $m $c), NL, Base::Dense(0), Gf::<7>::all(), 1 + x);
        frame_walks::<Gf<7>>(&mut h, reg!(Own, Gf<7>, $n $m $c), LIN, 4);
        frame_walks::<Gf<7>>(&mut h, ext!(Own, Gf<7>, $n $m $c), NL, 4);
        accessors::<Gf<7>>(&mut h, "", || Box::new(Reg::<Own, Gf<7>, $n, $m, $c>::new()), 2);
        accessors::<Gf<7>>(&mut h, "", || Box::new(Ext::<Own, Gf<7>, $n, $m>::new()), 2);
    )* } }
    gf!(1 1 1 4; 2 1 1 3; 1 2 2 3; 2 2 1 3; 3 2 2 2; 2 3 1 2; 4 2 1 2; 5 3 3 1; 3 6 4 1;);
    macro_rules! ma { ($($f:ty, $t:ty, $n:literal $m:literal $c:literal;)*) => { $(
        frames::<$t>(&mut h, reg!($f, $t, $n $m $c), LIN, Base::Dense(0), <$t>::all(), 1 + x);
        frames::<$t>(&mut h, reg!($f, $t, $n $m $c), LIN, Base::Zero, <$t>::few(), 2);
        frames::<$t>(&mut h, ext!($f, $t, $n $m $c), NL, Base::Dense(1), <$t>::all(), 1 + x);
        frames::<$t>(&mut h, ext!($f, $t, $n $m $c), NL, Base::Ident, <$t>::few(), 2);
        frame_walks::<$t>(&mut h, reg!($f, $t, $n $m $c), LIN, 4);
        frame_walks::<$t>(&mut h, ext!($f, $t, $n $m $c), NL, 4);
        accessors::<$t>(&mut h, "", || Box::new(Reg::<$f, $t, $n, $m, $c>::new()), 3);
        accessors::<$t>(&mut h, "", || Box::new(Ext::<$f, $t, $n, $m>::new()), 3);
    )* } }
    ma!(Own, f64, 1 1 1; Slice, f64, 2 1 1; Boxed, f64, 3 2 2; Arr, f64, 2 3 1; Wrap, f32, 2 2 1; Own, f32, 4 2 1;);
    macro_rules! odd { ($($n:literal $m:literal $c:literal;)*) => { $(
        odd_frames::<Gf<7>>(&mut h, reg!(Own, Gf<7>, $n $m $c), LIN);
        odd_frames::<Gf<7>>(&mut h, ext!(Own, Gf<7>, $n $m $c), NL);
        odd_frames::<f64>(&mut h, reg!(Slice, f64, $n $m $c), LIN);
        odd_frames::<f64>(&mut h, ext!(Slice, f64, $n $m $c), NL);
        odd_frames::<f32>(&mut h, reg!(Own, f32, $n $m $c), LIN);
        odd_frames::<f32>(&mut h, ext!(Own, f32, $n $m $c), NL);
    )* } }
    odd!(1 1 1; 2 1 1; 1 2 2; 2 2 2; 3 2 1; 2 4 3; 5 3 2; 8 3 2; 9 9 1; 12 2 2; 2 12 2; 17 1 1; 1 17 2;);
    #[cfg(feature = "fixed")]
    ma!(Own, I32F32, 2 1 1;);
    #[cfg(feature = "alloc")]
    {
        accessors::<f64>(&mut h, "built", || Box::new(Reg::<Boxed, f64, 3, 2, 1>::built()), 3);
        accessors::<f64>(&mut h, "built", || Box::new(Ext::<Boxed, f64, 3, 2>::built()), 3);
        accessors::<f32>(&mut h, "built", || Box::new(Reg::<Boxed, f32, 1, 1, 1>::built()), 3);
        accessors::<f32>(&mut h, "built", || Box::new(Ext::<Boxed, f32, 1, 1>::built()), 3);
        frame_walks::<f64>(&mut h, reg_built!(f64, 3 2 1), LIN, 3);
        frame_walks::<f64>(&mut h, ext_built!(f64, 3 2 1), NL, 3);
    }
    h.run()
}
