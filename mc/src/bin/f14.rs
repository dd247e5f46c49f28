//! F14: running filters neither panic nor touch the heap.
#![allow(unused_imports)]
use mc::explore::*;
use mc::fam::*;
use mc::gf::Gf;
use mc::mat::*;
use mc::num::*;
use mc::points::*;
use mc::rig::*;
use mc::steps::*;
use mc::*;
use minikalman::prelude::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! { static HEAP: Cell<u64> = const { Cell::new(0) }; }
struct Counting;
fn seen() {
    if in_lib() {
        let _ = HEAP.try_with(|c| c.set(c.get() + 1));
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        seen();
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        seen();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        seen();
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        seen();
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;
fn heap(what: impl FnOnce() -> String) -> Res {
    let n = HEAP.with(|c| c.replace(0));
    ensure!(n == 0, "{} used the heap {n} times", what());
    Ok(())
}

const LIN: &[K] = &[K::Predict, K::Tuned, K::Control, K::Correct];
const NL: &[K] = &[K::NlPredict, K::NlTuned, K::NlCorrect];
const DENSE_MAX: i64 = 64;

trait Range: Alpha {
    /// Values at the ends of the type's range, all finite.
    fn ends() -> Vec<Self> {
        Self::all()
    }
    fn finite(self) -> bool {
        true
    }
}
impl<const P: u32> Range for Gf<P> where Gf<P>: Alpha {
    fn finite(self) -> bool {
        !self.bad
    }
}
macro_rules! float { ($t:ident, $sub:expr) => { impl Range for $t {
    fn ends() -> Vec<Self> { vec![0.0, -0.0, 1.0, -1.0, $t::MAX, $t::MIN, $t::MIN_POSITIVE, -$t::MIN_POSITIVE, $t::EPSILON, $sub, -$sub, 1e19, 1e-19, 0.1, 3.0] }
    fn finite(self) -> bool { self.is_finite() }
} } }
float!(f32, 1e-45);
float!(f64, 5e-324);
#[cfg(feature = "fixed")]
impl Range for I16F16 {}
#[cfg(feature = "fixed")]
impl Range for I32F32 {}

/// In fixed point an overflow is the caller's doing, so the inputs are restricted to those whose results are small.
fn fits<T: Range>(k: K, v: &Vals<T>) -> bool {
    if k.tuned() && v.lambda == T::zero() {
        return false;
    }
    !T::FIXED || matches!(model(k, v), Exp::To(..))
}
fn once<T: Range>(ctx: &mut Ctx, s: &mut dyn Sys<T>, v: &Vals<T>, k: K, r: u8) -> Res {
    if !fits(k, v) {
        ctx.skipped += 1;
        return Ok(());
    }
    ctx.step(|| format!("{} route {r}: {}", s.label(), v.show(k)));
    ctx.state(mix(v.fp(k.uses()), mix(v.lambda.bits(), k as u64)));
    load(s, v, k.uses());
    HEAP.with(|c| c.set(0));
    // whether the function is called is not this property's business
    let mut f = |_: &[T], out: &mut [T]| {
        let n = out.len();
        out.copy_from_slice(&v.out[..n])
    };
    match k {
        K::Predict => s.op(Op::Predict, r),
        K::Tuned => s.op(Op::Tuned(v.lambda), r),
        K::Control => s.op(Op::Control, r),
        K::Correct => s.op(Op::Correct, r),
        K::NlPredict => s.op(Op::NlPredict(&mut f), r),
        K::NlTuned => s.op(Op::NlTuned(v.lambda, &mut f), r),
        K::NlCorrect => s.op(Op::NlCorrect(&mut f), r),
    }
    heap(|| format!("{k:?} through route {r}"))?;
    let n = v.d.0;
    ctx.outcome(s.buf(W::P)[..n * n].iter().fold(k as u64, |h, x| mix(h, x.bits())));
    Ok(())
}
fn inputs<T: Range>(h: &mut Harness, mk: Mk<T>, ks: &'static [K], b: Base, values: Vec<T>, depth: usize) {
    h.job(format!("{ks:?} {} up to {depth} deviations from {b:?} over {} values", mk().label(), values.len()), move |ctx| {
        let mut s = mk();
        let d = s.dims();
        let mut i = 0;
        for k in ks {
            let rs = routes(*k);
            let vs = vars_of(*k, d);
            deviations(&base(b, *k, d), &vs, &values, depth, &mut |v| {
                i += 1;
                once(ctx, &mut *s, v, *k, rs[i % rs.len()])
            })?;
        }
        Ok(())
    });
}
fn histories<T: Range>(h: &mut Harness, mk: Mk<T>, ks: &'static [K], len: usize) {
    h.job(format!("every history of {len} events, {} {ks:?}", mk().label()), move |ctx| {
        let mut s = mk();
        let d = s.dims();
        let sets: &[W] = if ks[0] == K::Predict { &[W::P, W::H, W::R, W::A, W::B] } else { &[W::P, W::H, W::R, W::A] };
        let mut ls = letters::<T>(ks, d, sets);
        // unusable measurements, a perfect measurement, no uncertainty at all
        for w in [W::R, W::P, W::H, W::A] {
            ls.push(Ev::Set(w, vec![T::zero(); w.shape(d.0, d.1, d.2).0 * w.shape(d.0, d.1, d.2).1]));
        }
        let word = debruijn(ls.len(), len);
        let v0 = Vals::<T>::dense(d, 2);
        let mut v = v0.clone();
        for (i, &l) in word.iter().enumerate() {
            match &ls[l] {
                Ev::Set(w, x) => v.v[*w as usize].copy_from_slice(x),
                Ev::Lambda(l) => v.lambda = *l,
                Ev::Out(o) => v.out = o.clone(),
                Ev::Do(k) => {
                    let rs = routes(*k);
                    once(ctx, &mut *s, &v, *k, rs[i % rs.len()])?;
                    for w in [W::X, W::P] {
                        let n = v.g(w).len();
                        let x = s.buf(w)[..n].to_vec();
                        v.v[w as usize].copy_from_slice(&x);
                    }
                    let big = |x: &T| if T::FIXED { !(*x < T::dy(DENSE_MAX, 1) && *x > T::dy(-DENSE_MAX, 1)) } else { !x.finite() };
                    if v.g(W::P).iter().chain(v.g(W::X)).any(big) {
                        v.v[W::X as usize] = v0.g(W::X).to_vec();
                        v.v[W::P as usize] = v0.g(W::P).to_vec();
                    }
                }
            }
        }
        ctx.traces += 1;
        Ok(())
    });
}

/// Every accessor of the filter, control and measurement objects, by inherent method and through the traits.
#[inline(never)]
fn accessors<F: Fam<T>, T: Sc, const N: usize, const M: usize, const C: usize>(ctx: &mut Ctx) -> Res {
    let mut a = Arena::new();
    a.surplus = 2;
    let a = &mut a;
    let (mut kf, mut ekf) = (mk_kf::<F, T, N>(a, T::one()), mk_ekf::<F, T, N>(a, T::one()));
    let (mut ctl, mut obs, mut eobs) = (mk_ctl::<F, T, N, C>(a, T::one()), mk_obs::<F, T, N, M>(a, T::one()), mk_eobs::<F, T, N, M>(a, T::one()));
    macro_rules! read { ($o:ident, $tr:ident, $($f:ident),*) => { $(
        ctx.step(|| format!("{}::{} {N}x{M}x{C} {} {}", stringify!($o), stringify!($f), F::NAME, T::NAME));
        HEAP.with(|c| c.set(0));
        let l = lib(|| { let q = $o.$f(); let s = q.as_slice(); let mut n = 0; for x in s { n += (x.bits() != 0) as usize; } n });
        let l2 = lib(|| $tr::$f(&$o).as_slice().len());
        heap(|| format!("{}", stringify!($f)))?;
        ctx.state(mix(l as u64, N as u64 * 64 + M as u64));
        ctx.outcome(l2 as u64);
    )* } }
    macro_rules! write { ($o:ident, $tr:ident, $($f:ident),*) => { $(
        ctx.step(|| format!("{}::{} {N}x{M}x{C} {} {}", stringify!($o), stringify!($f), F::NAME, T::NAME));
        HEAP.with(|c| c.set(0));
        lib(|| { $o.$f().set(0, 0, T::one()); $o.$f().clear(); $o.$f().apply(|m| m.set_at(0, 0, T::one())); });
        lib(|| { $tr::$f(&mut $o).set_all(T::one()); $tr::$f(&mut $o)[0] = T::zero(); });
        heap(|| format!("{}", stringify!($f)))?;
        ctx.outcome(1);
    )* } }
    read!(kf, KalmanFilterStateVector, state_vector);
    read!(kf, KalmanFilterStateTransition, state_transition);
    read!(kf, KalmanFilterEstimateCovariance, estimate_covariance);
    write!(kf, KalmanFilterStateVectorMut, state_vector_mut);
    write!(kf, KalmanFilterStateTransitionMut, state_transition_mut);
    write!(kf, KalmanFilterEstimateCovarianceMut, estimate_covariance_mut);
    lib(|| { kf.direct_process_noise().as_slice().len() + { kf.direct_process_noise_mut().set_all(T::one()); 0 } });
    read!(ekf, KalmanFilterStateVector, state_vector);
    read!(ekf, ExtendedKalmanFilterStateTransition, state_transition_jacobian);
    read!(ekf, KalmanFilterEstimateCovariance, estimate_covariance);
    read!(ekf, KalmanFilterDirectProcessNoiseCovariance, direct_process_noise);
    write!(ekf, KalmanFilterStateVectorMut, state_vector_mut);
    write!(ekf, ExtendedKalmanFilterStateTransitionMut, state_transition_jacobian_mut);
    write!(ekf, KalmanFilterEstimateCovarianceMut, estimate_covariance_mut);
    write!(ekf, KalmanFilterDirectProcessNoiseMut, direct_process_noise_mut);
    read!(ctl, KalmanFilterControlVector, control_vector);
    read!(ctl, KalmanFilterControlTransition, control_matrix);
    read!(ctl, KalmanFilterControlProcessNoiseCovariance, process_noise_covariance);
    write!(ctl, KalmanFilterControlVectorMut, control_vector_mut);
    write!(ctl, KalmanFilterControlTransitionMut, control_matrix_mut);
    write!(ctl, KalmanFilterControlProcessNoiseMut, process_noise_covariance_mut);
    read!(obs, KalmanFilterMeasurementVector, measurement_vector);
    read!(obs, KalmanFilterObservationTransformation, observation_matrix);
    read!(obs, KalmanFilterMeasurementNoiseCovariance, measurement_noise_covariance);
    write!(obs, KalmanFilterObservationVectorMut, measurement_vector_mut);
    write!(obs, KalmanFilterObservationTransformationMut, observation_matrix_mut);
    write!(obs, KalmanFilterMeasurementNoiseCovarianceMut, measurement_noise_covariance_mut);
    read!(eobs, KalmanFilterMeasurementVector, measurement_vector);
    read!(eobs, ExtendedKalmanFilterObservationTransformation, observation_jacobian_matrix);
    read!(eobs, KalmanFilterMeasurementNoiseCovariance, measurement_noise_covariance);
    write!(eobs, KalmanFilterObservationVectorMut, measurement_vector_mut);
    write!(eobs, ExtendedKalmanFilterObservationTransformationMut, observation_jacobian_matrix_mut);
    write!(eobs, KalmanFilterMeasurementNoiseCovarianceMut, measurement_noise_covariance_mut);
    HEAP.with(|c| c.set(0));
    let n = lib(|| kf.states() + ekf.states() + ctl.states() + ctl.controls() + obs.states() + obs.measurements() + eobs.states() + eobs.measurements()
        + KalmanFilterNumStates::states(&kf) + KalmanFilterNumStates::states(&ekf) + KalmanFilterNumControls::controls(&ctl)
        + KalmanFilterNumObservations::observations(&obs) + KalmanFilterNumObservations::observations(&eobs));
    heap(|| "a dimension query".into())?;
    ctx.outcome(n as u64);
    Ok(())
}

#[inline(never)]
fn act(ctx: &mut Ctx, what: &dyn Fn() -> String, name: &str, f: &mut dyn FnMut()) -> Res {
    ctx.step(|| format!("{}: {name}", what()));
    HEAP.with(|c| c.set(0));
    lib(f);
    ctx.outcome(mix(name.len() as u64, name.as_bytes()[2] as u64));
    heap(|| name.into())
}
/// Every operation of a matrix of this shape.
#[inline(never)]
fn matrices<F: Fam<T>, T: Sc, const R: usize, const C: usize, const U: usize>(ctx: &mut Ctx) -> Res {
    let mut ar = Arena::new();
    ar.surplus = 2;
    let o = T::one();
    let p = |n: usize| Role::Other(n);
    let what = || format!("{R}x{C} times {C}x{U} {} {}", F::NAME, T::NAME);
    let (mut a, mut b) = (F::make::<R, C>(&mut ar, p(0), o), F::make::<C, U>(&mut ar, p(1), o));
    let (mut bt, mut c, mut d) = (F::make::<U, C>(&mut ar, p(2), o), F::make::<R, U>(&mut ar, p(3), o), F::make::<R, C>(&mut ar, p(4), o));
    let (mut x, mut y, mut q, mut inv) = (F::vec::<C>(&mut ar, p(5), o), F::vec::<R>(&mut ar, p(6), o), F::make::<R, R>(&mut ar, p(7), o), F::make::<R, R>(&mut ar, p(8), o));
    let (mut bx, mut rr, mut cc) = (vec![o; C], vec![o; C + 1], vec![o; R + 1]);
    macro_rules! each { ($($e:expr),* $(,)?) => { $(
        act(ctx, &what, stringify!($e), &mut || { $e; })?;
    )* } }
    for _ in 0..2 {
        ctx.state(fp(a.as_slice()));
        each!(a.mult(&b, &mut c), a.mult_buffered(&b, &mut c, &mut bx), a.mult_rowvector(&x, &mut y), a.multadd_rowvector(&x, &mut y), a.mult_transb(&bt, &mut c),
            a.multadd_transb(&bt, &mut c), a.multscale_transb(&bt, o, &mut c), a.sub(&d, &mut d.as_mut_slice_copy::<F, R, C>()), a.add_inplace_b(&mut d), a.sub_inplace_b(&mut d),
            a.copy(&mut d), a.copy_to(&mut d), a.copy_from(&d), a.add_inplace_a(&d), a.sub_inplace_a(&d), a.get_row_copy(R - 1, &mut rr), a.get_column_copy(C - 1, &mut cc),
            q.make_identity(), q.set_symmetric(R - 1, 0, T::zero()), q.cholesky_decompose_lower(), q.invert_l_cholesky(&mut inv), q.make_scalar(o), q.make_comatrix(o, T::zero()),
            q.set_diagonal_to_scalar(o), a.set_zero(), a.set_all(o), a.clear(), b.set(0, 0, o), bt.set_at(0, 0, o), a.inspect(|m| m.get(0, 0)), x.set_row(0, o), y.set_row(0, o),
            x.get_row(C - 1), a.apply(|m| m.set_all(o)), q.set_all(o), q.cholesky_decompose_lower(), q.clear(), q.cholesky_decompose_lower());
    }
    Ok(())
}
trait Copied<T: Sc> {
    fn as_mut_slice_copy<F: Fam<T>, const R: usize, const C: usize>(&self) -> Sink<R, C, T>;
}
impl<T: Sc, X> Copied<T> for X {
    fn as_mut_slice_copy<F: Fam<T>, const R: usize, const C: usize>(&self) -> Sink<R, C, T> {
        Sink([[T::zero(); C]; R])
    }
}
/// A matrix on the stack.
struct Sink<const R: usize, const C: usize, T>([[T; C]; R]);
impl<const R: usize, const C: usize, T> RowMajorSequentialData<R, C, T> for Sink<R, C, T> {
    fn as_slice(&self) -> &[T] {
        self.0.as_flattened()
    }
}
impl<const R: usize, const C: usize, T> RowMajorSequentialDataMut<R, C, T> for Sink<R, C, T> {
    fn as_mut_slice(&mut self) -> &mut [T] {
        self.0.as_flattened_mut()
    }
}
impl<const R: usize, const C: usize, T> std::ops::Index<usize> for Sink<R, C, T> {
    type Output = T;
    fn index(&self, i: usize) -> &T {
        &self.0.as_flattened()[i]
    }
}
impl<const R: usize, const C: usize, T> std::ops::IndexMut<usize> for Sink<R, C, T> {
    fn index_mut(&mut self, i: usize) -> &mut T {
        &mut self.0.as_flattened_mut()[i]
    }
}
impl<const R: usize, const C: usize, T> Matrix<R, C, T> for Sink<R, C, T> {}
impl<const R: usize, const C: usize, T> MatrixMut<R, C, T> for Sink<R, C, T> {}

fn main() {
    let mut h = Harness::new("F14");
    let t = h.thorough;
    let x = 1 + t as usize;
    macro_rules! acc { ($($n:literal $m:literal $c:literal;)*) => { h.job("accessors", |ctx| { $(
        accessors::<Own, f64, $n, $m, $c>(ctx)?;
        accessors::<Boxed, f32, $n, $m, $c>(ctx)?;
        accessors::<Slice, f64, $n, $m, $c>(ctx)?;
        accessors::<Arr, f32, $n, $m, $c>(ctx)?;
        accessors::<Wrap, f64, $n, $m, $c>(ctx)?;
    )* Ok(()) }); } }
    acc!(1 1 1; 1 2 3; 2 1 1; 3 2 4; 4 5 1; 5 3 2; 6 6 6; 8 1 3;);
    macro_rules! mat { ($($f:ty, $t:ty, $r:literal $c:literal $u:literal;)*) => { h.job("matrix operations", |ctx| { $(
        matrices::<$f, $t, $r, $c, $u>(ctx)?;
    )* Ok(()) }); } }
    mat!(Own, f64, 1 1 1; Boxed, f32, 1 1 1; Slice, f64, 1 1 1; Arr, f32, 1 1 1; Wrap, f64, 1 1 1; Own, f64, 1 2 1; Boxed, f32, 1 2 1; Slice, f64, 1 2 1; Arr, f32, 1 2 1; Wrap, f64, 1 2 1; Own, f64, 2 1 2; Boxed, f32, 2 1 2; Slice, f64, 2 1 2; Arr, f32, 2 1 2; Wrap, f64, 2 1 2; Own, f64, 1 1 3; Boxed, f32, 1 1 3; Slice, f64, 1 1 3; Arr, f32, 1 1 3; Wrap, f64, 1 1 3; Own, f64, 2 2 2; Boxed, f32, 2 2 2; Own, f64, 2 3 4; Slice, f64, 2 3 4; Own, f64, 3 2 1; Arr, f32, 3 2 1; Own, f64, 3 3 3; Wrap, f64, 3 3 3; Own, f64, 4 1 5; Boxed, f32, 4 1 5; Own, f64, 4 4 4; Slice, f64, 4 4 4; Own, f64, 5 2 3; Arr, f32, 5 2 3; Own, f64, 5 5 5; Wrap, f64, 5 5 5; Own, f64, 6 6 6; Boxed, f32, 6 6 6; Own, f64, 7 3 2; Slice, f64, 7 3 2; Own, f64, 8 8 8; Arr, f32, 8 8 8; Own, f64, 1 9 1; Wrap, f64, 1 9 1; Own, f64, 8 1 8; Boxed, f32, 8 1 8;);
    macro_rules! all { ($($f:ty, $t:ty, $n:literal $m:literal $c:literal; $d:literal $l:literal;)*) => { $(
        for b in [Base::Dense(0), Base::Ident, Base::Zero] {
            inputs::<$t>(&mut h, reg!($f, $t, $n $m $c), LIN, b, <$t as Range>::ends(), $d + x * ($d > 0) as usize);
            inputs::<$t>(&mut h, ext!($f, $t, $n $m $c), NL, b, <$t as Range>::ends(), $d + x * ($d > 0) as usize);
        }
        histories::<$t>(&mut h, reg!($f, $t, $n $m $c), LIN, $l + x * ($l > 2) as usize);
        histories::<$t>(&mut h, ext!($f, $t, $n $m $c), NL, $l + x * ($l > 2) as usize);
    )* } }
    all!(Own, f64, 1 1 1; 2 4; Own, f32, 1 2 1; 2 3; Own, f64, 2 1 2; 1 3; Own, Gf<5>, 2 2 1; 1 3; Slice, f32, 2 3 1; 1 3; Boxed, f64, 3 3 3; 1 3; Arr, f32, 4 2 1; 1 3;
         Wrap, f64, 5 1 2; 1 2; Own, f32, 3 6 1; 1 2; Own, f64, 6 4 5; 0 2; Slice, f64, 7 7 2; 0 2; Boxed, f32, 8 3 1; 0 2; Arr, f64, 1 8 8; 1 2; Wrap, f32, 2 8 3; 0 2;
         Boxed, f64, 1 1 1; 1 3; Slice, f64, 1 1 1; 1 3; Arr, f64, 1 1 1; 1 3; Wrap, f64, 1 1 1; 1 3; Wrap, f64, 1 3 2; 1 3; Arr, f32, 1 4 1; 1 3; Slice, f32, 1 5 1; 1 3;
         Own, f32, 9 2 1; 0 2; Boxed, f64, 12 10 9; 0 2; Own, f64, 17 1 1; 0 2; Own, f32, 1 17 1; 0 2; Own, f64, 2 1 17; 0 2; Own, f32, 33 2 1; 0 2; Own, f64, 1 33 1; 0 2; Slice, f32, 16 16 16; 0 2;);
    #[cfg(feature = "fixed")]
    all!(Own, I16F16, 1 1 1; 2 3; Own, I32F32, 2 1 1; 1 3; Boxed, I16F16, 2 3 1; 1 3; Slice, I32F32, 3 2 2; 1 3; Arr, I16F16, 1 4 1; 1 3; Wrap, I32F32, 5 2 1; 0 2;);
    h.run()
}
