//! Real filters, controls and measurements behind one small interface.
use crate::explore::{lib, unlib};
use crate::fam::*;
use crate::num::Sc;
use minikalman::buffers::types::*;
use minikalman::extended::*;
use minikalman::prelude::*;
use minikalman::regular::*;

#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash)]
pub enum W { X, P, A, Q, B, U, Qc, H, Z, R }
pub const ALLW: [W; 10] = [W::X, W::P, W::A, W::Q, W::B, W::U, W::Qc, W::H, W::Z, W::R];
impl W {
    pub fn shape(self, n: usize, m: usize, c: usize) -> (usize, usize) {
        match self {
            W::X => (n, 1),
            W::P | W::A | W::Q => (n, n),
            W::B => (n, c),
            W::U => (c, 1),
            W::Qc => (c, c),
            W::H => (m, n),
            W::Z => (m, 1),
            W::R => (m, m),
        }
    }
    pub fn symmetric(self) -> bool {
        matches!(self, W::P | W::Q | W::Qc | W::R)
    }
}

pub type Nl<'a, T> = &'a mut dyn FnMut(&[T], &mut [T]);
pub enum Op<'a, T> {
    Predict,
    Tuned(T),
    Control,
    Correct,
    NlPredict(Nl<'a, T>),
    NlTuned(T, Nl<'a, T>),
    NlCorrect(Nl<'a, T>),
}

pub trait Sys<T: Sc> {
    fn dims(&self) -> (usize, usize, usize);
    /// The whole memory behind a quantity (at least the matrix), through the library's accessor.
    fn buf(&mut self, w: W) -> &mut [T];
    fn op(&mut self, op: Op<T>, route: u8);
    fn arena(&mut self) -> &mut Arena<T>;
    fn open(&self) -> bool;
    fn label(&self) -> String;
    fn put(&mut self, w: W, v: &[T]) {
        self.buf(w)[..v.len()].copy_from_slice(v);
    }
    fn has(&self, w: W) -> bool;
}

pub type KfOf<F, T, const N: usize> = RegularKalman<
    N, T,
    StateTransitionMatrixMutBuffer<N, T, <F as Fam<T>>::M<N, N>>,
    StateVectorBuffer<N, T, <F as Fam<T>>::V<N>>,
    EstimateCovarianceMatrixBuffer<N, T, <F as Fam<T>>::M<N, N>>,
    DirectProcessNoiseCovarianceMatrixMutBuffer<N, T, <F as Fam<T>>::M<N, N>>,
    PredictedStateEstimateVectorBuffer<N, T, <F as Fam<T>>::V<N>>,
    TemporaryStateMatrixBuffer<N, T, <F as Fam<T>>::M<N, N>>,
>;
pub type EkfOf<F, T, const N: usize> = ExtendedKalman<
    N, T,
    StateTransitionMatrixMutBuffer<N, T, <F as Fam<T>>::M<N, N>>,
    StateVectorBuffer<N, T, <F as Fam<T>>::V<N>>,
    EstimateCovarianceMatrixBuffer<N, T, <F as Fam<T>>::M<N, N>>,
    DirectProcessNoiseCovarianceMatrixMutBuffer<N, T, <F as Fam<T>>::M<N, N>>,
    PredictedStateEstimateVectorBuffer<N, T, <F as Fam<T>>::V<N>>,
    TemporaryStateMatrixBuffer<N, T, <F as Fam<T>>::M<N, N>>,
>;
pub type CtlOf<F, T, const N: usize, const C: usize> = Control<
    N, C, T,
    ControlMatrixMutBuffer<N, C, T, <F as Fam<T>>::M<N, C>>,
    ControlVectorBuffer<C, T, <F as Fam<T>>::V<C>>,
    ControlProcessNoiseCovarianceMatrixMutBuffer<C, T, <F as Fam<T>>::M<C, C>>,
    TemporaryBQMatrixBuffer<N, C, T, <F as Fam<T>>::M<N, C>>,
>;
pub type ObsOf<F, T, const N: usize, const M: usize> = RegularObservation<
    N, M, T,
    ObservationMatrixMutBuffer<M, N, T, <F as Fam<T>>::M<M, N>>,
    MeasurementVectorBuffer<M, T, <F as Fam<T>>::V<M>>,
    MeasurementNoiseCovarianceMatrixBuffer<M, T, <F as Fam<T>>::M<M, M>>,
    InnovationVectorBuffer<M, T, <F as Fam<T>>::V<M>>,
    InnovationCovarianceMatrixBuffer<M, T, <F as Fam<T>>::M<M, M>>,
    KalmanGainMatrixBuffer<N, M, T, <F as Fam<T>>::M<N, M>>,
    TemporaryResidualCovarianceInvertedMatrixBuffer<M, T, <F as Fam<T>>::M<M, M>>,
    TemporaryHPMatrixBuffer<M, N, T, <F as Fam<T>>::M<M, N>>,
    TemporaryPHTMatrixBuffer<N, M, T, <F as Fam<T>>::M<N, M>>,
    TemporaryKHPMatrixBuffer<N, T, <F as Fam<T>>::M<N, N>>,
>;
pub type EobsOf<F, T, const N: usize, const M: usize> = ExtendedObservation<
    N, M, T,
    ObservationMatrixMutBuffer<M, N, T, <F as Fam<T>>::M<M, N>>,
    MeasurementVectorBuffer<M, T, <F as Fam<T>>::V<M>>,
    MeasurementNoiseCovarianceMatrixBuffer<M, T, <F as Fam<T>>::M<M, M>>,
    InnovationVectorBuffer<M, T, <F as Fam<T>>::V<M>>,
    InnovationCovarianceMatrixBuffer<M, T, <F as Fam<T>>::M<M, M>>,
    KalmanGainMatrixBuffer<N, M, T, <F as Fam<T>>::M<N, M>>,
    TemporaryResidualCovarianceInvertedMatrixBuffer<M, T, <F as Fam<T>>::M<M, M>>,
    TemporaryHPMatrixBuffer<M, N, T, <F as Fam<T>>::M<M, N>>,
    TemporaryPHTMatrixBuffer<N, M, T, <F as Fam<T>>::M<N, M>>,
    TemporaryKHPMatrixBuffer<N, T, <F as Fam<T>>::M<N, N>>,
>;

pub fn mk_kf<F: Fam<T>, T: Sc, const N: usize>(a: &mut Arena<T>, i: T) -> KfOf<F, T, N> {
    RegularKalmanBuilder::new::<N, T>(
        StateTransitionMatrixMutBuffer::new(F::make::<N, N>(a, Role::A, i)),
        StateVectorBuffer::new(F::vec::<N>(a, Role::X, i)),
        EstimateCovarianceMatrixBuffer::new(F::make::<N, N>(a, Role::P, i)),
        DirectProcessNoiseCovarianceMatrixMutBuffer::new(F::make::<N, N>(a, Role::Q, i)),
        PredictedStateEstimateVectorBuffer::new(F::vec::<N>(a, Role::Px, i)),
        TemporaryStateMatrixBuffer::new(F::make::<N, N>(a, Role::TempP, i)),
    )
}
pub fn mk_ekf<F: Fam<T>, T: Sc, const N: usize>(a: &mut Arena<T>, i: T) -> EkfOf<F, T, N> {
    ExtendedKalmanBuilder::new::<N, T>(
        StateTransitionMatrixMutBuffer::new(F::make::<N, N>(a, Role::A, i)),
        StateVectorBuffer::new(F::vec::<N>(a, Role::X, i)),
        EstimateCovarianceMatrixBuffer::new(F::make::<N, N>(a, Role::P, i)),
        DirectProcessNoiseCovarianceMatrixMutBuffer::new(F::make::<N, N>(a, Role::Q, i)),
        PredictedStateEstimateVectorBuffer::new(F::vec::<N>(a, Role::Px, i)),
        TemporaryStateMatrixBuffer::new(F::make::<N, N>(a, Role::TempP, i)),
    )
}
pub fn mk_ctl<F: Fam<T>, T: Sc, const N: usize, const C: usize>(a: &mut Arena<T>, i: T) -> CtlOf<F, T, N, C> {
    ControlBuilder::new::<N, C, T>(
        ControlMatrixMutBuffer::new(F::make::<N, C>(a, Role::B, i)),
        ControlVectorBuffer::new(F::vec::<C>(a, Role::U, i)),
        ControlProcessNoiseCovarianceMatrixMutBuffer::new(F::make::<C, C>(a, Role::Qc, i)),
        TemporaryBQMatrixBuffer::new(F::make::<N, C>(a, Role::TempBQ, i)),
    )
}
macro_rules! obs_parts {
    ($b:ident, $F:ty, $N:ident, $M:ident, $a:ident, $i:ident) => {
        $b::new::<$N, $M, T>(
            ObservationMatrixMutBuffer::new(<$F>::make::<$M, $N>($a, Role::H, $i)),
            MeasurementVectorBuffer::new(<$F>::vec::<$M>($a, Role::Z, $i)),
            MeasurementNoiseCovarianceMatrixBuffer::new(<$F>::make::<$M, $M>($a, Role::R, $i)),
            InnovationVectorBuffer::new(<$F>::vec::<$M>($a, Role::Y, $i)),
            InnovationCovarianceMatrixBuffer::new(<$F>::make::<$M, $M>($a, Role::S, $i)),
            KalmanGainMatrixBuffer::new(<$F>::make::<$N, $M>($a, Role::K, $i)),
            TemporaryResidualCovarianceInvertedMatrixBuffer::new(<$F>::make::<$M, $M>($a, Role::SInv, $i)),
            TemporaryHPMatrixBuffer::new(<$F>::make::<$M, $N>($a, Role::HP, $i)),
            TemporaryPHTMatrixBuffer::new(<$F>::make::<$N, $M>($a, Role::PHt, $i)),
            TemporaryKHPMatrixBuffer::new(<$F>::make::<$N, $N>($a, Role::KHP, $i)),
        )
    };
}
pub fn mk_obs<F: Fam<T>, T: Sc, const N: usize, const M: usize>(a: &mut Arena<T>, i: T) -> ObsOf<F, T, N, M> {
    obs_parts!(RegularObservationBuilder, F, N, M, a, i)
}
pub fn mk_eobs<F: Fam<T>, T: Sc, const N: usize, const M: usize>(a: &mut Arena<T>, i: T) -> EobsOf<F, T, N, M> {
    obs_parts!(ExtendedObservationBuilder, F, N, M, a, i)
}

/// Linear filter with one control and one measurement.
pub struct Reg<F: Fam<T>, T: Sc, const N: usize, const M: usize, const C: usize> {
    pub kf: KfOf<F, T, N>,
    pub ctl: CtlOf<F, T, N, C>,
    pub obs: ObsOf<F, T, N, M>,
    ex: StateVectorBuffer<N, T, F::V<N>>,
    ep: EstimateCovarianceMatrixBuffer<N, T, F::M<N, N>>,
    arena: Arena<T>,
}
impl<F: Fam<T>, T: Sc, const N: usize, const M: usize, const C: usize> Reg<F, T, N, M, C> {
    pub fn new() -> Self {
        Self::with(Arena::new(), T::zero())
    }
    pub fn with(mut arena: Arena<T>, i: T) -> Self {
        arena.surplus = 3;
        let a = &mut arena;
        Reg {
            kf: mk_kf::<F, T, N>(a, i),
            ctl: mk_ctl::<F, T, N, C>(a, i),
            obs: mk_obs::<F, T, N, M>(a, i),
            ex: StateVectorBuffer::new(F::vec::<N>(a, Role::ExtX, i)),
            ep: EstimateCovarianceMatrixBuffer::new(F::make::<N, N>(a, Role::ExtP, i)),
            arena,
        }
    }
    pub fn boxed() -> Box<dyn Sys<T>> {
        Box::new(Self::new())
    }
}
#[cfg(feature = "alloc")]
impl<T: Sc, const N: usize, const M: usize, const C: usize> Reg<Boxed, T, N, M, C> {
    /// The same objects from the library's own builders.
    pub fn built() -> Self {
        use minikalman::regular::builder::KalmanFilterBuilder;
        let mut arena = Arena::new();
        let b = KalmanFilterBuilder::<N, T>::default();
        let z = T::zero();
        Reg {
            kf: b.build(),
            ctl: b.controls().build::<C>(),
            obs: b.observations().build::<M>(),
            ex: StateVectorBuffer::new(<Boxed as Fam<T>>::vec::<N>(&mut arena, Role::ExtX, z)),
            ep: EstimateCovarianceMatrixBuffer::new(<Boxed as Fam<T>>::make::<N, N>(&mut arena, Role::ExtP, z)),
            arena,
        }
    }
}

// The generic trait routes.
fn g_predict<const N: usize, T, K: KalmanFilterPredict<N, T>>(k: &mut K) {
    k.predict()
}
fn g_control<const N: usize, T, K: KalmanFilterApplyControl<N, T>, I: KalmanFilterControlApplyToFilter<N, T>>(k: &mut K, c: &mut I) {
    k.control(c)
}
fn g_correct<const N: usize, T, K: KalmanFilterUpdate<N, T>, M: KalmanFilterObservationCorrectFilter<N, T>>(k: &mut K, m: &mut M) {
    k.correct(m)
}

impl<F: Fam<T>, T: Sc, const N: usize, const M: usize, const C: usize> Sys<T> for Reg<F, T, N, M, C> {
    fn dims(&self) -> (usize, usize, usize) {
        (N, M, C)
    }
    fn label(&self) -> String {
        format!("linear {}x{}x{} {} {}", N, M, C, F::NAME, T::NAME)
    }
    fn has(&self, _: W) -> bool {
        true
    }
    fn open(&self) -> bool {
        F::OPEN
    }
    fn arena(&mut self) -> &mut Arena<T> {
        &mut self.arena
    }
    #[inline(always)]
    fn buf(&mut self, w: W) -> &mut [T] {
        match w {
            W::X => self.kf.state_vector_mut().as_mut_slice(),
            W::P => self.kf.estimate_covariance_mut().as_mut_slice(),
            W::A => self.kf.state_transition_mut().as_mut_slice(),
            W::Q => self.kf.direct_process_noise_mut().as_mut_slice(),
            W::B => self.ctl.control_matrix_mut().as_mut_slice(),
            W::U => self.ctl.control_vector_mut().as_mut_slice(),
            W::Qc => self.ctl.process_noise_covariance_mut().as_mut_slice(),
            W::H => self.obs.observation_matrix_mut().as_mut_slice(),
            W::Z => self.obs.measurement_vector_mut().as_mut_slice(),
            W::R => self.obs.measurement_noise_covariance_mut().as_mut_slice(),
        }
    }
    fn op(&mut self, op: Op<T>, route: u8) {
        if route >= 2 {
            // through the control or measurement object, on an estimate held outside the filter
            let (n, nn) = (N, N * N);
            self.ex.as_mut_slice()[..n].copy_from_slice(&self.kf.state_vector().as_slice()[..n]);
            self.ep.as_mut_slice()[..nn].copy_from_slice(&self.kf.estimate_covariance().as_slice()[..nn]);
            let (x, p) = (&mut self.ex, &mut self.ep);
            match op {
                Op::Control if route == 2 => lib(|| self.ctl.apply_control(x, p)),
                Op::Control => lib(|| KalmanFilterControlApplyToFilter::apply_to(&mut self.ctl, x, p)),
                Op::Correct if route == 2 => lib(|| self.obs.correct(x, p)),
                Op::Correct => lib(|| KalmanFilterObservationCorrectFilter::correct(&mut self.obs, x, p)),
                o => return self.op(o, route - 2),
            }
            self.kf.state_vector_mut().as_mut_slice()[..n].copy_from_slice(&self.ex.as_slice()[..n]);
            self.kf.estimate_covariance_mut().as_mut_slice()[..nn].copy_from_slice(&self.ep.as_slice()[..nn]);
            return;
        }
        let kf = &mut self.kf;
        lib(|| match (op, route) {
            (Op::Predict, 0) => kf.predict(),
            (Op::Predict, _) => g_predict(kf),
            (Op::Tuned(l), _) => kf.predict_tuned(l),
            (Op::Control, 0) => kf.control(&mut self.ctl),
            (Op::Control, _) => g_control(kf, &mut self.ctl),
            (Op::Correct, 0) => kf.correct(&mut self.obs),
            (Op::Correct, _) => g_correct(kf, &mut self.obs),
            _ => unlib(|| panic!("not an operation of the linear filter")),
        })
    }
}

/// Extended filter with one measurement.
pub struct Ext<F: Fam<T>, T: Sc, const N: usize, const M: usize> {
    pub kf: EkfOf<F, T, N>,
    pub obs: EobsOf<F, T, N, M>,
    ex: StateVectorBuffer<N, T, F::V<N>>,
    ep: EstimateCovarianceMatrixBuffer<N, T, F::M<N, N>>,
    arena: Arena<T>,
}
impl<F: Fam<T>, T: Sc, const N: usize, const M: usize> Ext<F, T, N, M> {
    pub fn new() -> Self {
        Self::with(Arena::new(), T::zero())
    }
    pub fn with(mut arena: Arena<T>, i: T) -> Self {
        arena.surplus = 3;
        let a = &mut arena;
        Ext {
            kf: mk_ekf::<F, T, N>(a, i),
            obs: mk_eobs::<F, T, N, M>(a, i),
            ex: StateVectorBuffer::new(F::vec::<N>(a, Role::ExtX, i)),
            ep: EstimateCovarianceMatrixBuffer::new(F::make::<N, N>(a, Role::ExtP, i)),
            arena,
        }
    }
    pub fn boxed() -> Box<dyn Sys<T>> {
        Box::new(Self::new())
    }
}
#[cfg(feature = "alloc")]
impl<T: Sc, const N: usize, const M: usize> Ext<Boxed, T, N, M> {
    pub fn built() -> Self {
        use minikalman::extended::builder::KalmanFilterBuilder;
        let mut arena = Arena::new();
        let b = KalmanFilterBuilder::<N, T>::default();
        let z = T::zero();
        Ext {
            kf: b.build(),
            obs: b.observations().build::<M>(),
            ex: StateVectorBuffer::new(<Boxed as Fam<T>>::vec::<N>(&mut arena, Role::ExtX, z)),
            ep: EstimateCovarianceMatrixBuffer::new(<Boxed as Fam<T>>::make::<N, N>(&mut arena, Role::ExtP, z)),
            arena,
        }
    }
}
fn g_nlpredict<const N: usize, T, K: KalmanFilterNonlinearPredict<N, T>>(
    k: &mut K,
    f: impl FnMut(&<K as KalmanFilterStateVectorMut<N, T>>::StateVectorMut, &mut K::NextStateVector),
) {
    k.predict_nonlinear(f)
}
impl<F: Fam<T>, T: Sc, const N: usize, const M: usize> Sys<T> for Ext<F, T, N, M> {
    fn dims(&self) -> (usize, usize, usize) {
        (N, M, 0)
    }
    fn label(&self) -> String {
        format!("extended {}x{} {} {}", N, M, F::NAME, T::NAME)
    }
    fn has(&self, w: W) -> bool {
        !matches!(w, W::B | W::U | W::Qc)
    }
    fn open(&self) -> bool {
        F::OPEN
    }
    fn arena(&mut self) -> &mut Arena<T> {
        &mut self.arena
    }
    #[inline(always)]
    fn buf(&mut self, w: W) -> &mut [T] {
        match w {
            W::X => self.kf.state_vector_mut().as_mut_slice(),
            W::P => self.kf.estimate_covariance_mut().as_mut_slice(),
            W::A => self.kf.state_transition_jacobian_mut().as_mut_slice(),
            W::Q => self.kf.direct_process_noise_mut().as_mut_slice(),
            W::H => self.obs.observation_jacobian_matrix_mut().as_mut_slice(),
            W::Z => self.obs.measurement_vector_mut().as_mut_slice(),
            W::R => self.obs.measurement_noise_covariance_mut().as_mut_slice(),
            _ => panic!("no such quantity"),
        }
    }
    fn op(&mut self, op: Op<T>, route: u8) {
        if route >= 2 {
            if let Op::NlCorrect(h) = op {
                let (n, nn) = (N, N * N);
                self.ex.as_mut_slice()[..n].copy_from_slice(&self.kf.state_vector().as_slice()[..n]);
                self.ep.as_mut_slice()[..nn].copy_from_slice(&self.kf.estimate_covariance().as_slice()[..nn]);
                let (x, p) = (&mut self.ex, &mut self.ep);
                let mut g = |x: &StateVectorBuffer<N, T, F::V<N>>, y: &mut InnovationVectorBuffer<M, T, F::V<M>>| {
                    unlib(|| h(&x.as_slice()[..N], &mut y.as_mut_slice()[..M]))
                };
                if route == 2 {
                    lib(|| self.obs.correct_nonlinear(x, p, &mut g));
                } else {
                    lib(|| KalmanFilterNonlinearObservationCorrectFilter::correct_nonlinear(&mut self.obs, x, p, &mut g));
                }
                self.kf.state_vector_mut().as_mut_slice()[..n].copy_from_slice(&self.ex.as_slice()[..n]);
                self.kf.estimate_covariance_mut().as_mut_slice()[..nn].copy_from_slice(&self.ep.as_slice()[..nn]);
                return;
            }
            return self.op(op, route - 2);
        }
        let kf = &mut self.kf;
        let obs = &mut self.obs;
        type Px<F, T, const N: usize> = PredictedStateEstimateVectorBuffer<N, T, <F as Fam<T>>::V<N>>;
        lib(|| match (op, route) {
            (Op::NlPredict(f), r) => {
                let g = |x: &StateVectorBuffer<N, T, F::V<N>>, y: &mut Px<F, T, N>| unlib(|| f(&x.as_slice()[..N], &mut y.as_mut_slice()[..N]));
                if r == 0 {
                    kf.predict_nonlinear(g)
                } else {
                    g_nlpredict(kf, g)
                }
            }
            (Op::NlTuned(l, f), _) => {
                kf.predict_tuned_nonlinear(l, |x: &StateVectorBuffer<N, T, F::V<N>>, y: &mut Px<F, T, N>| {
                    unlib(|| f(&x.as_slice()[..N], &mut y.as_mut_slice()[..N]))
                })
            }
            (Op::NlCorrect(h), r) => {
                let g = |x: &StateVectorBuffer<N, T, F::V<N>>, y: &mut InnovationVectorBuffer<M, T, F::V<M>>| {
                    unlib(|| h(&x.as_slice()[..N], &mut y.as_mut_slice()[..M]))
                };
                if r == 0 {
                    kf.correct_nonlinear(obs, g)
                } else {
                    KalmanFilterNonlinearUpdate::correct_nonlinear(kf, obs, g)
                }
            }
            _ => unlib(|| panic!("not an operation of the extended filter")),
        })
    }
}
