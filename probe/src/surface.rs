//! Names every public item where the documentation says that it is available.
#![allow(unused_imports)]

pub mod always {
    pub use minikalman::buffers::types::{ControlMatrixBuffer, ControlMatrixMutBuffer, ControlProcessNoiseCovarianceMatrixBuffer, ControlProcessNoiseCovarianceMatrixMutBuffer, ControlVectorBuffer, DirectProcessNoiseCovarianceMatrixBuffer, DirectProcessNoiseCovarianceMatrixMutBuffer, EstimateCovarianceMatrixBuffer, InnovationCovarianceMatrixBuffer, InnovationVectorBuffer, KalmanGainMatrixBuffer, MeasurementNoiseCovarianceMatrixBuffer, MeasurementVectorBuffer, ObservationMatrixBuffer, ObservationMatrixMutBuffer, PredictedStateEstimateVectorBuffer, StateTransitionMatrixBuffer, StateTransitionMatrixMutBuffer, StateVectorBuffer, TemporaryBQMatrixBuffer, TemporaryHPMatrixBuffer, TemporaryKHPMatrixBuffer, TemporaryPHTMatrixBuffer, TemporaryResidualCovarianceInvertedMatrixBuffer, TemporaryStateMatrixBuffer};
    pub use minikalman::matrix::{MatrixData, MatrixDataArray, MatrixDataMut, MatrixDataRef, MatrixDataRowMajor, MatrixDataRowMajorMut, IntoInnerData, AsMatrix, AsMatrixMut, ColumnVector, ColumnVectorMut, Matrix, MatrixDataType, MatrixDataTypeBase, MatrixMut, RowMajorSequentialData, RowMajorSequentialDataMut, RowVector, RowVectorMut, Scalar, ScalarMut, SquareMatrix, SquareMatrixMut};
    pub use minikalman::prelude::{ControlMatrix, ControlMatrixMut, ControlProcessNoiseCovarianceMatrix, ControlProcessNoiseCovarianceMatrixMut, ControlVector, ControlVectorMut, DirectProcessNoiseCovarianceMatrix, DirectProcessNoiseCovarianceMatrixMut, EstimateCovarianceMatrix, ExtendedKalmanFilter, ExtendedKalmanFilterObservation, ExtendedKalmanFilterObservationTransformation, ExtendedKalmanFilterObservationTransformationMut, ExtendedKalmanFilterStateTransition, ExtendedKalmanFilterStateTransitionMut, InnovationCovarianceMatrix, InnovationVector, KalmanFilter, KalmanFilterApplyControl, KalmanFilterControl, KalmanFilterControlApplyToFilter, KalmanFilterControlProcessNoiseCovariance, KalmanFilterControlProcessNoiseMut, KalmanFilterControlTransition, KalmanFilterControlTransitionMut, KalmanFilterControlVector, KalmanFilterControlVectorMut, KalmanFilterDirectProcessNoiseCovariance, KalmanFilterDirectProcessNoiseMut, KalmanFilterEstimateCovariance, KalmanFilterEstimateCovarianceMut, KalmanFilterMeasurementNoiseCovariance, KalmanFilterMeasurementNoiseCovarianceMut, KalmanFilterMeasurementVector, KalmanFilterNonlinearObservationCorrectFilter, KalmanFilterNonlinearPredict, KalmanFilterNonlinearUpdate, KalmanFilterNumControls, KalmanFilterNumObservations, KalmanFilterNumStates, KalmanFilterObservation, KalmanFilterObservationCorrectFilter, KalmanFilterObservationTransformation, KalmanFilterObservationTransformationMut, KalmanFilterObservationVectorMut, KalmanFilterPredict, KalmanFilterStateTransition, KalmanFilterStateTransitionMut, KalmanFilterStateVector, KalmanFilterStateVectorMut, KalmanFilterUpdate, KalmanGainMatrix, MeasurementNoiseCovarianceMatrix, MeasurementVector, MeasurementVectorMut, ObservationMatrix, ObservationMatrixMut, PredictedStateEstimateVector, StateTransitionMatrix, StateTransitionMatrixMut, StateVector, StateVectorMut, TemporaryBQMatrix, TemporaryHPMatrix, TemporaryKHPMatrix, TemporaryPHTMatrix, TemporaryResidualCovarianceInvertedMatrix, TemporaryStateMatrix};
    pub use minikalman::prelude::{impl_buffer_A, impl_buffer_B, impl_buffer_H, impl_buffer_K, impl_buffer_P, impl_buffer_Q_control, impl_buffer_Q_direct, impl_buffer_R, impl_buffer_S, impl_buffer_temp_BQ, impl_buffer_temp_HP, impl_buffer_temp_KHP, impl_buffer_temp_P, impl_buffer_temp_PHt, impl_buffer_temp_S_inv, impl_buffer_temp_x, impl_buffer_u, impl_buffer_x, impl_buffer_y, impl_buffer_z, size_buffer_A, size_buffer_B, size_buffer_H, size_buffer_K, size_buffer_P, size_buffer_Q_control, size_buffer_Q_direct, size_buffer_R, size_buffer_S, size_buffer_temp_BQ, size_buffer_temp_HP, size_buffer_temp_KHP, size_buffer_temp_P, size_buffer_temp_PHt, size_buffer_temp_S_inv, size_buffer_temp_x, size_buffer_u, size_buffer_x, size_buffer_y, size_buffer_z};
    pub use minikalman::num_traits::{One, Zero};
    pub use minikalman::regular::{RegularKalman, RegularKalmanBuilder, RegularObservation, RegularObservationBuilder, Control, ControlBuilder};
    pub use minikalman::extended::{ExtendedKalman, ExtendedKalmanBuilder, ExtendedObservation, ExtendedObservationBuilder};
}

#[cfg(feature = "alloc")]
pub mod with_alloc {
    pub use minikalman::buffers::builder::*;
    pub use minikalman::matrix::MatrixDataBoxed;
    pub use minikalman::prelude::{BufferBuilder as FromPrelude, StateVectorBufferOwnedType};
    pub use minikalman::BufferBuilder;
    pub use minikalman::extended::builder::{
        KalmanFilterBuilder as EkfBuilder, KalmanFilterObservationBuilder as EkfObservationBuilder, KalmanFilterObservationType as EkfObservationType,
        KalmanFilterType as EkfType,
    };
    pub use minikalman::regular::builder::{
        KalmanFilterBuilder, KalmanFilterControlBuilder, KalmanFilterControlType, KalmanFilterObservationBuilder, KalmanFilterObservationType, KalmanFilterType,
    };
    use crate::{Num, W};
    use minikalman::matrix::{Matrix, RowMajorSequentialData};

    fn exact(len: usize, want: usize, all: &[W]) {
        assert_eq!((len, all.len()), (want, want));
        assert!(all.iter().all(|x| x.word() == 0));
    }
    pub fn buffers() {
        const N: usize = 3;
        const M: usize = 2;
        const C: usize = 4;
        macro_rules! each { ($($b:expr => $want:expr),* $(,)?) => { $( { let b = $b.new::<W>(); exact(b.len(), $want, b.as_slice()); } )* } }
        each! {
            BufferBuilder::state_vector_x::<N>() => N,
            BufferBuilder::system_matrix_A::<N>() => N * N,
            BufferBuilder::estimate_covariance_P::<N>() => N * N,
            BufferBuilder::direct_process_noise_covariance_Q::<N>() => N * N,
            BufferBuilder::control_vector_u::<C>() => C,
            BufferBuilder::control_matrix_B::<N, C>() => N * C,
            BufferBuilder::control_process_noise_covariance_Q::<C>() => C * C,
            BufferBuilder::measurement_vector_z::<M>() => M,
            BufferBuilder::observation_matrix_H::<M, N>() => M * N,
            BufferBuilder::observation_covariance_R::<M>() => M * M,
            BufferBuilder::innovation_vector_y::<M>() => M,
            BufferBuilder::innovation_covariance_S::<M>() => M * M,
            BufferBuilder::kalman_gain_K::<N, M>() => N * M,
            BufferBuilder::state_prediction_temp_x::<N>() => N,
            BufferBuilder::temp_system_covariance_P::<N>() => N * N,
            BufferBuilder::temp_BQ::<N, C>() => N * C,
            BufferBuilder::temp_S_inv::<M>() => M * M,
            BufferBuilder::temp_HP::<M, N>() => M * N,
            BufferBuilder::temp_PHt::<N, M>() => N * M,
            BufferBuilder::temp_KHP::<N>() => N * N,
        };
        let m = minikalman::matrix::MatrixData::new::<2, 3, W>(W(1.5));
        assert_eq!((m.rows(), m.cols(), m.as_slice().len()), (2, 3, 6));
        let m: MatrixDataBoxed<2, 3, W> = minikalman::matrix::MatrixData::new_boxed::<2, 3, W, _>(vec![W(0.5); 6]);
        assert_eq!(m.as_slice()[5].0, 0.5);
    }
}
#[cfg(feature = "fixed")]
pub mod with_fixed {
    pub use minikalman::prelude::{I16F16, I32F32};
    pub fn numbers<T: minikalman::matrix::MatrixDataType>() {}
    pub fn all() {
        numbers::<I16F16>();
        numbers::<I32F32>();
    }
}
#[cfg(any(feature = "std", feature = "libm", feature = "micromath"))]
pub mod with_floats {
    pub fn numbers<T: minikalman::matrix::MatrixDataType>() {}
    pub fn all() {
        numbers::<f32>();
        numbers::<f64>();
    }
}
/// nalgebra views of every storage.
#[cfg(all(feature = "nalgebra", feature = "unsafe"))]
pub fn views() {
    use crate::{Num, D};
    use minikalman::matrix::*;
    use nalgebra::{Const, Matrix as Na};
    let mut d = D::new();
    fn look<S: nalgebra::RawStorage<u32, Const<2>, Const<3>>>(d: &mut D, s: S) {
        let m: Na<u32, Const<2>, Const<3>, S> = Na::from_data(s);
        for i in 0..2 {
            for j in 0..3 {
                d.w(m[(i, j)] as u64);
                d.n += 1;
            }
        }
    }
    let mut v = [1u32, 2, 3, 4, 5, 6];
    look(&mut d, MatrixData::new_array::<2, 3, 6, u32>(v));
    println!("views {:016x} {}", d.h, d.n);
    fn contiguous<S: nalgebra::IsContiguous>(_: &S) {}
    contiguous(&MatrixData::new_ref::<2, 3, u32>(&v));
    contiguous(&MatrixData::new_mut::<2, 3, u32>(&mut v));
    contiguous(&MatrixData::new_array::<2, 3, 6, u32>(v));
    #[cfg(feature = "alloc")]
    contiguous(&MatrixData::new_boxed::<2, 3, u32, _>(vec![1u32, 2, 3, 4, 5, 6]));
}
pub fn all() {
    #[cfg(feature = "alloc")]
    with_alloc::buffers();
    #[cfg(feature = "fixed")]
    with_fixed::all();
    #[cfg(any(feature = "std", feature = "libm", feature = "micromath"))]
    with_floats::all();
}
