//! The library's named buffer types, as a table for macros.
/// Calls `cb!{ class Name [const arguments] rows cols ; extra }` for every named buffer type with `n` states, `m`
/// measurements and `c` controls. Classes: imm (read-only matrix), mat (matrix), vec (column vector).
#[macro_export]
macro_rules! named {
    ($cb:ident; $n:literal $m:literal $c:literal; $($x:tt)*) => {
        $cb!(imm StateTransitionMatrixBuffer [$n,] $n $n; $($x)*);
        $cb!(imm DirectProcessNoiseCovarianceMatrixBuffer [$n,] $n $n; $($x)*);
        $cb!(imm ControlMatrixBuffer [$n, $c,] $n $c; $($x)*);
        $cb!(imm ControlProcessNoiseCovarianceMatrixBuffer [$c,] $c $c; $($x)*);
        $cb!(imm ObservationMatrixBuffer [$m, $n,] $m $n; $($x)*);
        $cb!(mat StateTransitionMatrixMutBuffer [$n,] $n $n; $($x)*);
        $cb!(mat DirectProcessNoiseCovarianceMatrixMutBuffer [$n,] $n $n; $($x)*);
        $cb!(mat ControlMatrixMutBuffer [$n, $c,] $n $c; $($x)*);
        $cb!(mat ControlProcessNoiseCovarianceMatrixMutBuffer [$c,] $c $c; $($x)*);
        $cb!(mat ObservationMatrixMutBuffer [$m, $n,] $m $n; $($x)*);
        $cb!(mat EstimateCovarianceMatrixBuffer [$n,] $n $n; $($x)*);
        $cb!(mat InnovationCovarianceMatrixBuffer [$m,] $m $m; $($x)*);
        $cb!(mat KalmanGainMatrixBuffer [$n, $m,] $n $m; $($x)*);
        $cb!(mat MeasurementNoiseCovarianceMatrixBuffer [$m,] $m $m; $($x)*);
        $cb!(mat TemporaryBQMatrixBuffer [$n, $c,] $n $c; $($x)*);
        $cb!(mat TemporaryHPMatrixBuffer [$m, $n,] $m $n; $($x)*);
        $cb!(mat TemporaryKHPMatrixBuffer [$n,] $n $n; $($x)*);
        $cb!(mat TemporaryPHTMatrixBuffer [$n, $m,] $n $m; $($x)*);
        $cb!(mat TemporaryResidualCovarianceInvertedMatrixBuffer [$m,] $m $m; $($x)*);
        $cb!(mat TemporaryStateMatrixBuffer [$n,] $n $n; $($x)*);
        $cb!(vec StateVectorBuffer [$n,] $n 1; $($x)*);
        $cb!(vec PredictedStateEstimateVectorBuffer [$n,] $n 1; $($x)*);
        $cb!(vec ControlVectorBuffer [$c,] $c 1; $($x)*);
        $cb!(vec MeasurementVectorBuffer [$m,] $m 1; $($x)*);
        $cb!(vec InnovationVectorBuffer [$m,] $m 1; $($x)*);
    };
}
