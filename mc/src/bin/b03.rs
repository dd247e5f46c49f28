//! B03: builders and buffer macros.
#![allow(unused_imports, non_snake_case, non_upper_case_globals, static_mut_refs)]
use mc::explore::*;
use mc::fam::*;
use mc::mat::*;
use mc::num::*;
use mc::points::*;
use mc::rig::W;
use mc::*;
use minikalman::buffers::types::*;
use minikalman::matrix::*;
use minikalman::prelude::*;
use minikalman::*;

/// Every cell holds `init`, the shape is r x c, nothing is left over.
#[inline(never)]
fn cells<T: Sc>(ctx: &mut Ctx, what: &str, form: &str, seen: (&[T], usize, usize, usize, bool, bool, &'static str), r: usize, c: usize, size: Option<usize>, class: &str, init: T) -> Res {
    let (s, rows, cols, len, empty, valid, ty) = seen;
    ctx.step(|| format!("{what} ({form}): {r}x{c} filled with {init:?}"));
    ctx.state(mix(mix(r as u64 * 64 + c as u64, init.bits()), what.bytes().chain(form.bytes()).fold(1, |h, b| mix(h, b as u64))));
    ensure!((rows, cols) == (r, c), "{what} ({form}): {rows}x{cols}, must be {r}x{c}");
    ensure!(s.len() == r * c, "{what} ({form}): memory of {} elements for {r}x{c}", s.len());
    ensure!(len == r * c && !empty && valid, "{what} ({form}): {r}x{c} reports length {len}, is_empty {empty}, is_valid {valid}");
    if let Some(n) = size {
        ensure!(n == r * c, "{what}: the size macro gives {n}, {r}x{c} needs {}", r * c);
    }
    ensure!(ty.split('<').next().unwrap().ends_with(class), "{what} ({form}) is a {ty}, must be a {class}");
    for (i, x) in s.iter().enumerate() {
        ensure!(x.bits() == init.bits(), "{what} ({form}): {r}x{c}: cell {i} is {x:?} instead of {init:?}");
    }
    ctx.outcome(mix(fp(s), r as u64));
    Ok(())
}
fn seen<T: Sc, B: Matrix<R, C, T>, const R: usize, const C: usize>(b: &B) -> (&[T], usize, usize, usize, bool, bool, &'static str) {
    (b.as_slice(), b.rows(), b.cols(), RowMajorSequentialData::len(b), RowMajorSequentialData::is_empty(b), RowMajorSequentialData::is_valid(b), std::any::type_name::<B>())
}
/// Two objects built alike: writing every cell of one leaves the other as it was.
#[inline(never)]
fn apart<T: Sc>(ctx: &mut Ctx, what: &str, a: &mut [T], b: &mut [T]) -> Res {
    ctx.step(|| format!("{what}: two of {} cells", a.len()));
    let before: Vec<u64> = b.iter().map(|x| x.bits()).collect();
    for i in 0..a.len() {
        a[i] = T::dy(i as i64 + 3, 2);
        ensure!(b.iter().zip(&before).all(|(x, y)| x.bits() == *y), "{what}: writing cell {i} of one changes another built separately: {b:?}");
    }
    for i in 0..b.len() {
        b[i] = T::dy(i as i64 + 9, 4);
        ensure!(a.iter().enumerate().all(|(i, x)| x.bits() == T::dy(i as i64 + 3, 2).bits()), "{what}: writing cell {i} of one changes another built separately: {a:?}");
    }
    ctx.outcome(mix(fp(a), fp(b)));
    Ok(())
}

/// (buffer macro, size macro, builder, macro arguments, rows, columns, type)
macro_rules! table { ($cb:ident; $n:literal $m:literal $c:literal; $x:tt) => {
    $cb!(impl_buffer_x size_buffer_x state_vector_x [$n] $n 1 StateVectorBuffer; $x);
    $cb!(impl_buffer_A size_buffer_A system_matrix_A [$n] $n $n StateTransitionMatrixMutBuffer; $x);
    $cb!(impl_buffer_P size_buffer_P estimate_covariance_P [$n] $n $n EstimateCovarianceMatrixBuffer; $x);
    $cb!(impl_buffer_Q_direct size_buffer_Q_direct direct_process_noise_covariance_Q [$n] $n $n DirectProcessNoiseCovarianceMatrixMutBuffer; $x);
    $cb!(impl_buffer_u size_buffer_u control_vector_u [$c] $c 1 ControlVectorBuffer; $x);
    $cb!(impl_buffer_B size_buffer_B control_matrix_B [$n, $c] $n $c ControlMatrixMutBuffer; $x);
    $cb!(impl_buffer_Q_control size_buffer_Q_control control_process_noise_covariance_Q [$c] $c $c ControlProcessNoiseCovarianceMatrixMutBuffer; $x);
    $cb!(impl_buffer_z size_buffer_z measurement_vector_z [$m] $m 1 MeasurementVectorBuffer; $x);
    $cb!(impl_buffer_H size_buffer_H observation_matrix_H [$m, $n] $m $n ObservationMatrixMutBuffer; $x);
    $cb!(impl_buffer_R size_buffer_R observation_covariance_R [$m] $m $m MeasurementNoiseCovarianceMatrixBuffer; $x);
    $cb!(impl_buffer_y size_buffer_y innovation_vector_y [$m] $m 1 InnovationVectorBuffer; $x);
    $cb!(impl_buffer_S size_buffer_S innovation_covariance_S [$m] $m $m InnovationCovarianceMatrixBuffer; $x);
    $cb!(impl_buffer_K size_buffer_K kalman_gain_K [$n, $m] $n $m KalmanGainMatrixBuffer; $x);
    $cb!(impl_buffer_temp_x size_buffer_temp_x state_prediction_temp_x [$n] $n 1 PredictedStateEstimateVectorBuffer; $x);
    $cb!(impl_buffer_temp_P size_buffer_temp_P temp_system_covariance_P [$n] $n $n TemporaryStateMatrixBuffer; $x);
    $cb!(impl_buffer_temp_BQ size_buffer_temp_BQ temp_BQ [$n, $c] $n $c TemporaryBQMatrixBuffer; $x);
    $cb!(impl_buffer_temp_S_inv size_buffer_temp_S_inv temp_S_inv [$m] $m $m TemporaryResidualCovarianceInvertedMatrixBuffer; $x);
    $cb!(impl_buffer_temp_HP size_buffer_temp_HP temp_HP [$m, $n] $m $n TemporaryHPMatrixBuffer; $x);
    $cb!(impl_buffer_temp_PHt size_buffer_temp_PHt temp_PHt [$n, $m] $n $m TemporaryPHTMatrixBuffer; $x);
    $cb!(impl_buffer_temp_KHP size_buffer_temp_KHP temp_KHP [$n] $n $n TemporaryKHPMatrixBuffer; $x);
} }

macro_rules! by_macro {
    ($im:ident $sm:ident $bf:ident [$($a:literal),*] $r:literal $c:literal $ty:ident; { $ctx:ident $t:ty, $init:expr }) => { {
        #[inline(never)]
        fn go(ctx: &mut Ctx) -> Res {
            const I: $t = $init;
            const SIZE: usize = $sm!($($a),*);
            let w = stringify!($im);
            {
                $im!(b, $($a,)* $t, I);
                cells(ctx, w, "name", seen::<$t, _, $r, $c>(&b), $r, $c, Some(SIZE), stringify!($ty), I)?;
            }
            {
                $im!(mut b, $($a,)* $t, I);
                $im!(mut b2, $($a,)* $t, I);
                cells(ctx, w, "mut name", seen::<$t, _, $r, $c>(&b), $r, $c, Some(SIZE), stringify!($ty), I)?;
                apart(ctx, w, b.as_mut_slice(), b2.as_mut_slice())?;
            }
            {
                $im!(let b, $($a,)* $t, I);
                cells(ctx, w, "let name", seen::<$t, _, $r, $c>(&b), $r, $c, Some(SIZE), stringify!($ty), I)?;
            }
            {
                $im!(let mut b, $($a,)* $t, I);
                $im!(let mut b2, $($a,)* $t, I);
                cells(ctx, w, "let mut name", seen::<$t, _, $r, $c>(&b), $r, $c, Some(SIZE), stringify!($ty), I)?;
                apart(ctx, w, b.as_mut_slice(), b2.as_mut_slice())?;
            }
            {
                $im!(static STATIC, $($a,)* $t, I);
                cells(ctx, w, "static name", seen::<$t, _, $r, $c>(&STATIC), $r, $c, Some(SIZE), stringify!($ty), I)?;
            }
            {
                $im!(static mut STATIC, $($a,)* $t, I);
                $im!(static mut STATIC2, $($a,)* $t, I);
                let (b, b2) = unsafe { (&mut *std::ptr::addr_of_mut!(STATIC), &mut *std::ptr::addr_of_mut!(STATIC2)) };
                b.as_mut_slice().fill(I);
                b2.as_mut_slice().fill(I);
                cells(ctx, w, "static mut name", seen::<$t, _, $r, $c>(b), $r, $c, Some(SIZE), stringify!($ty), I)?;
                apart(ctx, w, b.as_mut_slice(), b2.as_mut_slice())?;
            }
            {
                // as they come out of the program's image
                $im!(static mut FRESH, $($a,)* $t, I);
                let b = unsafe { &*std::ptr::addr_of!(FRESH) };
                cells(ctx, w, "static mut name, untouched", seen::<$t, _, $r, $c>(b), $r, $c, Some(SIZE), stringify!($ty), I)?;
            }
            Ok(())
        }
        go($ctx)?;
    } };
}
macro_rules! by_builder {
    ($im:ident $sm:ident $bf:ident [$($a:literal),*] $r:literal $c:literal $ty:ident; { $ctx:ident $t:ty }) => { {
        #[inline(never)]
        fn go(ctx: &mut Ctx) -> Res {
            let w = concat!("BufferBuilder::", stringify!($bf));
            let z = <$t as Sc>::dy(0, 1);
            let mut a = lib(|| BufferBuilder::$bf::<$($a),*>().new::<$t>());
            let mut b = lib(|| BufferBuilder::$bf::<$($a),*>().new::<$t>());
            cells(ctx, w, "new", seen::<$t, _, $r, $c>(&a), $r, $c, None, stringify!($ty), z)?;
            apart(ctx, w, a.as_mut_slice(), b.as_mut_slice())?;
            // built while others with other content exist, and after they are gone
            let fresh = lib(|| BufferBuilder::$bf::<$($a),*>().new::<$t>());
            cells(ctx, w, "new again", seen::<$t, _, $r, $c>(&fresh), $r, $c, None, stringify!($ty), z)?;
            drop((a, b, fresh));
            let fresh = lib(|| BufferBuilder::$bf::<$($a),*>().new::<$t>());
            cells(ctx, w, "new after others are gone", seen::<$t, _, $r, $c>(&fresh), $r, $c, None, stringify!($ty), z)?;
            for i in <$t as Alpha>::few().into_iter().chain((0..5).map(<$t as Sc>::garbage)) {
                let mut a = lib(|| BufferBuilder::$bf::<$($a),*>().new_with::<$t>(i));
                let mut b = lib(|| BufferBuilder::$bf::<$($a),*>().new_with::<$t>(i));
                cells(ctx, w, "new_with", seen::<$t, _, $r, $c>(&a), $r, $c, None, stringify!($ty), i)?;
                apart(ctx, w, a.as_mut_slice(), b.as_mut_slice())?;
            }
            Ok(())
        }
        go($ctx)?;
    } };
}

/// The quantities of an object, by name: (name, expression for its buffer, rows, columns).
macro_rules! object { ($ctx:ident $t:ty, $what:expr, $build:expr; $($name:literal [$($get:ident)+] [$($getm:ident)+] $r:literal $c:literal;)*) => { {
    let mut a = lib(|| $build);
    let mut b = lib(|| $build);
    let z = <$t as Sc>::dy(0, 1);
    $( cells($ctx, $what, $name, seen::<$t, _, $r, $c>(a$(.$get())+), $r, $c, None, "", z)?; )*
    // every quantity of one object is written; the same object's other quantities and the other object keep theirs
    let mut want_a: Vec<Vec<$t>> = vec![$( vec![z; $r * $c] ),*];
    let want_b = want_a.clone();
    let mut turn = 0;
    let names = [$($name),*];
    macro_rules! snap { ($o:ident) => { vec![$( $o$(.$get())+.as_slice().to_vec() ),*] } }
    $(
        $ctx.step(|| format!("{}: writing {}", $what, $name));
        for i in 0..$r * $c {
            let x = <$t as Sc>::dy(turn as i64 * 40 + i as i64 + 1, 4);
            lib(|| a$(.$getm())+.as_mut_slice()[i] = x);
            want_a[turn][i] = x;
        }
        turn += 1;
        for (who, got, want) in [("", snap!(a), &want_a), (" of another", snap!(b), &want_b)] {
            for (j, (g, w)) in got.iter().zip(want).enumerate() {
                ensure!(same(g, w), "{}: after writing {} quantity {}{} is {:?} instead of {:?}", $what, $name, names[j], who, g, w);
            }
        }
        $ctx.outcome(want_a.iter().fold(turn as u64, |h, v| mix(h, fp(v))));
    )*
    let _ = &mut b;
} } }
macro_rules! objects { ($h:ident; $($t:ty, $n:literal [$($m:literal)*];)*) => { $(
    $h.job(format!("filters with {} states, their controls and measurements, {}", $n, <$t as Sc>::NAME), |ctx| {
        #[inline(never)]
        fn filters(ctx: &mut Ctx) -> Res {
            let bd = minikalman::regular::builder::KalmanFilterBuilder::<$n, $t>::default();
            ensure!(bd.build().states() == $n && minikalman::extended::builder::KalmanFilterBuilder::<$n, $t>::new().build().states() == $n, "states() of a filter with {} states", $n);
            object!(ctx $t, concat!("regular filter with ", $n, " states"), bd.build();
                "x" [state_vector] [state_vector_mut] $n 1; "P" [estimate_covariance] [estimate_covariance_mut] $n $n;
                "A" [state_transition] [state_transition_mut] $n $n; "Q" [direct_process_noise] [direct_process_noise_mut] $n $n;);
            let bd = minikalman::extended::builder::KalmanFilterBuilder::<$n, $t>::default();
            object!(ctx $t, concat!("extended filter with ", $n, " states"), bd.build();
                "x" [state_vector] [state_vector_mut] $n 1; "P" [estimate_covariance] [estimate_covariance_mut] $n $n;
                "A" [state_transition_jacobian] [state_transition_jacobian_mut] $n $n; "Q" [direct_process_noise] [direct_process_noise_mut] $n $n;);
            Ok(())
        }
        filters(ctx)?;
        $( {
            #[inline(never)]
            fn parts(ctx: &mut Ctx) -> Res {
                let bd = minikalman::regular::builder::KalmanFilterBuilder::<$n, $t>::new();
                let c = bd.controls().build::<$m>();
                let o = bd.observations().build::<$m>();
                let e = minikalman::extended::builder::KalmanFilterBuilder::<$n, $t>::new().observations().build::<$m>();
                ensure!((c.states(), c.controls()) == ($n, $m), "control reports {} states and {} controls for {} and {}", c.states(), c.controls(), $n, $m);
                ensure!((o.states(), o.measurements()) == ($n, $m), "measurement reports {} states and {} measurements for {} and {}", o.states(), o.measurements(), $n, $m);
                ensure!((e.states(), e.measurements()) == ($n, $m), "extended measurement reports {} states and {} measurements for {} and {}", e.states(), e.measurements(), $n, $m);
                object!(ctx $t, concat!("control ", $n, "x", $m), bd.controls().build::<$m>();
                    "u" [control_vector] [control_vector_mut] $m 1; "B" [control_matrix] [control_matrix_mut] $n $m; "Q" [process_noise_covariance] [process_noise_covariance_mut] $m $m;);
                object!(ctx $t, concat!("measurement ", $n, "x", $m), bd.observations().build::<$m>();
                    "z" [measurement_vector] [measurement_vector_mut] $m 1; "H" [observation_matrix] [observation_matrix_mut] $m $n; "R" [measurement_noise_covariance] [measurement_noise_covariance_mut] $m $m;);
                let bd = minikalman::extended::builder::KalmanFilterBuilder::<$n, $t>::new();
                object!(ctx $t, concat!("extended measurement ", $n, "x", $m), bd.observations().build::<$m>();
                    "z" [measurement_vector] [measurement_vector_mut] $m 1; "H" [observation_jacobian_matrix] [observation_jacobian_matrix_mut] $m $n; "R" [measurement_noise_covariance] [measurement_noise_covariance_mut] $m $m;);
                Ok(())
            }
            parts(ctx)?;
        } )*
        Ok(())
    });
)* } }

fn main() {
    let mut h = Harness::new("B03");
    macro_rules! macros { ($($t:ty, $n:literal $m:literal $c:literal, $init:expr;)*) => { $(
        h.job(format!("buffer macros, {} states, {} measurements, {} controls, {} = {}", $n, $m, $c, <$t as Sc>::NAME, stringify!($init)), |ctx| {
            table!(by_macro; $n $m $c; { ctx $t, $init });
            Ok(())
        });
    )* } }
    macros!(f32, 2 3 1, 0.0; f64, 3 1 2, -1.5; f32, 1 2 3, 7.25; f64, 5 4 6, f64::INFINITY; f32, 9 17 12, 0.5; f64, 33 8 10, -3.0;);
    #[cfg(feature = "fixed")]
    macros!(I16F16, 4 2 5, I16F16::ONE;);
    macro_rules! builders { ($($t:ty, $n:literal $m:literal $c:literal;)*) => { $(
        h.job(format!("buffer builders, {} states, {} measurements, {} controls, {}", $n, $m, $c, <$t as Sc>::NAME), |ctx| {
            table!(by_builder; $n $m $c; { ctx $t });
            Ok(())
        });
    )* } }
    builders!(f32, 2 3 1; f64, 3 1 2; f64, 5 4 6; f32, 9 17 12; f64, 33 8 10;);
    #[cfg(feature = "fixed")]
    builders!(I32F32, 1 5 4;);
    objects!(h; f64, 1 [1 2 3 4]; f32, 2 [1 2 3 5]; f64, 3 [1 2 3 4 6]; f32, 4 [1 3 4]; f64, 5 [1 2 4 7]; f32, 6 [1 4 6]; f64, 9 [2 8]; f32, 8 [9 17]; f64, 17 [1 12]; f32, 33 [3];);
    #[cfg(feature = "fixed")]
    objects!(h; I16F16, 3 [2 5]; I32F32, 2 [3 1];);
    h.run()
}
