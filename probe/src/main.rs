//! Exercises everything that a feature combination provides, over all operation histories up to a
//! length, and prints one digest of all results per number type and part.
#![allow(clippy::all)]
#[path = "../../mc/src/gf.rs"]
#[allow(dead_code)]
mod gf;
mod surface;

use minikalman::buffers::types::*;
use minikalman::extended::*;
use minikalman::matrix::*;
use minikalman::prelude::*;
use minikalman::regular::*;
use num_traits::{FromPrimitive, One, Zero};

/// Double precision with operations supplied by this program.
#[derive(Copy, Clone, PartialEq, PartialOrd, Default, Debug)]
pub struct W(pub f64);
macro_rules! ops { ($($t:ident $f:ident $o:tt),*) => { $(impl std::ops::$t for W { type Output = W; fn $f(self, r: W) -> W { W(self.0 $o r.0) } })* } }
ops!(Add add +, Sub sub -, Mul mul *, Div div /);
impl std::ops::Neg for W { type Output = W; fn neg(self) -> W { W(-self.0) } }
impl std::ops::AddAssign for W { fn add_assign(&mut self, r: W) { self.0 += r.0 } }
impl std::ops::SubAssign for W { fn sub_assign(&mut self, r: W) { self.0 -= r.0 } }
impl std::iter::Sum for W { fn sum<I: Iterator<Item = W>>(i: I) -> W { i.fold(W(0.0), |a, b| a + b) } }
impl Zero for W { fn zero() -> W { W(0.0) } fn is_zero(&self) -> bool { self.0 == 0.0 } }
impl One for W { fn one() -> W { W(1.0) } }
impl FromPrimitive for W {
    fn from_i64(n: i64) -> Option<W> { Some(W(n as f64)) }
    fn from_u64(n: u64) -> Option<W> { Some(W(n as f64)) }
    fn from_f64(n: f64) -> Option<W> { Some(W(n)) }
}
impl MatrixDataType for W {
    fn recip(self) -> W { W(1.0 / self.0) }
    fn square_root(self) -> W { W(self.0.sqrt()) }
}
pub trait Num: MatrixDataType + Default + Send + 'static { fn of(n: i64, d: i64) -> Self; fn word(self) -> u64; }
impl Num for W {
    fn of(n: i64, d: i64) -> W { W(n as f64 / d as f64) }
    fn word(self) -> u64 { if self.0 == 0.0 { 0 } else { self.0.to_bits() } }
}
impl Num for gf::Gf<11> {
    fn of(n: i64, d: i64) -> Self { Self::from_i64(n).unwrap() / Self::from_i64(d).unwrap() }
    fn word(self) -> u64 { self.a as u64 * 1000 + self.b as u64 * 2 + self.bad as u64 }
}
#[cfg(any(feature = "std", feature = "libm", feature = "micromath"))]
mod floats {
    impl super::Num for f32 {
        fn of(n: i64, d: i64) -> Self { n as f32 / d as f32 }
        fn word(self) -> u64 { if self == 0.0 { 0 } else { self.to_bits() as u64 } }
    }
    impl super::Num for f64 {
        fn of(n: i64, d: i64) -> Self { n as f64 / d as f64 }
        fn word(self) -> u64 { if self == 0.0 { 0 } else { self.to_bits() } }
    }
}
#[cfg(feature = "fixed")]
mod fixeds {
    use minikalman::prelude::{I16F16, I32F32};
    impl super::Num for I16F16 {
        fn of(n: i64, d: i64) -> Self { I16F16::from_num(n) / I16F16::from_num(d) }
        fn word(self) -> u64 { self.to_bits() as u32 as u64 }
    }
    impl super::Num for I32F32 {
        fn of(n: i64, d: i64) -> Self { I32F32::from_num(n) / I32F32::from_num(d) }
        fn word(self) -> u64 { self.to_bits() as u64 }
    }
}

/// Digest and number of operations.
pub struct D { pub h: u64, pub n: u64 }
impl D {
    pub fn new() -> D { D { h: 0xcbf29ce484222325, n: 0 } }
    pub fn w(&mut self, x: u64) {
        for b in x.to_le_bytes() {
            self.h = (self.h ^ b as u64).wrapping_mul(0x100000001b3);
        }
    }
    pub fn all<T: Num>(&mut self, s: &[T]) { for x in s { self.w(x.word()) } }
}
fn fill<T: Num>(s: &mut [T], cols: usize, f: impl Fn(i64, i64) -> (i64, i64)) {
    for (i, x) in s.iter_mut().enumerate() {
        let (n, d) = f((i / cols) as i64, (i % cols) as i64);
        *x = T::of(n, d);
    }
}
/// Calls `f` with every word of length up to `len` over `0..k`.
fn words(k: usize, len: usize, f: &mut dyn FnMut(&[usize])) {
    fn go(k: usize, len: usize, w: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        if w.len() == len {
            return f(w);
        }
        for i in 0..k {
            w.push(i);
            go(k, len, w, f);
            w.pop();
        }
    }
    go(k, len, &mut vec![], f)
}
const LEN: usize = 4;

macro_rules! linear_loop { ($d:ident, $t:ty, $n:expr, $m:expr, $c:expr, $kf:ident, $ctl:ident, $obs:ident) => {
    words(8, LEN, &mut |w| {
        fill($kf.state_vector_mut().as_mut_slice(), 1, |i, _| (i + 1, 2));
        fill($kf.estimate_covariance_mut().as_mut_slice(), $n, |i, j| if i == j { (3, 2) } else { (1, 4) });
        fill($kf.state_transition_mut().as_mut_slice(), $n, |i, j| if i == j { (1, 1) } else { (j - i, 3) });
        fill($kf.direct_process_noise_mut().as_mut_slice(), $n, |i, j| if i == j { (1, 8) } else { (0, 1) });
        fill($ctl.control_matrix_mut().as_mut_slice(), $c, |i, j| (2 * i - j + 1, 3));
        fill($ctl.control_vector_mut().as_mut_slice(), 1, |i, _| (i + 2, 3));
        fill($ctl.process_noise_covariance_mut().as_mut_slice(), $c, |i, j| if i == j { (1, 2) } else { (1, 8) });
        fill($obs.observation_matrix_mut().as_mut_slice(), $n, |i, j| (i + 2 * j + 1, 4));
        fill($obs.measurement_vector_mut().as_mut_slice(), 1, |i, _| (3 - 2 * i, 1));
        fill($obs.measurement_noise_covariance_mut().as_mut_slice(), $m, |i, j| if i == j { (2, 1) } else { (1, 2) });
        for i in w {
            match i {
                0 => $kf.predict(),
                1 => $kf.predict_tuned(<$t>::of(5, 4)),
                2 => $kf.control(&mut $ctl),
                3 => $kf.correct(&mut $obs),
                4 => $ctl.control_vector_mut().apply(|u| u.set_row(0, <$t>::of(-1, 2))),
                5 => $obs.measurement_vector_mut().apply(|z| z.set_row(0, <$t>::of(7, 2))),
                6 => $kf.state_transition_mut().apply(|a| a.make_scalar(<$t>::of(3, 4))),
                _ => $obs.measurement_noise_covariance_mut().apply(|r| r.make_scalar(<$t>::of(-20, 1))),
            }
            $d.n += 1;
            $d.all($kf.state_vector().as_slice());
            $d.all($kf.estimate_covariance().as_slice());
        }
    })
} }
macro_rules! extended_loop { ($d:ident, $t:ty, $n:expr, $m:expr, $kf:ident, $obs:ident) => {
    words(6, LEN, &mut |w| {
        fill($kf.state_vector_mut().as_mut_slice(), 1, |i, _| (i + 1, 2));
        fill($kf.estimate_covariance_mut().as_mut_slice(), $n, |i, j| if i == j { (3, 2) } else { (1, 4) });
        fill($kf.state_transition_jacobian_mut().as_mut_slice(), $n, |i, j| if i == j { (1, 1) } else { (j - i, 3) });
        fill($kf.direct_process_noise_mut().as_mut_slice(), $n, |i, j| if i == j { (1, 8) } else { (0, 1) });
        fill($obs.observation_jacobian_matrix_mut().as_mut_slice(), $n, |i, j| (i + 2 * j + 1, 4));
        fill($obs.measurement_vector_mut().as_mut_slice(), 1, |i, _| (3 - 2 * i, 1));
        fill($obs.measurement_noise_covariance_mut().as_mut_slice(), $m, |i, j| if i == j { (2, 1) } else { (1, 2) });
        for i in w {
            match i {
                0 => $kf.predict_nonlinear(|x, y| for i in 0..$n { y.set_row(i, x.get_row(i) * <$t>::of(1, 2) + x.get_row(0) * x.get_row(0) * <$t>::of(1, 16)) }),
                1 => $kf.predict_tuned_nonlinear(<$t>::of(5, 4), |x, y| for i in 0..$n { y.set_row(i, x.get_row($n - 1 - i) * <$t>::of(-3, 4)) }),
                2 => $kf.correct_nonlinear(&mut $obs, |x, z| for i in 0..$m { z.set_row(i, x.get_row(i % $n) + <$t>::of(1, 2)) }),
                3 => $obs.measurement_vector_mut().apply(|z| z.set_row(0, <$t>::of(7, 2))),
                4 => $obs.measurement_noise_covariance_mut().apply(|r| r.make_scalar(<$t>::of(-20, 1))),
                _ => $kf.state_transition_jacobian_mut().apply(|a| a.make_comatrix(<$t>::of(3, 4), <$t>::of(1, 8))),
            }
            $d.n += 1;
            $d.all($kf.state_vector().as_slice());
            $d.all($kf.estimate_covariance().as_slice());
        }
    })
} }
macro_rules! arrays { ($d:ident, $t:ty, $n:tt $m:tt $c:tt) => {{
    let z = <$t>::zero();
    impl_buffer_x!(x, $n, $t, z);
    impl_buffer_A!(mut a, $n, $t, z);
    impl_buffer_P!(p, $n, $t, z);
    impl_buffer_Q_direct!(mut q, $n, $t, z);
    impl_buffer_temp_x!(px, $n, $t, z);
    impl_buffer_temp_P!(tp, $n, $t, z);
    impl_buffer_B!(mut b, $n, $c, $t, z);
    impl_buffer_u!(u, $c, $t, z);
    impl_buffer_Q_control!(mut qc, $c, $t, z);
    impl_buffer_temp_BQ!(bq, $n, $c, $t, z);
    impl_buffer_H!(mut h, $m, $n, $t, z);
    impl_buffer_z!(zz, $m, $t, z);
    impl_buffer_R!(r, $m, $t, z);
    impl_buffer_y!(y, $m, $t, z);
    impl_buffer_S!(s, $m, $t, z);
    impl_buffer_K!(k, $n, $m, $t, z);
    impl_buffer_temp_S_inv!(si, $m, $t, z);
    impl_buffer_temp_HP!(hp, $m, $n, $t, z);
    impl_buffer_temp_PHt!(pht, $n, $m, $t, z);
    impl_buffer_temp_KHP!(khp, $n, $t, z);
    a[0] = z; q[0] = z; b[0] = z; qc[0] = z; h[0] = z;
    let mut kf = RegularKalmanBuilder::new::<$n, $t>(a, x, p, q, px, tp);
    let mut ctl = ControlBuilder::new::<$n, $c, $t>(b, u, qc, bq);
    let mut obs = RegularObservationBuilder::new::<$n, $m, $t>(h, zz, r, y, s, k, si, hp, pht, khp);
    linear_loop!($d, $t, $n, $m, $c, kf, ctl, obs);
}} }
macro_rules! slices { ($d:ident, $t:ty, $n:tt $m:tt) => {{
    let mut mem: Vec<Vec<$t>> = vec![vec![<$t>::zero(); 40]; 16];
    let mut it = mem.iter_mut().map(|v| &mut v[..]);
    let mut s = || it.next().unwrap();
    let mut kf = ExtendedKalmanBuilder::new::<$n, $t>(
        StateTransitionMatrixMutBuffer::from(&mut s()[..$n * $n]),
        StateVectorBuffer::from(&mut s()[..$n]),
        EstimateCovarianceMatrixBuffer::from(&mut s()[..$n * $n]),
        DirectProcessNoiseCovarianceMatrixMutBuffer::from(&mut s()[..$n * $n]),
        PredictedStateEstimateVectorBuffer::from(s()),
        TemporaryStateMatrixBuffer::from(s()),
    );
    let mut obs = ExtendedObservationBuilder::new::<$n, $m, $t>(
        ObservationMatrixMutBuffer::from(&mut s()[..$n * $m]),
        MeasurementVectorBuffer::from(&mut s()[..$m]),
        MeasurementNoiseCovarianceMatrixBuffer::from(&mut s()[..$m * $m]),
        InnovationVectorBuffer::from(s()),
        InnovationCovarianceMatrixBuffer::from(s()),
        KalmanGainMatrixBuffer::from(s()),
        TemporaryResidualCovarianceInvertedMatrixBuffer::from(s()),
        TemporaryHPMatrixBuffer::from(s()),
        TemporaryPHTMatrixBuffer::from(s()),
        TemporaryKHPMatrixBuffer::from(s()),
    );
    extended_loop!($d, $t, $n, $m, kf, obs);
}} }
#[cfg(feature = "alloc")]
macro_rules! built { ($d:ident, $t:ty, $n:tt $m:tt $c:tt) => {{
    {
        let b = minikalman::regular::builder::KalmanFilterBuilder::<$n, $t>::default();
        let (mut kf, mut ctl, mut obs) = (b.build(), b.controls().build::<$c>(), b.observations().build::<$m>());
        linear_loop!($d, $t, $n, $m, $c, kf, ctl, obs);
    }
    let b = minikalman::extended::builder::KalmanFilterBuilder::<$n, $t>::default();
    let (mut kf, mut obs) = (b.build(), b.observations().build::<$m>());
    extended_loop!($d, $t, $n, $m, kf, obs);
}} }

/// Every matrix operation on matrices of one shape (r x c, c x u).
fn matrices<T: Num, const R: usize, const C: usize, const U: usize, const RC: usize, const CU: usize, const UC: usize, const RU: usize, const RR: usize>(d: &mut D) {
    let mk = |k: i64, n: usize, cols: usize| {
        let mut v = vec![T::zero(); n];
        fill(&mut v, cols, |i, j| ((i * 5 + j * 3 + k) % 9 - 4, 1 + (i + j) % 3));
        v
    };
    for k in 0..9 {
        let a = MatrixDataArray::<R, C, RC, T>::new(mk(k, RC, C).try_into().ok().unwrap());
        let b = MatrixDataArray::<C, U, CU, T>::new(mk(k + 1, CU, U).try_into().ok().unwrap());
        let bt = MatrixDataArray::<U, C, UC, T>::new(mk(k + 2, UC, C).try_into().ok().unwrap());
        let mut o = MatrixDataArray::<R, U, RU, T>::new(mk(k + 3, RU, U).try_into().ok().unwrap());
        let mut x = MatrixDataArray::<R, C, RC, T>::new(mk(k + 4, RC, C).try_into().ok().unwrap());
        let v = MatrixDataArray::<C, 1, C, T>::new(mk(k + 5, C, 1).try_into().ok().unwrap());
        let mut y = MatrixDataArray::<R, 1, R, T>::new(mk(k + 6, R, 1).try_into().ok().unwrap());
        let mut aux = vec![T::zero(); C];
        a.mult(&b, &mut o);
        d.all(o.as_slice());
        a.mult_buffered(&b, &mut o, &mut aux);
        d.all(o.as_slice());
        a.mult_transb(&bt, &mut o);
        d.all(o.as_slice());
        a.multadd_transb(&bt, &mut o);
        d.all(o.as_slice());
        a.multscale_transb(&bt, T::of(3, 2), &mut o);
        d.all(o.as_slice());
        a.mult_rowvector(&v, &mut y);
        d.all(y.as_slice());
        a.multadd_rowvector(&v, &mut y);
        d.all(y.as_slice());
        a.sub_inplace_b(&mut x);
        d.all(x.as_slice());
        a.add_inplace_b(&mut x);
        d.all(x.as_slice());
        x.add_inplace_a(&a);
        d.all(x.as_slice());
        x.sub_inplace_a(&a);
        d.all(x.as_slice());
        a.copy(&mut x);
        d.all(x.as_slice());
        x.set_zero();
        d.all(x.as_slice());
        a.copy_to(&mut x);
        d.all(x.as_slice());
        x.set_all(T::of(k, 2));
        x.copy_from(&a);
        d.all(x.as_slice());
        let (mut row, mut col) = (vec![T::zero(); C], vec![T::zero(); R]);
        for i in 0..R {
            x.get_row_copy(i, &mut row);
            d.all(&row);
        }
        for j in 0..C {
            x.get_column_copy(j, &mut col);
            d.all(&col);
        }
        for i in 0..R {
            for j in 0..C {
                d.w(x.get(i, j).word());
                x.set(i, j, T::of(i as i64 - j as i64, 3));
            }
        }
        d.all(x.as_slice());
        // square
        let mut s = MatrixDataArray::<R, R, RR, T>::new(mk(k, RR, R).try_into().ok().unwrap());
        let mut inv = s.clone();
        for i in 0..R {
            for j in 0..i {
                s.set_symmetric(i, j, T::of((i + j) as i64 - k, 8));
            }
            s.set(i, i, T::of(6 - k / 2, 1));
        }
        d.all(s.as_slice());
        d.w(s.cholesky_decompose_lower() as u64);
        d.all(s.as_slice());
        if s.as_slice().iter().step_by(R + 1).all(|x| *x > T::zero()) {
            s.invert_l_cholesky(&mut inv);
            d.all(inv.as_slice());
        }
        s.make_comatrix(T::of(k, 3), T::of(1, 3));
        d.all(s.as_slice());
        s.set_diagonal_to_scalar(T::of(5, 3));
        d.all(s.as_slice());
        s.make_scalar(T::of(k, 7));
        d.all(s.as_slice());
        s.make_identity();
        d.all(s.as_slice());
        d.n += 34;
    }
}
fn report(part: &str, d: D) {
    println!("{part} {:016x} {}", d.h, d.n);
}
macro_rules! number { ($t:ty, $name:expr) => {{
    let name: String = $name;
    let mut d = D::new();
    let e = &mut d;
    arrays!(e, $t, 1 1 1);
    arrays!(e, $t, 2 1 1);
    arrays!(e, $t, 3 2 2);
    arrays!(e, $t, 2 3 1);
    report(&format!("{name}/arrays"), d);
    let mut d = D::new();
    let e = &mut d;
    slices!(e, $t, 1 1);
    slices!(e, $t, 2 2);
    slices!(e, $t, 3 1);
    slices!(e, $t, 4 3);
    report(&format!("{name}/slices"), d);
    #[cfg(feature = "alloc")]
    {
        let mut d = D::new();
        let e = &mut d;
        built!(e, $t, 1 1 1);
        built!(e, $t, 2 1 1);
        built!(e, $t, 3 2 2);
        report(&format!("{name}/builders"), d);
    }
    let mut d = D::new();
    matrices::<$t, 1, 1, 1, 1, 1, 1, 1, 1>(&mut d);
    matrices::<$t, 2, 3, 1, 6, 3, 3, 2, 4>(&mut d);
    matrices::<$t, 3, 2, 4, 6, 8, 8, 12, 9>(&mut d);
    matrices::<$t, 4, 1, 2, 4, 2, 2, 8, 16>(&mut d);
    matrices::<$t, 1, 4, 3, 4, 12, 12, 3, 1>(&mut d);
    matrices::<$t, 5, 5, 5, 25, 25, 25, 25, 25>(&mut d);
    report(&format!("{name}/matrices"), d);
}} }
fn main() {
    surface::all();
    number!(W, "program".to_string());
    number!(gf::Gf<11>, "field".to_string());
    #[cfg(any(feature = "std", feature = "libm", feature = "micromath"))]
    {
        // std and libm are both correctly rounded
        let be = if cfg!(any(feature = "std", feature = "libm")) { "" } else { "-micromath" };
        number!(f32, format!("f32{be}"));
        number!(f64, format!("f64{be}"));
    }
    #[cfg(feature = "fixed")]
    {
        number!(I16F16, "i16f16".to_string());
        number!(I32F32, "i32f32".to_string());
    }
    #[cfg(all(feature = "nalgebra", feature = "unsafe"))]
    surface::views();
    println!("end");
}
