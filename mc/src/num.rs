//! Reference arithmetic: exact for finite fields, running-error arithmetic for machine numbers.
use crate::gf::Gf;
use minikalman::matrix::MatrixDataType;
use std::fmt::Debug;

/// Arithmetic of the reference model.
pub trait Ring: Copy + Debug + Send + Sync + 'static {
    fn zero() -> Self;
    fn one() -> Self;
    fn add(self, o: Self) -> Self;
    fn sub(self, o: Self) -> Self;
    fn mul(self, o: Self) -> Self;
    fn neg(self) -> Self {
        Self::zero().sub(self)
    }
    /// None when zero, or not certainly different from zero.
    fn inv(self) -> Option<Self>;
    /// Preference as a pivot (0 = unusable).
    fn weight(self) -> f64;
    /// Some(true): certainly positive; Some(false): certainly not positive; None: too close to tell.
    fn positive(self) -> Option<bool>;
    /// Is the error bound too large for a first-order analysis?
    fn vague(self) -> bool {
        false
    }
    /// Does the number come near the end of a fixed-point range (so that an intermediate result may leave it)?
    fn huge(self) -> bool {
        false
    }
    /// Could the two stand for the same number?
    fn meets(self, o: Self) -> bool;
    /// Half-width of the bound, for comparing values computed in two ways.
    fn slack(self) -> f64 {
        0.0
    }
}

/// A scalar type the library is run with.
pub trait Sc: MatrixDataType + Default + Debug + Send + Sync + 'static {
    type R: Ring;
    const NAME: &'static str;
    fn to_ref(self) -> Self::R;
    /// Does the library's value agree with the reference, allowing for rounding?
    fn agrees(self, r: Self::R) -> bool;
    /// Bit pattern (identity of values).
    fn bits(self) -> u64;
    /// A small rational n/d (d a power of two), scaled by 2^e where the type has the range.
    fn dy(n: i64, d: i64) -> Self;
    /// A value that should stand out if it leaks from where it does not belong.
    fn garbage(k: usize) -> Self;
}

impl<const P: u32> Ring for Gf<P> {
    fn zero() -> Self {
        Gf::new(0)
    }
    fn one() -> Self {
        Gf::new(1)
    }
    #[inline(always)]
    fn add(self, o: Self) -> Self {
        self + o
    }
    #[inline(always)]
    fn sub(self, o: Self) -> Self {
        self - o
    }
    #[inline(always)]
    fn mul(self, o: Self) -> Self {
        self * o
    }
    fn inv(self) -> Option<Self> {
        let i = Gf::inv(self);
        if i.bad {
            None
        } else {
            Some(i)
        }
    }
    fn meets(self, o: Self) -> bool {
        self == o
    }
    fn weight(self) -> f64 {
        if self == Gf::new(0) || self.bad {
            0.0
        } else {
            1.0
        }
    }
    fn positive(self) -> Option<bool> {
        Some(self != Gf::new(0))
    }
}
macro_rules! gfname { ($($p:literal),*) => { $(impl Sc for Gf<$p> {
    type R = Self;
    const NAME: &'static str = concat!("GF(", stringify!($p), "^2)");
    #[inline(always)]
    fn to_ref(self) -> Self { self }
    #[inline(always)]
    fn agrees(self, r: Self) -> bool { self == r && !self.bad }
    fn bits(self) -> u64 { self.a as u64 | (self.b as u64) << 16 | (self.bad as u64) << 32 }
    fn dy(n: i64, d: i64) -> Self {
        use num_traits::FromPrimitive;
        Self::from_i64(n).unwrap() * Gf::inv(Self::from_i64(d).unwrap())
    }
    fn garbage(k: usize) -> Self {
        match k % 4 { 0 => Gf::new(1), 1 => Gf::new($p - 1), 2 => Gf::new(2), _ => Gf::BAD }
    }
})* } }
gfname!(3, 5, 7, 11, 13, 997);

/// f64 value with a running bound on the rounding error of a computation in a narrower arithmetic:
/// relative unit U (as 2^-U) and absolute unit 2^-A per operation.
#[derive(Copy, Clone)]
pub struct Run<const U: i32, const A: i32> {
    pub v: f64,
    pub e: f64,
}
impl<const U: i32, const A: i32> Debug for Run<U, A> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:e}±{:.1e}", self.v, self.e)
    }
}
const fn p2(k: i32) -> f64 {
    // 2^-k
    if k >= 1023 {
        return f64::MIN_POSITIVE;
    }
    let mut r = 1.0;
    let mut i = 0;
    while i < k {
        r *= 0.5;
        i += 1;
    }
    r
}
impl<const U: i32, const A: i32> Run<U, A> {
    const UR: f64 = p2(U);
    const UA: f64 = p2(A);
    pub fn exact(v: f64) -> Self {
        Run { v, e: 0.0 }
    }
    #[inline(always)]
    fn rounded(v: f64, e: f64) -> Self {
        Run { v, e: e + v.abs() * Self::UR + Self::UA }
    }
}
impl<const U: i32, const A: i32> Ring for Run<U, A> {
    fn zero() -> Self {
        Run { v: 0.0, e: 0.0 }
    }
    fn one() -> Self {
        Run { v: 1.0, e: 0.0 }
    }
    #[inline(always)]
    fn add(self, o: Self) -> Self {
        // the intermediate sums of a differently ordered evaluation can be as large as the operands
        let m = self.v.abs() + o.v.abs();
        Run { v: self.v + o.v, e: self.e + o.e + m * Self::UR }
    }
    #[inline(always)]
    fn sub(self, o: Self) -> Self {
        self.add(Run { v: -o.v, e: o.e })
    }
    #[inline(always)]
    fn mul(self, o: Self) -> Self {
        if (self.v == 0.0 && self.e == 0.0) || (o.v == 0.0 && o.e == 0.0) {
            return Self::zero();
        }
        Self::rounded(self.v * o.v, self.v.abs() * o.e + o.v.abs() * self.e + self.e * o.e)
    }
    fn inv(self) -> Option<Self> {
        let lo = self.v.abs() - 4.0 * self.e;
        if lo <= 0.0 {
            return None;
        }
        Some(Self::rounded(1.0 / self.v, self.e / (lo * self.v.abs())))
    }
    fn weight(self) -> f64 {
        (self.v.abs() - 4.0 * self.e).max(0.0)
    }
    fn meets(self, o: Self) -> bool {
        (self.v - o.v).abs() <= 16.0 * (self.e + o.e)
    }
    fn slack(self) -> f64 {
        self.e
    }
    fn huge(self) -> bool {
        self.v.abs() > if A == 16 { 4096.0 } else if A == 31 { 67108864.0 } else { f64::INFINITY }
    }
    fn vague(self) -> bool {
        self.e > self.v.abs() * if A < 200 { 0.25 } else { 1e-3 }
    }
    fn positive(self) -> Option<bool> {
        let t = 16.0 * self.e;
        if self.v > t {
            Some(true)
        } else if self.v < -t || (self.v == 0.0 && self.e == 0.0) {
            Some(false)
        } else {
            None
        }
    }
}

fn close(a: f64, v: f64, e: f64) -> bool {
    a.is_finite() && (a - v).abs() <= 16.0 * e
}

impl Sc for f64 {
    type R = Run<52, 1040>;
    const NAME: &'static str = "f64";
    fn to_ref(self) -> Self::R {
        Run::exact(self)
    }
    fn agrees(self, r: Self::R) -> bool {
        close(self, r.v, r.e)
    }
    fn bits(self) -> u64 {
        self.to_bits()
    }
    fn dy(n: i64, d: i64) -> Self {
        n as f64 / d as f64
    }
    fn garbage(k: usize) -> Self {
        [f64::NAN, 1e30, -7.5, f64::INFINITY][k % 4]
    }
}
impl Sc for f32 {
    type R = Run<23, 140>;
    const NAME: &'static str = "f32";
    fn to_ref(self) -> Self::R {
        Run::exact(self as f64)
    }
    fn agrees(self, r: Self::R) -> bool {
        close(self as f64, r.v, r.e)
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
    fn dy(n: i64, d: i64) -> Self {
        n as f32 / d as f32
    }
    fn garbage(k: usize) -> Self {
        [f32::NAN, 1e30, -7.5, f32::INFINITY][k % 4]
    }
}
#[cfg(feature = "fixed")]
pub use fixed::types::{I16F16, I32F32};
#[cfg(feature = "fixed")]
impl Sc for I16F16 {
    type R = Run<53, 16>;
    const NAME: &'static str = "I16F16";
    fn to_ref(self) -> Self::R {
        Run::exact(self.to_num::<f64>())
    }
    fn agrees(self, r: Self::R) -> bool {
        close(self.to_num::<f64>(), r.v, r.e)
    }
    fn bits(self) -> u64 {
        self.to_bits() as u32 as u64
    }
    fn dy(n: i64, d: i64) -> Self {
        I16F16::from_num(n as f64 / d as f64)
    }
    fn garbage(k: usize) -> Self {
        I16F16::from_num([-3.25, 11.0, 0.0078125, -17.5][k % 4])
    }
}
#[cfg(feature = "fixed")]
impl Sc for I32F32 {
    type R = Run<52, 31>;
    const NAME: &'static str = "I32F32";
    fn to_ref(self) -> Self::R {
        Run::exact(self.to_num::<f64>())
    }
    fn agrees(self, r: Self::R) -> bool {
        close(self.to_num::<f64>(), r.v, r.e)
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
    fn dy(n: i64, d: i64) -> Self {
        I32F32::from_num(n as f64 / d as f64)
    }
    fn garbage(k: usize) -> Self {
        I32F32::from_num([-3.25, 11.0, 0.0078125, -17.5][k % 4])
    }
}

/// Dense matrix of the reference model, in row-major order.
#[derive(Clone, Debug)]
pub struct Mx<R> {
    pub r: usize,
    pub c: usize,
    pub d: Vec<R>,
}
impl<R: Ring> Mx<R> {
    pub fn new(r: usize, c: usize, d: Vec<R>) -> Self {
        assert_eq!(d.len(), r * c);
        Mx { r, c, d }
    }
    pub fn of<T: Sc<R = R>>(r: usize, c: usize, d: &[T]) -> Self {
        Mx::new(r, c, d[..r * c].iter().map(|v| v.to_ref()).collect())
    }
    pub fn zero(r: usize, c: usize) -> Self {
        Mx { r, c, d: vec![R::zero(); r * c] }
    }
    pub fn ident(n: usize) -> Self {
        let mut m = Self::zero(n, n);
        for i in 0..n {
            m.d[i * n + i] = R::one();
        }
        m
    }
    #[inline(always)]
    pub fn at(&self, i: usize, j: usize) -> R {
        self.d[i * self.c + j]
    }
    pub fn t(&self) -> Self {
        let mut m = Self::zero(self.c, self.r);
        for i in 0..self.r {
            for j in 0..self.c {
                m.d[j * self.r + i] = self.at(i, j);
            }
        }
        m
    }
    pub fn mul(&self, o: &Self) -> Self {
        assert_eq!(self.c, o.r);
        let mut m = Self::zero(self.r, o.c);
        for i in 0..self.r {
            for j in 0..o.c {
                let mut s = R::zero();
                for k in 0..self.c {
                    s = s.add(self.at(i, k).mul(o.at(k, j)));
                }
                m.d[i * o.c + j] = s;
            }
        }
        m
    }
    pub fn zip(&self, o: &Self, f: impl Fn(R, R) -> R) -> Self {
        assert_eq!((self.r, self.c), (o.r, o.c));
        Mx { r: self.r, c: self.c, d: self.d.iter().zip(&o.d).map(|(a, b)| f(*a, *b)).collect() }
    }
    pub fn add(&self, o: &Self) -> Self {
        self.zip(o, R::add)
    }
    pub fn sub(&self, o: &Self) -> Self {
        self.zip(o, R::sub)
    }
    pub fn scale(&self, k: R) -> Self {
        Mx { r: self.r, c: self.c, d: self.d.iter().map(|a| a.mul(k)).collect() }
    }
    pub fn huge(&self) -> bool {
        self.d.iter().any(|x| x.huge())
    }
    /// Gauss-Jordan with row pivoting.
    pub fn inv(&self) -> Option<Self> {
        let n = self.r;
        let mut a = self.clone();
        let mut b = Self::ident(n);
        for k in 0..n {
            let p = (k..n).max_by(|x, y| a.at(*x, k).weight().partial_cmp(&a.at(*y, k).weight()).unwrap_or(std::cmp::Ordering::Equal))?;
            if a.at(p, k).weight() == 0.0 {
                return None;
            }
            for j in 0..n {
                a.d.swap(k * n + j, p * n + j);
                b.d.swap(k * n + j, p * n + j);
            }
            let i = a.at(k, k).inv()?;
            for j in 0..n {
                a.d[k * n + j] = a.at(k, j).mul(i);
                b.d[k * n + j] = b.at(k, j).mul(i);
            }
            for r in 0..n {
                if r != k {
                    let f = a.at(r, k);
                    for j in 0..n {
                        a.d[r * n + j] = a.at(r, j).sub(f.mul(a.at(k, j)));
                        b.d[r * n + j] = b.at(r, j).sub(f.mul(b.at(k, j)));
                    }
                }
            }
        }
        Some(b)
    }
    /// The same judged by the upper triangle alone.
    pub fn posdef_upper(&self) -> Option<bool> {
        let mut s = self.clone();
        for i in 0..self.r {
            for j in 0..i {
                s.d[i * self.r + j] = self.at(j, i);
            }
        }
        s.posdef()
    }
    /// Pivots of the unpivoted symmetric elimination decide positive definiteness.
    /// Some(true)/Some(false) when certain.
    pub fn posdef(&self) -> Option<bool> {
        let n = self.r;
        let mut a = self.clone();
        for k in 0..n {
            match a.at(k, k).positive() {
                Some(true) => {}
                o => return o,
            }
            let i = match a.at(k, k).inv() {
                Some(i) => i,
                None => return None,
            };
            for r in k + 1..n {
                let f = a.at(r, k).mul(i);
                for j in k + 1..n {
                    a.d[r * n + j] = a.at(r, j).sub(f.mul(a.at(k, j)));
                }
            }
        }
        Some(true)
    }
}

/// Compare a library result with the reference; Err(index) of the first disagreeing cell.
pub fn agree<T: Sc>(got: &[T], want: &Mx<T::R>) -> Result<(), usize> {
    for (i, w) in want.d.iter().enumerate() {
        if !got[i].agrees(*w) {
            return Err(i);
        }
    }
    Ok(())
}
