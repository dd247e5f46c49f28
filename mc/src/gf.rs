//! Exact finite-field scalar: GF(p^2), so that every element of the prime field has a square root.
//! Every operation is exact, so the library's result can be compared for equality whatever the order
//! of evaluation, and the reachable state space is finite.
use num_traits::{FromPrimitive, One, Zero};
use std::cmp::Ordering;
use std::ops::*;

/// a + b*sqrt(d) over GF(P); `bad` marks the result of a division by zero (absorbing).
#[derive(Copy, Clone, PartialEq, Eq, Hash, Default)]
pub struct Gf<const P: u32> {
    pub a: u16,
    pub b: u16,
    pub bad: bool,
}

const fn powmod(mut b: u32, mut e: u32, p: u32) -> u32 {
    let mut r = 1 % p;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % p;
        }
        b = b * b % p;
        e >>= 1;
    }
    r
}

impl<const P: u32> Gf<P> {
    pub const D: u32 = {
        let mut d = 2;
        while powmod(d, (P - 1) / 2, P) == 1 {
            d += 1;
        }
        d
    };
    pub const BAD: Self = Gf { a: 0, b: 0, bad: true };

    #[inline(always)]
    pub fn new(a: u32) -> Self {
        Gf { a: (a % P) as u16, b: 0, bad: false }
    }
    #[inline(always)]
    fn mk(a: u32, b: u32, bad: bool) -> Self {
        Gf { a: (a % P) as u16, b: (b % P) as u16, bad }
    }
    pub fn inv(self) -> Self {
        // 1/(a+b s) = (a - b s)/(a^2 - d b^2)
        let (a, b) = (self.a as u32, self.b as u32);
        let n = (a * a + (P - (Self::D % P)) * (b * b % P)) % P;
        if self.bad || n == 0 {
            return Self::BAD;
        }
        let i = powmod(n, P - 2, P);
        Self::mk(a * i, (P - b) % P * i, false)
    }
    fn root(a: u32) -> Option<u32> {
        (0..P).find(|r| r * r % P == a)
    }
    pub fn sqrt(self) -> Self {
        if self.bad {
            return self;
        }
        if self.b == 0 {
            let a = self.a as u32;
            if let Some(r) = Self::root(a) {
                return Self::mk(r, 0, false);
            }
            let q = a * powmod(Self::D, P - 2, P) % P;
            return Self::mk(0, Self::root(q).unwrap(), false);
        }
        if P > 100 {
            return Self::BAD; // no correct computation asks for it
        }
        for a in 0..P {
            for b in 0..P {
                let c = Self::mk(a, b, false);
                if c * c == self {
                    return c;
                }
            }
        }
        Self::BAD
    }
}

impl<const P: u32> std::fmt::Debug for Gf<P> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.bad {
            write!(f, "1/0")
        } else if self.b == 0 {
            write!(f, "{}", self.a)
        } else {
            write!(f, "{}+{}r", self.a, self.b)
        }
    }
}

macro_rules! bin {
    ($t:ident, $m:ident, $ta:ident, $ma:ident, |$x:ident, $y:ident| $e:expr) => {
        impl<const P: u32> $t for Gf<P> {
            type Output = Self;
            #[inline(always)]
            fn $m(self, rhs: Self) -> Self {
                let ($x, $y) = (self, rhs);
                $e
            }
        }
        impl<const P: u32> $ta for Gf<P> {
            #[inline(always)]
            fn $ma(&mut self, rhs: Self) {
                *self = (*self).$m(rhs);
            }
        }
    };
}
bin!(Add, add, AddAssign, add_assign, |x, y| Gf::mk(x.a as u32 + y.a as u32, x.b as u32 + y.b as u32, x.bad | y.bad));
bin!(Sub, sub, SubAssign, sub_assign, |x, y| Gf::mk(x.a as u32 + P - y.a as u32, x.b as u32 + P - y.b as u32, x.bad | y.bad));
bin!(Mul, mul, MulAssign, mul_assign, |x, y| {
    let (a, b, c, e) = (x.a as u32, x.b as u32, y.a as u32, y.b as u32);
    Gf::mk(a * c + Self::D * (b * e % P), a * e + b * c, x.bad | y.bad)
});
bin!(Div, div, DivAssign, div_assign, |x, y| x * y.inv());

impl<const P: u32> Neg for Gf<P> {
    type Output = Self;
    #[inline(always)]
    fn neg(self) -> Self {
        Gf::mk(P - self.a as u32, P - self.b as u32, self.bad)
    }
}
impl<const P: u32> Zero for Gf<P> {
    fn zero() -> Self {
        Self::new(0)
    }
    fn is_zero(&self) -> bool {
        *self == Self::new(0)
    }
}
impl<const P: u32> One for Gf<P> {
    fn one() -> Self {
        Self::new(1)
    }
}
impl<const P: u32> std::iter::Sum for Gf<P> {
    fn sum<I: Iterator<Item = Self>>(it: I) -> Self {
        it.fold(Self::new(0), |a, b| a + b)
    }
}
/// Every non-zero element counts as positive: a pivot is rejected exactly when it is zero.
impl<const P: u32> PartialOrd for Gf<P> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        if self.bad || o.bad {
            return None;
        }
        Some((self.a, self.b).cmp(&(o.a, o.b)))
    }
}
impl<const P: u32> FromPrimitive for Gf<P> {
    fn from_i64(n: i64) -> Option<Self> {
        Some(Self::new(n.rem_euclid(P as i64) as u32))
    }
    fn from_u64(n: u64) -> Option<Self> {
        Some(Self::new((n % P as u64) as u32))
    }
    fn from_f64(f: f64) -> Option<Self> {
        if !f.is_finite() {
            return None;
        }
        let bits = f.to_bits();
        let e = ((bits >> 52) & 0x7ff) as i32;
        let m = (bits & ((1 << 52) - 1)) | if e > 0 { 1 << 52 } else { 0 };
        let e = e.max(1) - 1075;
        let mut r = Self::new((m % P as u64) as u32);
        let two = Self::new(2);
        let half = two.inv();
        for _ in 0..e.abs() {
            r = r * if e > 0 { two } else { half };
        }
        Some(if f < 0.0 { -r } else { r })
    }
}
impl<const P: u32> minikalman::matrix::MatrixDataType for Gf<P> {
    // `recip` is left to the library
    fn square_root(self) -> Self {
        self.sqrt()
    }
}

#[cfg(test)]
mod t {
    use super::*;
    fn chk<const P: u32>() {
        let all: Vec<_> = (0..P).flat_map(|a| (0..P).map(move |b| Gf::<P>::mk(a, b, false))).collect();
        for &x in &all {
            if !x.is_zero() {
                assert_eq!(x * x.inv(), Gf::new(1));
            } else {
                assert!(x.inv().bad);
            }
            assert_eq!(x + (-x), Gf::new(0));
            if x.b == 0 {
                assert_eq!(x.sqrt() * x.sqrt(), x);
            }
            for &y in &all {
                assert_eq!(x - y + y, x);
                for &z in &all {
                    assert_eq!(x * (y + z), x * y + x * z);
                    assert_eq!(x * (y * z), x * y * z);
                }
            }
        }
        assert_eq!(Gf::<P>::from_f64(0.5).unwrap() * Gf::new(2), Gf::new(1));
        assert_eq!(Gf::<P>::from_f64(-12.25).unwrap() * Gf::new(4), -Gf::new(49));
    }
    #[test]
    fn field_axioms() {
        chk::<3>();
        chk::<5>();
        chk::<7>();
        chk::<11>();
    }
}
