//! N01: reciprocal and square root of the provided number types, on every back end.
#![allow(unused_imports)]
use mc::explore::*;
use mc::gf::Gf;
use mc::*;
use minikalman::matrix::MatrixDataType;

/// Which rule the floating point results obey in this build.
const APPROX: bool = cfg!(all(feature = "micromath", not(any(feature = "std", feature = "libm"))));

/// Visits all values `lo..hi` in blocks; `f` returns false when it does not apply to a value.
fn sweep(h: &mut Harness, name: &str, lo: u64, hi: u64, f: fn(u32) -> Result<bool, Viol>) {
    const CHUNK: u64 = 1 << 26;
    let mut a = lo;
    while a < hi {
        let b = (a + CHUNK).min(hi);
        h.job(format!("{name}: patterns {a:#010x}..{b:#010x}"), move |ctx| {
            let mut x = a;
            while x < b {
                let e = (x + (1 << 16)).min(b);
                ctx.step(|| format!("patterns {x:#010x}..{e:#010x}"));
                let (mut n, mut s) = (0, 0);
                let r = lib(|| {
                    for p in x..e {
                        if f(p as u32)? {
                            n += 1;
                        } else {
                            s += 1;
                        }
                    }
                    Ok(())
                });
                ctx.bulk(n);
                ctx.skipped += s;
                r?;
                x = e;
            }
            ctx.outcome(a);
            Ok(())
        });
        a = b;
    }
}

#[cfg(any(feature = "std", feature = "libm", feature = "micromath"))]
mod fl {
    use super::*;
    pub fn recip32(p: u32) -> Result<bool, Viol> {
        let x = f32::from_bits(p);
        if !x.is_finite() || x == 0.0 {
            return Ok(false);
        }
        let want = (1.0 / x as f64) as f32;
        if !want.is_finite() {
            return Ok(false);
        }
        if APPROX {
            // the approximation is stated for numbers whose reciprocal is a normal number
            if !(x.is_normal() && x.abs() <= 2f32.powi(125)) {
                return Ok(false);
            }
            let got = MatrixDataType::recip(x);
            ensure!(((got as f64 * x as f64) - 1.0).abs() <= 1e-5, "recip({x:?}) [bits {p:#010x}] is {got:?} instead of {want:?}");
            return Ok(true);
        }
        let got = MatrixDataType::recip(x);
        ensure!(got.to_bits() == want.to_bits(), "recip({x:?}) [bits {p:#010x}] is {got:?} instead of {want:?}");
        Ok(true)
    }
    pub fn sqrt32(p: u32) -> Result<bool, Viol> {
        let x = f32::from_bits(p);
        if !x.is_finite() || x < 0.0 {
            return Ok(false);
        }
        let want = (x as f64).sqrt();
        if APPROX {
            if x.is_subnormal() {
                return Ok(false);
            }
            let got = MatrixDataType::square_root(x);
            if p == 1 << 31 && got != 0.0 && known("N01", "micromath: square_root(-0.0f32) is 2.7670116e19") {
                return Ok(false);
            }
            ensure!((got as f64 - want).abs() <= 0.061 * want + 2e-19, "square_root({x:?}) [bits {p:#010x}] is {got:?} instead of {want:?}");
            return Ok(true);
        }
        let got = MatrixDataType::square_root(x);
        ensure!(got == want as f32, "square_root({x:?}) [bits {p:#010x}] is {got:?} instead of {:?}", want as f32);
        Ok(true)
    }
    fn split(b: u64) -> (u64, i32) {
        let e = ((b >> 52) & 0x7ff) as i32;
        let m = b & ((1 << 52) - 1);
        if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) }
    }
    /// Exact: the nearest number to 1/x.
    pub fn recip64(b: u64) -> Result<bool, Viol> {
        let x = f64::from_bits(b);
        if !x.is_finite() || x == 0.0 {
            return Ok(false);
        }
        let (m, ex) = split(b & !(1 << 63));
        // out of range: 1/x rounds to infinity
        if x.abs() < 2f64.powi(-1023) {
            return Ok(false);
        }
        if APPROX {
            if !(x.is_normal() && x.abs() <= 1e37 && x.abs() >= 1e-37) {
                return Ok(false);
            }
            let got = MatrixDataType::recip(x);
            ensure!((got * x - 1.0).abs() <= 1e-5, "recip({x:?}) [bits {b:#018x}] is {got:?}");
            return Ok(true);
        }
        let got = MatrixDataType::recip(x);
        ensure!(got.is_finite() && got != 0.0 && (got < 0.0) == (x < 0.0), "recip({x:?}) [bits {b:#018x}] is {got:?}");
        let (q, eq) = split(got.to_bits() & !(1 << 63));
        let k = -(eq + ex);
        assert!(k >= 0 && k < 126, "{x:?} {got:?}");
        let p = q as i128 * m as i128 - (1i128 << k);
        let narrow = q == 1 << 52 && p > 0 && eq > -1074; // the gap below a power of two is half as wide
        ensure!(p.abs() * if narrow { 4 } else { 2 } <= m as i128, "recip({x:?}) [bits {b:#018x}] is {got:?}, which is not the nearest number");
        Ok(true)
    }
    pub fn sqrt64(b: u64) -> Result<bool, Viol> {
        let x = f64::from_bits(b);
        if !x.is_finite() || x < 0.0 {
            return Ok(false);
        }
        if APPROX {
            if x != 0.0 && !(x <= 1e37 && x >= 1e-37) {
                return Ok(false);
            }
            let got = MatrixDataType::square_root(x);
            if b == 1 << 63 && got != 0.0 && known("N01", "micromath: square_root(-0.0f64) is 2.7670116e19") {
                return Ok(false);
            }
            ensure!((got - x.sqrt()).abs() <= 0.0611 * x.sqrt() + 2e-19, "square_root({x:?}) [bits {b:#018x}] is {got:?}");
            return Ok(true);
        }
        let got = MatrixDataType::square_root(x);
        if x == 0.0 {
            ensure!(got == 0.0, "square_root({x:?}) is {got:?}");
            return Ok(true);
        }
        ensure!(got.is_finite() && got > 0.0, "square_root({x:?}) [bits {b:#018x}] is {got:?}");
        let (mut m, mut e) = split(b);
        while m >> 52 == 0 {
            m <<= 1;
            e -= 1;
        }
        let (q, eq) = split(got.to_bits());
        // x = m 2^e = M 4^eq with M = m 2^(e - 2 eq)
        let k = e - 2 * eq;
        assert!((0..70).contains(&k));
        let v = (m as u128) << (k + 2);
        let (lo, hi) = ((2 * q - 1) as u128, (2 * q + 1) as u128);
        ensure!(lo * lo <= v && v <= hi * hi, "square_root({x:?}) [bits {b:#018x}] is {got:?}, which is not the nearest number");
        Ok(true)
    }
}
#[cfg(feature = "fixed")]
mod fx {
    use super::*;
    use fixed::types::{I16F16, I32F32};
    pub fn recip16(p: u32) -> Result<bool, Viol> {
        let raw = p as i32;
        // |1/x| must be below 2^15
        if (raw as i64).abs() <= 2 {
            return Ok(false);
        }
        let got = MatrixDataType::recip(I16F16::from_bits(raw)).to_bits();
        let err = got as i64 * raw as i64 - (1i64 << 32);
        ensure!(err.abs() <= (raw as i64).abs(), "recip({} / 65536) is {got} / 65536", raw);
        Ok(true)
    }
    pub fn sqrt16(p: u32) -> Result<bool, Viol> {
        let raw = p as i32;
        let got = MatrixDataType::square_root(I16F16::from_bits(raw)).to_bits() as i64;
        let v = (raw as i64) << 16;
        ensure!(got >= 0 && (got == 0 || (got - 1) * (got - 1) <= v) && v <= (got + 1) * (got + 1), "square_root({raw} / 65536) is {got} / 65536");
        Ok(true)
    }
    pub fn recip32(b: u64) -> Result<bool, Viol> {
        let raw = b as i64;
        if (raw as i128).abs() <= 2 {
            return Ok(false);
        }
        let got = MatrixDataType::recip(I32F32::from_bits(raw)).to_bits();
        let err = got as i128 * raw as i128 - (1i128 << 64);
        ensure!(err.abs() <= (raw as i128).abs(), "recip({raw} / 2^32) is {got} / 2^32");
        Ok(true)
    }
    pub fn sqrt32(b: u64) -> Result<bool, Viol> {
        let raw = b as i64;
        if raw < 0 {
            return Ok(false);
        }
        let got = MatrixDataType::square_root(I32F32::from_bits(raw)).to_bits() as i128;
        let v = (raw as i128) << 32;
        ensure!(got >= 0 && (got == 0 || (got - 1) * (got - 1) <= v) && v <= (got + 1) * (got + 1), "square_root({raw} / 2^32) is {got} / 2^32");
        Ok(true)
    }
}
/// All 64-bit words `base` with at most three (thorough: four) more bits set or cleared within `bits`, and their neighbours.
fn words(ctx: &mut Ctx, base: u64, bits: u32, f: fn(u64) -> Result<bool, Viol>) -> Res {
    let (mut n, mut s) = (0, 0);
    let deep = ctx.thorough;
    for start in [base, base | ((1u64 << (bits - 1)) | ((1u64 << (bits - 1)) - 1))] {
        ctx.step(|| format!("words at Hamming distance up to 3 (thorough: 4) of {start:#018x} in the lower {bits} bits, and their neighbours"));
        let r = lib(|| {
            let mut go = |w: u64| -> Res {
                for d in [0u64, 1, u64::MAX] {
                    if f(w.wrapping_add(d))? {
                        n += 1
                    } else {
                        s += 1
                    }
                }
                Ok(())
            };
            go(start)?;
            for i in 0..bits {
                let a = start ^ 1 << i;
                go(a)?;
                for j in 0..i {
                    let b = a ^ 1 << j;
                    go(b)?;
                    for k in 0..j {
                        go(b ^ 1 << k)?;
                        for l in 0..if deep { k } else { 0 } {
                            go(b ^ 1 << k ^ 1 << l)?;
                        }
                    }
                }
            }
            Ok(())
        });
        r?;
    }
    ctx.bulk(n);
    ctx.skipped += s;
    Ok(())
}
/// All runs of ones within a word, and words made of a repeated short pattern.
fn runs(ctx: &mut Ctx, base: u64, bits: u32, f: fn(u64) -> Result<bool, Viol>) -> Res {
    let (mut n, mut s) = (0, 0);
    let mask = (1u64 << (bits - 1)) | ((1u64 << (bits - 1)) - 1);
    for i in 0..bits {
        ctx.step(|| format!("runs of ones from bit {i} and repeated patterns over {base:#018x}"));
        lib(|| {
            for j in i..bits {
                let w = base ^ (((1u128 << (j + 1)) - (1u128 << i)) as u64 & mask);
                for d in [0u64, 1, 2, u64::MAX, u64::MAX - 1] {
                    if f(w.wrapping_add(d))? { n += 1 } else { s += 1 }
                }
            }
            for per in 1..=10u32 {
                for pat in 0..1u64 << per {
                    let (mut w, mut at) = (0u64, 0);
                    while at < 64 {
                        w |= pat << at;
                        at += per;
                    }
                    let w = base ^ (w & mask & ((1u128 << (i + 1)) - 1) as u64);
                    if f(w)? { n += 1 } else { s += 1 }
                }
            }
            Ok(())
        })?;
    }
    ctx.bulk(n);
    ctx.skipped += s;
    Ok(())
}
fn main() {
    let mut h = Harness::new("N01");
    h.assumptions.push("fixed-point reciprocals that do not fit the format (|x| of at most two steps) and, for micromath, numbers whose reciprocal is not a normal single-precision number are out of range".into());
    let variant = std::env::args().skip_while(|a| a != "--variant").nth(1).unwrap_or_default();
    let full = h.thorough || variant == "v1" || variant == "v2" || variant == "v3";
    let sub = |h: &mut Harness, name: &str, f: fn(u32) -> Result<bool, Viol>, full: bool| {
        if full {
            sweep(h, name, 0, 1 << 32, f);
        } else {
            // everything within 2^22 of each power-of-two boundary of the word
            for top in 0..64u64 {
                sweep(h, name, top << 26, (top << 26) + (1 << 21), f);
            }
        }
    };
    #[cfg(any(feature = "std", feature = "libm", feature = "micromath"))]
    {
        sub(&mut h, "recip f32", fl::recip32, full);
        sub(&mut h, "square_root f32", fl::sqrt32, full);
        for (name, f) in [("recip f64", fl::recip64 as fn(u64) -> Result<bool, Viol>), ("square_root f64", fl::sqrt64)] {
            let neg = name.starts_with("recip");
            if h.thorough && !APPROX {
                // every sign, exponent and upper mantissa part, with the lowest, middle and highest lower parts
                for top in 0..1u64 << 8 {
                    h.job(format!("{name}: every upper half-word {:#x}...", top), move |ctx| {
                        let (mut n, mut s) = (0, 0);
                        for b in 0..1u64 << 16 {
                            ctx.step(|| format!("upper words from {:#x}", top << 24 | b << 8));
                            lib(|| {
                                for c in 0..1u64 << 8 {
                                    for lo in [0u64, 0x7fff_ffff, 0xffff_ffff] {
                                        if f((top << 24 | b << 8 | c) << 32 | lo)? { n += 1 } else { s += 1 }
                                    }
                                }
                                Ok::<(), Viol>(())
                            })?;
                        }
                        ctx.bulk(n);
                        ctx.outcome(n);
                        ctx.skipped += s;
                        Ok(())
                    });
                }
            }
            for hi in if APPROX { 29..36u64 } else { 0..64u64 } {
                h.job(format!("{name}: sparse and dense mantissas, exponents {}..{}", hi * 32, hi * 32 + 32), move |ctx| {
                    for e in hi * 32..hi * 32 + 32 {
                        for sign in [0u64, 1 << 63] {
                            if sign != 0 && (!neg || e % 16 != 7) {
                                continue;
                            }
                            words(ctx, sign | e << 52, 52, f)?;
                            if e % 8 < 2 || ctx.thorough {
                                runs(ctx, sign | e << 52, 52, f)?;
                            }
                        }
                    }
                    Ok(())
                });
            }
        }
    }
    #[cfg(any(feature = "std", feature = "libm", feature = "micromath"))]
    h.job("zeros", |ctx| {
        ctx.step(|| "square roots of +0 and -0".into());
        for b in [0, 1 << 63] {
            lib(|| fl::sqrt64(b))?;
            lib(|| fl::sqrt32((b >> 32) as u32))?;
            ctx.bulk(2);
        }
        Ok(())
    });
    #[cfg(feature = "fixed")]
    {
        sub(&mut h, "recip I16F16", fx::recip16, full);
        if full {
            sweep(&mut h, "square_root I16F16", 0, 1 << 31, fx::sqrt16);
        } else {
            for top in 0..32u64 {
                sweep(&mut h, "square_root I16F16", top << 26, (top << 26) + (1 << 18), fx::sqrt16);
            }
        }
        for (name, f, signs) in [("recip I32F32", fx::recip32 as fn(u64) -> Result<bool, Viol>, 64), ("square_root I32F32", fx::sqrt32, 32)] {
            for top in 0..signs {
                h.job(format!("{name}: words near those with top bits {top:06b}"), move |ctx| {
                    words(ctx, top << 58, 58, f)?;
                    runs(ctx, top << 58, 58, f)?;
                    Ok(())
                });
            }
            h.job(format!("{name}: the smallest and largest words"), move |ctx| {
                ctx.step(|| "the smallest and largest words".into());
                let mut n = 0;
                lib(|| {
                    for k in 0..1u64 << 20 {
                        for w in [k, k.wrapping_neg(), i64::MAX as u64 - k, i64::MIN as u64 + k, (1 << 32) + k, (1u64 << 32) - k, (k << 32).wrapping_sub(1), k << 32, (k << 32) + 1] {
                            n += f(w)? as u64;
                        }
                    }
                    Ok::<(), Viol>(())
                })?;
                ctx.bulk(n);
                Ok(())
            });
        }
    }
    field::<3>(&mut h);
    field::<5>(&mut h);
    field::<7>(&mut h);
    field::<31>(&mut h);
    field::<251>(&mut h);
    h.run()
}
/// A number type that only provides a square root: the reciprocal is the trait's own.
#[derive(Copy, Clone, PartialEq, PartialOrd, Debug)]
struct Plain<const P: u32>(Gf<P>);
macro_rules! op { ($($t:ident $f:ident),*) => { $(impl<const P: u32> std::ops::$t for Plain<P> { type Output = Self; fn $f(self, o: Self) -> Self { Plain(std::ops::$t::$f(self.0, o.0)) } })* } }
op!(Add add, Sub sub, Mul mul, Div div);
impl<const P: u32> std::ops::Neg for Plain<P> { type Output = Self; fn neg(self) -> Self { Plain(-self.0) } }
impl<const P: u32> std::ops::AddAssign for Plain<P> { fn add_assign(&mut self, o: Self) { self.0 = self.0 + o.0 } }
impl<const P: u32> std::ops::SubAssign for Plain<P> { fn sub_assign(&mut self, o: Self) { self.0 = self.0 - o.0 } }
impl<const P: u32> std::iter::Sum for Plain<P> { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Plain(Gf::new(0)), |a, b| a + b) } }
impl<const P: u32> num_traits::Zero for Plain<P> { fn zero() -> Self { Plain(Gf::new(0)) } fn is_zero(&self) -> bool { self.0 == Gf::new(0) } }
impl<const P: u32> num_traits::One for Plain<P> { fn one() -> Self { Plain(Gf::new(1)) } }
impl<const P: u32> num_traits::FromPrimitive for Plain<P> {
    fn from_i64(n: i64) -> Option<Self> { Gf::from_i64(n).map(Plain) }
    fn from_u64(n: u64) -> Option<Self> { Gf::from_u64(n).map(Plain) }
}
impl<const P: u32> MatrixDataType for Plain<P> {
    fn square_root(self) -> Self { Plain(self.0.sqrt()) }
}
fn field<const P: u32>(h: &mut Harness) {
    h.job(format!("default reciprocal over GF({P}^2)"), |ctx| {
        for a in 0..P {
            for b in 0..P {
                if a == 0 && b == 0 {
                    continue;
                }
                ctx.step(|| format!("{a} + {b} s"));
                let x = Plain(Gf::<P> { a: a as u16, b: b as u16, bad: false });
                let r = lib(|| MatrixDataType::recip(x));
                ensure!(r * x == Plain(Gf::new(1)) && x * r == Plain(Gf::new(1)), "recip({x:?}) is {r:?}");
                ctx.state((a * P + b) as u64);
                ctx.outcome(r.0.a as u64 * P as u64 + r.0.b as u64);
            }
        }
        Ok(())
    });
}
