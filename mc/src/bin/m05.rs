//! M05: Cholesky decomposition.
#![allow(unused_imports)]
use mc::explore::*;
use mc::fam::*;
use mc::gf::Gf;
use mc::huge::*;
use mc::mat::*;
use mc::num::*;
use mc::points::Alpha;
use mc::*;
use minikalman::matrix::*;
use minikalman::prelude::*;
/// One decomposition. `exactpd` (when known independently) must be the outcome.
fn one<F: Fam<T>, T: Alpha, const N: usize>(ctx: &mut Ctx, ar: &Arena<T>, m: &mut F::M<N, N>, tri: &[T], exactpd: Option<bool>) -> Res where T::R: Loosen {
    let v = sym(N, tri);
    ctx.step(|| format!("{N}x{N} {} {v:?}", T::NAME));
    ctx.state(fp(&v));
    let a = Mx::of(N, N, &v);
    let pd = a.posdef();
    if let (Some(p), Some(q)) = (pd, exactpd) {
        assert_eq!(p, q, "the reference model contradicts itself on {v:?}");
    }
    if pd.is_none() && T::FIXED {
        // a pivot within rounding of zero: the factor need not fit the number format
        ctx.skipped += 1;
        return Ok(());
    }
    put::<F, T, N, N>(m, &v);
    let ok = lib(|| m.cholesky_decompose_lower());
    ensure!(ar.tails_intact() && tail::<F, T, N, N>(m, Role::Other(0)), "memory beyond the matrix changed");
    match pd {
        None => {
            ctx.skipped += 1;
        }
        Some(pd) => {
            ensure!(ok == pd, "success is {ok}, but the matrix is {}positive definite", if pd { "" } else { "not " });
        }
    }
    if ok && (pd == Some(true) || pd.is_none() && T::EXACT) {
        let l = m.as_slice()[..N * N].to_vec();
        for i in 0..N {
            ensure!(l[i * N + i].to_ref().positive() == Some(true) || l[i * N + i].to_ref().v_pos(), "the diagonal of L is not positive: {l:?}");
            for j in i + 1..N {
                ensure!(l[i * N + j] == T::zero(), "L is not lower triangular: {l:?}");
            }
        }
        let lx = Mx::new(N, N, l.iter().map(|x| x.to_ref().loosen(&v.iter().map(|x| x.to_ref()).collect::<Vec<_>>())).collect());
        let p = lx.mul(&lx.t());
        if let Err(i) = agree(&v, &p) {
            return viol(format!("L L' differs from the matrix in cell {i}: {:?} instead of {:?}, L={l:?}", p.d[i], v[i]));
        }
        ctx.outcome(fp(&l));
    } else {
        ctx.outcome(ok as u64);
    }
    Ok(())
}
/// The rounding of a factor's own cells.
trait Loosen: Ring {
    fn loosen(self, a: &[Self]) -> Self;
    fn v_pos(self) -> bool;
}
impl<const P: u32> Loosen for Gf<P> {
    fn loosen(self, _: &[Self]) -> Self { self }
    fn v_pos(self) -> bool { self != Gf::new(0) && !self.bad }
}
impl<const U: i32, const A: i32> Loosen for Run<U, A> {
    fn loosen(self, a: &[Self]) -> Self {
        let m = a.iter().fold(1.0f64, |m, x| m.max(x.v.abs()));
        let ua = if A < 200 { 2f64.powi(-A) * (1.0 + m) } else { 0.0 };
        Run { v: self.v, e: self.v.abs() * 2f64.powi(-U) + ua }
    }
    fn v_pos(self) -> bool { self.v > 0.0 }
}
fn grid<F: Fam<T>, T: Alpha, const N: usize>(h: &mut Harness, values: Vec<T>) where T::R: Loosen {
    let vars = N * (N + 1) / 2;
    let heads: Vec<Option<T>> = if (values.len() as f64).powi(vars as i32) > 1e5 { values.iter().map(|v| Some(*v)).collect() } else { vec![None] };
    for head in heads {
        let values = values.clone();
        h.job(format!("all symmetric {N}x{N} {} {} over {} values{}", F::NAME, T::NAME, values.len(), head.map(|h| format!(", first {h:?}")).unwrap_or_default()), move |ctx| {
            let mut ar = Arena::<T>::new();
            ar.surplus = 2;
            let mut m = F::make::<N, N>(&mut ar, Role::Other(0), T::zero());
            match head {
                None => grid_flat(vars, &values, &mut |t| one::<F, T, N>(ctx, &ar, &mut m, t, None)),
                Some(x) => grid_flat(vars - 1, &values, &mut |t| {
                    let mut tri = vec![x];
                    tri.extend_from_slice(t);
                    one::<F, T, N>(ctx, &ar, &mut m, &tri, None)
                }),
            }
        });
    }
}
fn dev<F: Fam<T>, T: Alpha, const N: usize>(h: &mut Harness, diag: i64, off: (i64, i64), values: Vec<T>, depth: usize) where T::R: Loosen {
    h.job(format!("symmetric {N}x{N} {} {} up to {depth} deviations from diagonal {diag}, off-diagonal {off:?}, {} values", F::NAME, T::NAME, values.len()), move |ctx| {
        let mut ar = Arena::<T>::new();
        ar.surplus = 2;
        let mut m = F::make::<N, N>(&mut ar, Role::Other(0), T::zero());
        let mut base = vec![];
        for i in 0..N {
            for j in i..N {
                base.push(if i == j { T::dy(diag, 1) } else { T::dy(off.0, off.1) });
            }
        }
        dev_flat(&base, &values, depth, &mut |t| one::<F, T, N>(ctx, &ar, &mut m, t, None))
    });
}
/// Magnitudes: D A D for A a fixed dense definite matrix (or slightly indefinite) and D diagonal powers of two.
fn scaled<F: Fam<T>, T: Alpha, const N: usize>(h: &mut Harness, lo: i32, hi: i32, by: i32) where T::R: Loosen {
    h.job(format!("symmetric {N}x{N} {} {} scaled by 2^{lo}..2^{hi}", F::NAME, T::NAME), move |ctx| {
        let mut ar = Arena::<T>::new();
        ar.surplus = 2;
        let mut m = F::make::<N, N>(&mut ar, Role::Other(0), T::zero());
        let pow = |e: i32| { let mut r = T::one(); let mut e = e; while e != 0 { let s = e.clamp(-60, 60); r = r * if s > 0 { T::dy(1 << s, 1) } else { T::dy(1, 1 << -s) }; e -= s; } r };
        for kind in 0..4i64 {
            let mut e = lo;
            while e <= hi {
                for which in 0..=N + 1 {
                    let d = |i: usize| if which == 0 || which == i + 1 { pow(e) } else if which == N + 1 { pow(if i % 2 == 0 { e } else { -e }) } else { T::one() };
                    let mut tri = vec![];
                    for i in 0..N {
                        for j in i..N {
                            // kind 3: the last pivot is negative
                            let a = if i == j { if kind == 3 && i == N - 1 { T::dy(-1, 4) } else { T::dy(4 + kind + (i as i64 % 2), 1) } } else { T::dy([1, -1, 3, 1][(kind as usize + i + j) % 4], 4) };
                            tri.push(a * d(i) * d(j));
                        }
                    }
                    one::<F, T, N>(ctx, &ar, &mut m, &tri, Some(kind != 3))?;
                }
                e += by;
            }
        }
        Ok(())
    });
}
/// Diagonal matrices over all magnitudes: nothing but the roots is computed, so nothing can leave the number format.
fn diagonal<F: Fam<T>, T: Alpha, const N: usize>(h: &mut Harness, values: Vec<T>) where T::R: Loosen {
    h.job(format!("diagonal {N}x{N} {} {} over {} values", F::NAME, T::NAME, values.len()), move |ctx| {
        let mut ar = Arena::<T>::new();
        ar.surplus = 2;
        let mut m = F::make::<N, N>(&mut ar, Role::Other(0), T::zero());
        grid_flat(N, &values, &mut |d| {
            let mut tri = vec![];
            for i in 0..N {
                for j in i..N {
                    tri.push(if i == j { d[i] } else { T::zero() });
                }
            }
            one::<F, T, N>(ctx, &ar, &mut m, &tri, None)
        })
    });
}
/// Towards singularity: 1 + 2^-j on the diagonal, ones elsewhere.
fn near<F: Fam<T>, T: Alpha, const N: usize>(h: &mut Harness, to: u32) where T::R: Loosen {
    h.job(format!("nearly singular {N}x{N} {} {} down to 2^-{to}", F::NAME, T::NAME), move |ctx| {
        let mut ar = Arena::<T>::new();
        let mut m = F::make::<N, N>(&mut ar, Role::Other(0), T::zero());
        for j in 0..=to {
            for sign in [1i64, -1] {
                for at in 0..=N {
                    let mut tri = vec![];
                    for i in 0..N {
                        for k in i..N {
                            tri.push(if i != k { T::one() } else if at == N || at == i { T::one() + T::dy(sign, 1 << j) } else { T::one() });
                        }
                    }
                    one::<F, T, N>(ctx, &ar, &mut m, &tri, None)?;
                }
            }
        }
        Ok(())
    });
}
/// Large matrices with an integer factor: every intermediate result is exactly representable.
fn huge<const N: usize>(h: &mut Harness) {
    h.job(format!("decomposition of {N}x{N} over integers"), move |ctx| {
        for seed in 0..3 {
            let l: Vec<i64> = (0..N * N).map(|k| { let (i, j) = (k / N, k % N); if i == j { 1 << (cell(i, seed) & 3) } else if i > j { cell(k, seed) % 2 } else { 0 } }).collect();
            let a = |k: usize| { let (i, j) = (k / N, k % N); (0..=i.min(j)).map(|k| l[i * N + k] * l[j * N + k]).sum::<i64>() };
            let mut m = Huge::with(N * N, a);
            ctx.step(|| format!("positive definite, seed {seed}"));
            ctx.state(seed as u64);
            let ok = lib(|| m.refer_mut::<N, N>().cholesky_decompose_lower());
            ensure!(ok, "a positive definite {N}x{N} matrix is reported not to be one");
            m.is(|k| l[k], "factor")?;
            ctx.outcome(seed as u64);
            // one diagonal cell too small: indefinite or singular
            for at in [0, 1, N / 2, N - 2, N - 1] {
                for less in [0, 1] {
                    ctx.step(|| format!("pivot {at} is {}, seed {seed}", -less));
                    ctx.state(mix(seed as u64, (at * 2) as u64 + less as u64 + 9));
                    let mut m = Huge::with(N * N, |k| a(k) - if k == at * N + at { l[k] * l[k] + less } else { 0 });
                    ensure!(!lib(|| m.refer_mut::<N, N>().cholesky_decompose_lower()), "a {N}x{N} matrix with pivot {at} equal to {} is reported to be positive definite", -less);
                    ctx.outcome(at as u64);
                }
            }
        }
        Ok(())
    });
}
/// A matrix with a cell that is not a number is not positive definite.
fn nans<F: Fam<T>, T: Alpha, const N: usize>(h: &mut Harness, nan: T) where T::R: Loosen {
    h.job(format!("{N}x{N} {} {} with a cell that is not a number", F::NAME, T::NAME), move |ctx| {
        let mut ar = Arena::<T>::new();
        ar.surplus = 2;
        let mut m = F::make::<N, N>(&mut ar, Role::Other(0), T::zero());
        let base: Vec<T> = (0..N).flat_map(|i| (i..N).map(move |j| if i == j { T::dy(N as i64 + 1, 1) } else { T::dy([1, -1, 0][(i + j) % 3], 2) })).collect();
        dev_flat(&base, &[nan, T::dy(-1, 1)], 2, &mut |t| {
            if !t.iter().any(|x| x.bits() == nan.bits()) {
                return Ok(());
            }
            let v = sym(N, t);
            ctx.step(|| format!("{N}x{N} {} {v:?}", T::NAME));
            ctx.state(fp(&v));
            put::<F, T, N, N>(&mut m, &v);
            ensure!(!lib(|| m.cholesky_decompose_lower()), "{v:?} is reported to be positive definite");
            ensure!(ar.tails_intact() && tail::<F, T, N, N>(&m, Role::Other(0)), "memory beyond the matrix changed");
            ctx.outcome(N as u64);
            Ok(())
        })
    });
}
fn main() {
    let mut h = Harness::new("M05");
    macro_rules! nan { ($($n:literal)*) => { $( nans::<Own, f64, $n>(&mut h, f64::NAN); nans::<Boxed, f32, $n>(&mut h, f32::NAN); )* } }
    nan!(1 2 3 4 5 6 9);
    let t = h.thorough;
    let ints = |lo: i64, hi: i64| (lo..=hi).map(|i| f64::dy(i, 1)).collect::<Vec<_>>();
    // exact
    grid::<Own, Gf<13>, 1>(&mut h, Gf::<13>::all());
    grid::<Own, Gf<13>, 2>(&mut h, Gf::<13>::all());
    grid::<Own, Gf<7>, 3>(&mut h, Gf::<7>::all());
    grid::<Own, Gf<3>, 4>(&mut h, Gf::<3>::all());
    if t {
        grid::<Own, Gf<11>, 3>(&mut h, Gf::<11>::all());
        grid::<Own, Gf<5>, 4>(&mut h, Gf::<5>::all());
        grid::<Own, Gf<3>, 5>(&mut h, Gf::<3>::all());
    }
    macro_rules! e { ($($n:literal $q:literal $th:literal),*) => { $(
        dev::<Own, Gf<3>, $n>(&mut h, 1, (0, 1), Gf::<3>::all(), if t { $th } else { $q });
        dev::<Own, Gf<11>, $n>(&mut h, 5, (1, 2), Gf::<11>::all(), if t { 2 } else { 1 });
    )* } }
    e!(4 4 5, 5 4 5, 6 3 4, 7 3 4, 8 3 3, 9 2 3, 12 2 2);
    // machine numbers
    grid::<Slice, f64, 1>(&mut h, ints(-8, 64));
    grid::<Slice, f64, 2>(&mut h, ints(-9, 9));
    grid::<Slice, f64, 3>(&mut h, ints(-3, 4));
    grid::<Boxed, f64, 3>(&mut h, vec![0.0, 1.0, 2.0, -1.0, 0.5, 1e-8]);
    grid::<Slice, f64, 4>(&mut h, if t { ints(-1, 2) } else { ints(0, 2) });
    if t {
        grid::<Arr, f64, 4>(&mut h, vec![-1.0, 0.5, 3.0]);
        grid::<Slice, f64, 5>(&mut h, vec![-0.5, 0.0, 2.0]);
    }
    grid::<Wrap, f32, 2>(&mut h, (-6..=6).map(|i| i as f32 / 2.0).collect());
    grid::<Own, f32, 3>(&mut h, vec![-1.0, 0.0, 0.5, 1.0, 3.0]);
    grid::<Arr, f32, 4>(&mut h, vec![-0.25, 1.5]);
    macro_rules! d { ($($n:literal)*) => { $(
        dev::<Slice, f64, $n>(&mut h, 1, (0, 1), f64::all(), if t { 3 } else { 2 });
        dev::<Boxed, f64, $n>(&mut h, 6, (1, 2), f64::all(), if t { 2 } else { 1 });
        dev::<Arr, f32, $n>(&mut h, 5, (-1, 2), f32::all(), if t { 2 } else { 1 });
    )* } }
    d!(1 2 3 4 5 6);
    dev::<Boxed, f64, 9>(&mut h, 3, (1, 4), f64::few(), 1);
    dev::<Boxed, f64, 12>(&mut h, 3, (1, 4), f64::few(), 1);
    macro_rules! s { ($($n:literal)*) => { $(
        scaled::<Slice, f64, $n>(&mut h, -200, 200, 4);
        scaled::<Boxed, f32, $n>(&mut h, -26, 26, 1);
        near::<Own, f64, $n>(&mut h, 48);
        near::<Own, f32, $n>(&mut h, 20);
    )* } }
    s!(1 2 3 4 5 6);
    let wide = |lo: i32, hi: i32| (lo..=hi).step_by(((hi - lo) / 8) as usize).map(|e| f64::powi(2.0, e)).chain([0.0, -1.0, -1e-9, 3.0]).collect::<Vec<_>>();
    diagonal::<Slice, f64, 2>(&mut h, wide(-200, 200));
    diagonal::<Boxed, f64, 3>(&mut h, wide(-200, 200));
    diagonal::<Own, f64, 4>(&mut h, vec![1e-100, 0.0, 3.0, 1e100, -1.0]);
    diagonal::<Arr, f32, 3>(&mut h, wide(-40, 40).iter().map(|x| *x as f32).collect());
    diagonal::<Own, f64, 6>(&mut h, vec![1e-100, 3.0, 1e100, 0.0]);
    #[cfg(feature = "fixed")]
    {
        diagonal::<Slice, I16F16, 2>(&mut h, (0..31).map(|e| I16F16::from_bits(1 << e)).chain([I16F16::MAX, I16F16::MIN, I16F16::ZERO, -I16F16::DELTA]).collect());
        diagonal::<Own, I16F16, 3>(&mut h, (0..31).step_by(3).map(|e| I16F16::from_bits(1 << e)).chain([I16F16::MAX, I16F16::MIN, I16F16::ZERO, -I16F16::DELTA]).collect());
        diagonal::<Slice, I32F32, 2>(&mut h, (0..63).map(|e| I32F32::from_bits(1 << e)).chain([I32F32::MAX, I32F32::MIN, I32F32::ZERO, -I32F32::DELTA]).collect());
        diagonal::<Own, I32F32, 3>(&mut h, (0..63).step_by(5).map(|e| I32F32::from_bits(1 << e)).chain([I32F32::MAX, I32F32::MIN, I32F32::ZERO, -I32F32::DELTA]).collect());
        grid::<Slice, I16F16, 2>(&mut h, (-4..=40).map(|i| I16F16::dy(i, 8)).collect());
        grid::<Slice, I32F32, 2>(&mut h, (-4..=40).map(|i| I32F32::dy(i, 8)).collect());
        grid::<Boxed, I16F16, 3>(&mut h, [-1, 0, 1, 4, 9].map(|i| I16F16::dy(i, 2)).to_vec());
        grid::<Own, I32F32, 3>(&mut h, [-1, 0, 1, 4, 9, 24].map(|i| I32F32::dy(i, 2)).to_vec());
        dev::<Arr, I32F32, 4>(&mut h, 6, (1, 2), I32F32::all(), 2);
        dev::<Arr, I16F16, 3>(&mut h, 6, (1, 2), I16F16::all(), 2);
        scaled::<Slice, I32F32, 3>(&mut h, -4, 4, 1);
        scaled::<Slice, I16F16, 2>(&mut h, -2, 3, 1);
        grid::<Slice, I16F16, 1>(&mut h, (-8..600).map(|i| I16F16::from_bits(i * 331)).collect());
        grid::<Slice, I32F32, 1>(&mut h, (-8..600).map(|i| I32F32::from_bits(i * 331_000_001)).collect());
    }
    huge::<9>(&mut h); huge::<16>(&mut h); huge::<17>(&mut h); huge::<24>(&mut h); huge::<33>(&mut h); huge::<65>(&mut h); huge::<130>(&mut h); huge::<260>(&mut h);
    h.run()
}
