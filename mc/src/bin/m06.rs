//! M06: inversion from a Cholesky factor.
#![allow(unused_imports)]
use mc::explore::*;
use mc::fam::*;
use mc::gf::Gf;
use mc::huge::*;
use mc::mat::*;
use mc::num::*;
use mc::points::Alpha;
use mc::*;
use minikalman::matrix::*;
use minikalman::prelude::*;
/// One inversion of L L' from L.
fn one<F: Fam<T>, T: Alpha, const N: usize>(ctx: &mut Ctx, ar: &Arena<T>, m: &mut F::M<N, N>, inv: &mut F::M<N, N>, l: &[T], g: usize) -> Res {
    ctx.step(|| format!("{N}x{N} {} L={l:?}", T::NAME));
    ctx.state(fp(l));
    let lx = Mx::of(N, N, l);
    let a = lx.mul(&lx.t());
    let want = match a.inv() {
        Some(w) => w,
        None => {
            ctx.skipped += 1;
            return Ok(());
        }
    };
    put::<F, T, N, N>(m, l);
    let garbage: Vec<T> = (0..N * N).map(|i| T::garbage(g + i * (g & 1))).collect();
    put::<F, T, N, N>(inv, &garbage);
    lib(|| m.invert_l_cholesky(inv));
    let got = inv.as_slice()[..N * N].to_vec();
    ensure!(same(&m.as_slice()[..N * N], l), "the factor was changed to {:?}", &m.as_slice()[..N * N]);
    ensure!(ar.tails_intact() && tail::<F, T, N, N>(m, Role::Other(0)) && tail::<F, T, N, N>(inv, Role::Other(1)), "memory beyond the matrices changed");
    for i in 0..N {
        for j in 0..i {
            ensure!(got[i * N + j].bits() == got[j * N + i].bits(), "cells ({i},{j}) and ({j},{i}) of the inverse differ: {got:?}");
        }
    }
    if let Err(i) = agree(&got, &want) {
        return viol(format!("cell {i} of the inverse is {:?}, expected {:?}: {got:?}", got[i], want.d[i]));
    }
    ctx.outcome(fp(&got));
    Ok(())
}
fn lower<T: Sc>(n: usize, t: &[T]) -> Vec<T> {
    let mut o = vec![T::zero(); n * n];
    let mut k = 0;
    for i in 0..n {
        for j in 0..=i {
            o[i * n + j] = t[k];
            k += 1;
        }
    }
    o
}
fn usable<T: Sc>(n: usize, l: &[T]) -> bool {
    (0..n).all(|i| l[i * n + i] > T::zero())
}
fn grid<F: Fam<T>, T: Alpha, const N: usize>(h: &mut Harness, values: Vec<T>) {
    let vars = N * (N + 1) / 2;
    h.job(format!("all factors {N}x{N} {} {} over {} values", F::NAME, T::NAME, values.len()), move |ctx| {
        let mut ar = Arena::<T>::new();
        ar.surplus = 2;
        let mut m = F::make::<N, N>(&mut ar, Role::Other(0), T::zero());
        let mut v = F::make::<N, N>(&mut ar, Role::Other(1), T::zero());
        let mut g = 0;
        grid_flat(vars, &values, &mut |t| {
            let l = lower(N, t);
            if !usable(N, &l) { return Ok(()); }
            g += 1;
            one::<F, T, N>(ctx, &ar, &mut m, &mut v, &l, g)
        })
    });
}
fn dev<F: Fam<T>, T: Alpha, const N: usize>(h: &mut Harness, dense: bool, values: Vec<T>, depth: usize) {
    h.job(format!("factors {N}x{N} {} {} up to {depth} deviations from {} over {} values", F::NAME, T::NAME, if dense { "dense" } else { "identity" }, values.len()), move |ctx| {
        let mut ar = Arena::<T>::new();
        ar.surplus = 2;
        let mut m = F::make::<N, N>(&mut ar, Role::Other(0), T::zero());
        let mut v = F::make::<N, N>(&mut ar, Role::Other(1), T::zero());
        let mut base = vec![];
        for i in 0..N {
            for j in 0..=i {
                base.push(if i == j { T::dy(if dense { 1 + (i as i64 % 2) } else { 1 }, 1) } else if dense { T::dy([1, -1, 3][(i + 2 * j) % 3], 4) } else { T::zero() });
            }
        }
        let mut g = 0;
        dev_flat(&base, &values, depth, &mut |t| {
            let l = lower(N, t);
            if !usable(N, &l) { return Ok(()); }
            g += 1;
            one::<F, T, N>(ctx, &ar, &mut m, &mut v, &l, g)
        })
    });
}
/// D L for diagonal powers of two D, and L with one tiny pivot.
fn scaled<F: Fam<T>, T: Alpha, const N: usize>(h: &mut Harness, lo: i32, hi: i32) {
    h.job(format!("factors {N}x{N} {} {} scaled by 2^{lo}..2^{hi}", F::NAME, T::NAME), move |ctx| {
        let mut ar = Arena::<T>::new();
        let mut m = F::make::<N, N>(&mut ar, Role::Other(0), T::zero());
        let mut v = F::make::<N, N>(&mut ar, Role::Other(1), T::zero());
        let pow = |e: i32| if e > 0 { T::dy(1 << e, 1) } else { T::dy(1, 1 << -e) };
        let mut g = 0;
        for e in lo..=hi {
            for which in 0..=N + 1 {
                for rows in [true, false] {
                    let mut l = vec![T::zero(); N * N];
                    for i in 0..N {
                        let d = if which == 0 || which == i + 1 { pow(e) } else if which == N + 1 { pow(if i % 2 == 0 { e } else { -e }) } else { T::one() };
                        for j in 0..=i {
                            let x = T::dy(if i == j { 2 } else { [1, -1, 3][(i + j) % 3] }, if i == j { 1 } else { 4 });
                            l[i * N + j] = if rows || i == j { x * d } else { x };
                        }
                    }
                    if !usable(N, &l) { continue; }
                    g += 1;
                    one::<F, T, N>(ctx, &ar, &mut m, &mut v, &l, g)?;
                }
            }
        }
        Ok(())
    });
}
/// Decompose, then invert: the inverse of the original matrix.
fn chained<F: Fam<T>, T: Alpha, const N: usize>(h: &mut Harness, values: Vec<T>, depth: usize) {
    h.job(format!("decompose and invert {N}x{N} {} {} up to {depth} deviations, {} values", F::NAME, T::NAME, values.len()), move |ctx| {
        let mut ar = Arena::<T>::new();
        ar.surplus = 2;
        let mut m = F::make::<N, N>(&mut ar, Role::Other(0), T::zero());
        let mut inv = F::make::<N, N>(&mut ar, Role::Other(1), T::zero());
        let mut base = vec![];
        for i in 0..N {
            for j in i..N {
                base.push(if i == j { T::dy(4 + (i as i64 % 3), 1) } else { T::dy([1, -1, 3][(i + j) % 3], 4) });
            }
        }
        let mut g = 0;
        dev_flat(&base, &values, depth, &mut |t| {
            let v = sym(N, t);
            let a = Mx::of(N, N, &v);
            g += 1;
            ctx.step(|| format!("{N}x{N} {} {v:?}", T::NAME));
            let (Some(true), Some(want)) = (a.posdef(), a.inv()) else { ctx.skipped += 1; return Ok(()) };
            ctx.state(fp(&v));
            put::<F, T, N, N>(&mut m, &v);
            for i in 0..N * N { inv.as_mut_slice()[i] = T::garbage(g + i); }
            ensure!(lib(|| m.cholesky_decompose_lower()), "positive definite input rejected");
            lib(|| m.invert_l_cholesky(&mut inv));
            let got = inv.as_slice()[..N * N].to_vec();
            if let Err(i) = agree(&got, &want) {
                return viol(format!("cell {i} of the inverse is {:?}, expected {:?}: {got:?}", got[i], want.d[i]));
            }
            ctx.outcome(fp(&got));
            Ok(())
        })
    });
}
/// Large factors of integers with unit diagonal, in three blocks so that the inverse stays small.
fn huge<const N: usize>(h: &mut Harness) {
    h.job(format!("inversion of {N}x{N} over integers"), move |ctx| {
        for seed in 0..3 {
            let l: Vec<i64> = (0..N * N).map(|k| { let (i, j) = (k / N, k % N); if i == j { 1 } else if i > j && (i * 3 / N != j * 3 / N || seed == 2 && i == j + 1 && i % 2 == 1) { cell(k, seed) % 2 } else { 0 } }).collect();
            // M = L^-1 by forward substitution, the inverse is MᵀM
            let mut m = vec![0i64; N * N];
            for i in 0..N { for j in 0..=i { m[i * N + j] = (i == j) as i64 - (j..i).map(|k| l[i * N + k] * m[k * N + j]).sum::<i64>(); } }
            let lm = Huge::with(N * N, |k| l[k]);
            let mut inv = Huge::new(N * N, seed);
            ctx.step(|| format!("seed {seed}"));
            ctx.state(seed as u64);
            lib(|| lm.refer::<N, N>().invert_l_cholesky(&mut inv.refer_mut::<N, N>()));
            inv.is(|k| { let (i, j) = (k / N, k % N); (i.max(j)..N).map(|k| m[k * N + i] * m[k * N + j]).sum() }, "inverse")?;
            lm.unchanged("the factor")?;
            ctx.outcome(seed as u64);
        }
        Ok(())
    });
}
fn main() {
    let mut h = Harness::new("M06");
    let t = h.thorough;
    grid::<Own, Gf<13>, 1>(&mut h, Gf::<13>::all());
    grid::<Own, Gf<13>, 2>(&mut h, Gf::<13>::all());
    grid::<Own, Gf<7>, 3>(&mut h, Gf::<7>::all());
    grid::<Own, Gf<3>, 4>(&mut h, Gf::<3>::all());
    if t {
        grid::<Own, Gf<11>, 3>(&mut h, Gf::<11>::all());
        grid::<Own, Gf<5>, 4>(&mut h, Gf::<5>::all());
        grid::<Own, Gf<3>, 5>(&mut h, Gf::<3>::all());
    }
    macro_rules! e { ($($n:literal $q:literal $th:literal),*) => { $(
        dev::<Own, Gf<3>, $n>(&mut h, false, Gf::<3>::all(), if t { $th } else { $q });
        dev::<Own, Gf<11>, $n>(&mut h, true, Gf::<11>::all(), if t { 2 } else { 1 });
        chained::<Own, Gf<13>, $n>(&mut h, Gf::<13>::all(), if t { 2 } else { 1 });
    )* } }
    e!(2 3 3, 3 4 6, 4 4 5, 5 4 4, 6 3 4, 7 3 3, 8 2 3, 9 2 2, 12 1 2);
    grid::<Slice, f64, 1>(&mut h, (1..200).map(|i| i as f64 / 7.0).collect());
    grid::<Slice, f64, 2>(&mut h, (-8..=16).map(|i| i as f64 / 4.0).collect());
    grid::<Boxed, f64, 3>(&mut h, vec![-1.5, 0.0, 0.25, 1.0, 3.0]);
    grid::<Arr, f64, 4>(&mut h, vec![-0.5, 1.0, 3.0]);
    grid::<Wrap, f32, 2>(&mut h, (-8..=16).map(|i| i as f32 / 4.0).collect());
    grid::<Own, f32, 3>(&mut h, vec![-1.5, 0.0, 0.25, 1.0, 3.0]);
    macro_rules! d { ($($n:literal)*) => { $(
        dev::<Slice, f64, $n>(&mut h, true, f64::few(), if t { 3 } else { 2 });
        dev::<Boxed, f32, $n>(&mut h, true, f32::few(), 2);
        chained::<Arr, f64, $n>(&mut h, vec![0.0, 1.0, -1.5, 20.0, 0.1], if t { 3 } else { 2 });
        chained::<Wrap, f32, $n>(&mut h, vec![0.0, 1.0, -1.5, 20.0, 0.1], 2);
        scaled::<Own, f64, $n>(&mut h, -60, 60);
        scaled::<Own, f32, $n>(&mut h, -14, 14);
    )* } }
    d!(1 2 3 4 5 6);
    dev::<Slice, f64, 9>(&mut h, true, f64::few(), 1);
    chained::<Slice, f64, 9>(&mut h, vec![0.0, 1.0, -1.5, 20.0, 0.1], 1);
    #[cfg(feature = "fixed")]
    {
        grid::<Slice, I16F16, 1>(&mut h, (1..200).map(|i| I16F16::dy(i, 16)).collect());
        grid::<Slice, I16F16, 2>(&mut h, [-2, 0, 1, 2, 4, 6, 9].map(|i| I16F16::dy(i, 2)).to_vec());
        grid::<Boxed, I32F32, 2>(&mut h, [-2, 0, 1, 2, 4, 6, 9].map(|i| I32F32::dy(i, 2)).to_vec());
        grid::<Own, I32F32, 3>(&mut h, [-1, 0, 1, 2, 5].map(|i| I32F32::dy(i, 2)).to_vec());
        chained::<Arr, I32F32, 3>(&mut h, I32F32::few(), 2);
        chained::<Arr, I16F16, 2>(&mut h, I16F16::few(), 2);
    }
    huge::<9>(&mut h); huge::<16>(&mut h); huge::<17>(&mut h); huge::<24>(&mut h); huge::<33>(&mut h); huge::<65>(&mut h); huge::<130>(&mut h); huge::<260>(&mut h);
    macro_rules! g { ($($n:literal)*) => { $( dev::<Own, Gf<997>, $n>(&mut h, true, vec![Gf::new(500)], 1); )* } }
    g!(10 11 13 14 15 16 17 18 20 24 25);
    h.run()
}
