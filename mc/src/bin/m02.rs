//! M02: sums, differences and copies.
#![allow(unused_imports)]
use mc::explore::*;
use mc::fam::*;
use mc::gf::Gf;
use mc::huge::*;
use mc::mat::*;
use mc::num::*;
use mc::points::Alpha;
use mc::*;
use minikalman::prelude::*;

fn sums<F: Fam<T>, T: Alpha, const R: usize, const C: usize>(h: &mut Harness, values: Vec<T>, depth: usize) {
    h.job(format!("sums and copies {R}x{C} {} {} up to {depth} deviations over {} values", F::NAME, T::NAME, values.len()), move |ctx| {
        let ar = &mut Arena::<T>::new();
        ar.surplus = 3;
        let mut a = F::make::<R, C>(ar, Role::Other(0), T::zero());
        let mut b = F::make::<R, C>(ar, Role::Other(1), T::zero());
        let mut c = F::make::<R, C>(ar, Role::Other(3), T::zero());
        let n = R * C;
        let mut g = 0usize;
        for seed in 0..3 {
            let base = if seed == 0 { vec![T::zero(); 2 * n] } else { distinct::<T>(2 * n, seed) };
            dev_flat(&base, &values, depth, &mut |v| {
                g += 1;
                let (va, vb) = (&v[..n], &v[n..]);
                ctx.step(|| format!("A={va:?} B={vb:?}"));
                ctx.state(fp(v));
                let (ma, mb) = (Mx::of(R, C, va), Mx::of(R, C, vb));
                let garbage: Vec<T> = (0..n).map(|i| T::garbage(g + i)).collect();
                for k in 0..8 {
                    put::<F, T, R, C>(&mut a, va);
                    put::<F, T, R, C>(&mut b, vb);
                    put::<F, T, R, C>(&mut c, &garbage);
                    #[allow(deprecated)]
                    lib(|| match k {
                        0 => a.sub(&b, &mut c),
                        1 => a.add_inplace_b(&mut b),
                        2 => a.sub_inplace_b(&mut b),
                        3 => a.add_inplace_a(&b),
                        4 => a.sub_inplace_a(&b),
                        5 => a.copy_to(&mut c),
                        6 => a.copy(&mut c),
                        _ => c.copy_from(&a),
                    });
                    let what = ["sub", "add_inplace_b", "sub_inplace_b", "add_inplace_a", "sub_inplace_a", "copy_to", "copy", "copy_from"][k];
                    let want = match k { 0 | 2 | 4 => ma.sub(&mb), 1 | 3 => ma.add(&mb), _ => ma.clone() };
                    let (sa, sb, sc) = (&a.as_slice()[..n], &b.as_slice()[..n], &c.as_slice()[..n]);
                    let got = match k { 1 | 2 => sb, 3 | 4 => sa, _ => sc };
                    if let Err(i) = agree(got, &want) {
                        return viol(format!("{what}: cell {i} is {:?}, expected {:?}", got[i], want.d[i]));
                    }
                    if k >= 5 {
                        ensure!(same(got, va), "{what} did not copy every cell as it is: {got:?}");
                    }
                    ensure!(matches!(k, 3 | 4) || same(sa, va), "{what} changed A");
                    ensure!(matches!(k, 1 | 2) || same(sb, vb), "{what} changed B");
                    ensure!(matches!(k, 0 | 5..=7) || same(sc, &garbage), "{what} changed a matrix it was not given");
                    ctx.outcome(fp(got));
                }
                ensure!(ar.tails_intact() && tail::<F, T, R, C>(&a, Role::Other(0)) && tail::<F, T, R, C>(&b, Role::Other(1)) && tail::<F, T, R, C>(&c, Role::Other(3)), "memory outside of the matrices changed");
                Ok(())
            })?;
        }
        Ok(())
    });
}
fn huge<const R: usize, const C: usize>(h: &mut Harness) {
    h.job(format!("sums and copies of {R}x{C}"), move |ctx| {
        let n = R * C;
        for seed in 0..2 {
            let (mut a, mut b, mut c) = (Huge::new(n, seed), Huge::new(n, seed + 9), Huge::with(n, |_| 55));
            for k in 0..7 {
                ctx.step(|| format!("operation {k}"));
                ctx.state(mix(seed as u64, k as u64));
                { a.reset(); b.reset(); c.reset(); }
                lib(|| match k {
                    0 => a.refer::<R, C>().sub(&b.refer::<R, C>(), &mut c.refer_mut::<R, C>()),
                    1 => a.refer::<R, C>().add_inplace_b(&mut b.refer_mut::<R, C>()),
                    2 => a.refer::<R, C>().sub_inplace_b(&mut b.refer_mut::<R, C>()),
                    3 => a.refer_mut::<R, C>().add_inplace_a(&b.refer::<R, C>()),
                    4 => a.refer_mut::<R, C>().sub_inplace_a(&b.refer::<R, C>()),
                    5 => a.refer::<R, C>().copy_to(&mut c.refer_mut::<R, C>()),
                    _ => c.refer_mut::<R, C>().copy_from(&a.refer_mut::<R, C>()),
                });
                let what = ["sub", "add_inplace_b", "sub_inplace_b", "add_inplace_a", "sub_inplace_a", "copy_to", "copy_from"][k];
                let w = |i: usize| match k { 0 | 2 | 4 => a.v[i] - b.v[i], 1 | 3 => a.v[i] + b.v[i], _ => a.v[i] };
                match k { 1 | 2 => &b, 3 | 4 => &a, _ => &c }.is(w, what)?;
                if !matches!(k, 3 | 4) { a.unchanged(&format!("{what}, first operand"))?; }
                if !matches!(k, 1 | 2) { b.unchanged(&format!("{what}, second operand"))?; }
                if matches!(k, 1..=4) { c.unchanged(&format!("{what}, unrelated matrix"))?; }
                ctx.outcome(mix(k as u64, 7));
            }
        }
        Ok(())
    });
}
fn main() {
    let mut h = Harness::new("M02");
    let t = h.thorough;
    macro_rules! all { ($($r:literal)*; $c:tt) => { $( all!(@1 $r; $c); )* };
        (@1 $r:literal; ($($c:literal)*)) => { $( s!($r, $c); )* } }
    macro_rules! s { ($r:literal, $c:literal) => {{
        sums::<Own, Gf<3>, $r, $c>(&mut h, Gf::<3>::all(), if t { 3 } else { 2 });
        sums::<Slice, f64, $r, $c>(&mut h, f64::all(), 1);
        sums::<Boxed, f32, $r, $c>(&mut h, f32::few(), 1);
        sums::<Arr, f64, $r, $c>(&mut h, f64::few(), if t { 2 } else { 1 });
        sums::<Wrap, f64, $r, $c>(&mut h, f64::few(), 1);
        #[cfg(feature = "fixed")]
        sums::<Slice, I16F16, $r, $c>(&mut h, I16F16::all(), 1);
    }} }
    all!(1 2 3 4 5 6; (1 2 3 4 5 6));
    s!(0, 0); s!(0, 3); s!(4, 0); s!(1, 9); s!(9, 1); s!(8, 8); s!(7, 2); s!(2, 7); s!(1, 16); s!(16, 1); s!(8, 9); s!(1, 33); s!(17, 3);
    #[cfg(feature = "fixed")]
    { sums::<Own, I32F32, 3, 2>(&mut h, I32F32::all(), 2); }
    huge::<260, 260>(&mut h); huge::<17, 17>(&mut h); huge::<1, 66000>(&mut h); huge::<66000, 1>(&mut h); huge::<3, 22001>(&mut h); huge::<64, 65>(&mut h); huge::<257, 255>(&mut h);
    h.job("the empty matrix", |ctx| {
        for _ in 0..2 {
            ctx.step(|| "copying the empty matrix".into());
            let (a, mut b, mut c) = (MatrixData::empty::<f64>(), MatrixData::empty::<f64>(), MatrixData::empty::<f64>());
            lib(|| { a.copy_to(&mut b); c.copy_from(&b); a.sub(&b, &mut c); a.add_inplace_b(&mut b); a.sub_inplace_b(&mut b); c.add_inplace_a(&a); c.sub_inplace_a(&a); });
            ctx.state(0);
            ctx.outcome(b.as_slice().len() as u64);
            ensure!(a.is_empty() && a.len() == 0 && a.is_valid(), "the empty matrix is not empty");
        }
        Ok(())
    });
    h.run()
}
use minikalman::matrix::MatrixData;
