//! M01: matrix products.
#![allow(unused_imports)]
use mc::explore::*;
use mc::fam::*;
use mc::gf::Gf;
use mc::huge::*;
use mc::mat::*;
use mc::num::*;
use mc::points::Alpha;
use mc::*;
use minikalman::prelude::*;

fn prod<F: Fam<T>, T: Alpha, const R: usize, const C: usize, const U: usize>(h: &mut Harness, values: Vec<T>, dense: bool, depth: usize) {
    let name = format!("products {R}x{C} by {C}x{U} {} {} up to {depth} deviations from {} over {} values", F::NAME, T::NAME, if dense { "dense" } else { "zero" }, values.len());
    h.job(name, move |ctx| {
        let ar = &mut Arena::<T>::new();
        ar.surplus = 3;
        let mut a = F::make::<R, C>(ar, Role::Other(0), T::zero());
        let mut b = F::make::<C, U>(ar, Role::Other(1), T::zero());
        let mut bt = F::make::<U, C>(ar, Role::Other(2), T::zero());
        let mut c = F::make::<R, U>(ar, Role::Other(3), T::zero());
        let mut x = F::make::<C, 1>(ar, Role::Other(4), T::zero());
        let mut y = F::make::<R, 1>(ar, Role::Other(5), T::zero());
        let (na, nb, nc) = (R * C, C * U, R * U);
        let mut base = if dense { distinct::<T>(na + nb + nc + 1, 1) } else { vec![T::zero(); na + nb + nc + 1] };
        if !dense {
            base[na + nb + nc] = T::one();
        }
        let mut g = 0usize;
        dev_flat(&base, &values, depth, &mut |v| {
            g += 1;
            let (va, vb, vc, s) = (&v[..na], &v[na..na + nb], &v[na + nb..na + nb + nc], v[na + nb + nc]);
            ctx.step(|| format!("A={va:?} B={vb:?} C={vc:?} scale={s:?}"));
            ctx.state(fp(v));
            let (ma, mb, mcx) = (Mx::of(R, C, va), Mx::of(C, U, vb), Mx::of(R, U, vc));
            let want = ma.mul(&mb);
            let mut vbt = vec![T::zero(); nb];
            for i in 0..C {
                for j in 0..U {
                    vbt[j * C + i] = vb[i * U + j];
                }
            }
            put::<F, T, R, C>(&mut a, va);
            put::<F, T, C, U>(&mut b, vb);
            put::<F, T, U, C>(&mut bt, &vbt);
            let garbage: Vec<T> = (0..nc).map(|i| T::garbage(g + i)).collect();
            let mut aux = vec![T::garbage(g); C];
            let variants: &[u8] = if U == 1 { &[0, 1, 2, 3, 4, 5, 6] } else { &[0, 1, 2, 3, 4] };
            for &k in variants {
                let accumulate = matches!(k, 3 | 6);
                let start = if accumulate { vc } else { &garbage[..] };
                if k < 5 {
                    put::<F, T, R, U>(&mut c, start);
                } else {
                    put::<F, T, R, 1>(&mut y, start);
                    put::<F, T, C, 1>(&mut x, vb);
                }
                lib(|| match k {
                    0 => a.mult(&b, &mut c),
                    1 => a.mult_buffered(&b, &mut c, &mut aux),
                    2 => a.mult_transb(&bt, &mut c),
                    3 => a.multadd_transb(&bt, &mut c),
                    4 => a.multscale_transb(&bt, s, &mut c),
                    5 => a.mult_rowvector(&x, &mut y),
                    _ => a.multadd_rowvector(&x, &mut y),
                });
                let w = match k {
                    3 | 6 => mcx.add(&want),
                    4 => want.scale(s.to_ref()),
                    _ => want.clone(),
                };
                let got: Vec<T> = if k < 5 { c.as_slice()[..nc].to_vec() } else { y.as_slice()[..R].to_vec() };
                let what = ["mult", "mult_buffered", "mult_transb", "multadd_transb", "multscale_transb", "mult_rowvector", "multadd_rowvector"][k as usize];
                if let Err(i) = agree(&got, &w) {
                    return viol(format!("{what}: cell {i} is {:?}, expected {:?}", got[i], w.d[i]));
                }
                ensure!(same(&a.as_slice()[..na], va), "{what} changed its first operand");
                ensure!(same(&b.as_slice()[..nb], vb) && same(&bt.as_slice()[..nb], &vbt) && (k < 5 || same(&x.as_slice()[..C], vb)), "{what} changed its second operand");
                ctx.outcome(fp(&got));
            }
            ensure!(ar.tails_intact() && tail::<F, T, R, C>(&a, Role::Other(0)) && tail::<F, T, C, U>(&b, Role::Other(1)) && tail::<F, T, U, C>(&bt, Role::Other(2)) && tail::<F, T, R, U>(&c, Role::Other(3)) && tail::<F, T, C, 1>(&x, Role::Other(4)) && tail::<F, T, R, 1>(&y, Role::Other(5)), "memory outside of the matrices changed");
            Ok(())
        })
    });
}
/// Larger shapes: dense operands and every single deviation from them.
fn wide<const R: usize, const C: usize, const U: usize>(h: &mut Harness) {
    prod::<Own, Gf<997>, R, C, U>(h, vec![Gf::new(500)], true, 1);
}
fn wide_machine<const R: usize, const C: usize, const U: usize>(h: &mut Harness) {
    prod::<Slice, f64, R, C, U>(h, vec![9.0], true, 1);
    prod::<Boxed, f32, R, C, U>(h, vec![9.0], true, 1);
}

/// Magnitudes: each operand alone and both, at powers of two.
fn scales<F: Fam<T>, T: Alpha, const R: usize, const C: usize, const U: usize>(h: &mut Harness, lo: i32, hi: i32) {
    h.job(format!("products {R}x{C} by {C}x{U} {} {} at magnitudes 2^{lo}..2^{hi}", F::NAME, T::NAME), move |ctx| {
        let ar = &mut Arena::<T>::new();
        let mut a = F::make::<R, C>(ar, Role::Other(0), T::zero());
        let mut b = F::make::<C, U>(ar, Role::Other(1), T::zero());
        let mut bt = F::make::<U, C>(ar, Role::Other(2), T::zero());
        let mut c = F::make::<R, U>(ar, Role::Other(3), T::zero());
        let mut d = F::make::<R, U>(ar, Role::Other(3), T::zero());
        let p2 = |e: i32| if e >= 0 { T::dy(1i64 << e, 1) } else { T::dy(1, 1i64 << -e) };
        let vc = distinct::<T>(R * U, 5);
        for e in lo..=hi {
            for f in lo..=hi {
                for one in [false, true] {
                    // all cells, or just the first cell of each, at that magnitude
                    let mut va = distinct::<T>(R * C, 2);
                    let mut vb = distinct::<T>(C * U, 3);
                    for (i, x) in va.iter_mut().enumerate() {
                        if !one || i == R * C / 2 { *x = *x * p2(e); }
                    }
                    for (i, x) in vb.iter_mut().enumerate() {
                        if !one || i == C * U / 2 { *x = *x * p2(f); }
                    }
                    ctx.step(|| format!("A={va:?} B={vb:?}"));
                    ctx.state(mix(fp(&va), fp(&vb)));
                    let mut vbt = vec![T::zero(); C * U];
                    for i in 0..C { for j in 0..U { vbt[j * C + i] = vb[i * U + j]; } }
                    let want = Mx::of(R, C, &va).mul(&Mx::of(C, U, &vb));
                    put::<F, T, R, C>(&mut a, &va);
                    put::<F, T, C, U>(&mut b, &vb);
                    put::<F, T, U, C>(&mut bt, &vbt);
                    for k in 0..5 {
                        put::<F, T, R, U>(&mut c, &vc);
                        let mut aux = [T::garbage(1); C];
                        lib(|| match k {
                            0 => a.mult(&b, &mut c),
                            1 => a.mult_buffered(&b, &mut c, &mut aux),
                            2 => a.mult_transb(&bt, &mut c),
                            3 => a.multadd_transb(&bt, &mut c),
                            _ => a.multscale_transb(&bt, T::dy(3, 2), &mut c),
                        });
                        let w = match k { 3 => Mx::of(R, U, &vc).add(&want), 4 => want.scale(T::dy(3, 2).to_ref()), _ => want.clone() };
                        if let Err(i) = agree(&c.as_slice()[..R * U], &w) {
                            return viol(format!("variant {k}: cell {i} is {:?}, expected {:?}", c.as_slice()[i], w.d[i]));
                        }
                        ctx.outcome(fp(&c.as_slice()[..R * U]));
                    }
                    let _ = &mut d;
                }
            }
        }
        Ok(())
    });
}

/// More cells than narrow indices can name; products with a sparse and with a dense second operand.
fn huge<const R: usize, const C: usize, const U: usize>(h: &mut Harness) {
    h.job(format!("products {R}x{C} by {C}x{U} over integers"), move |ctx| {
        let a = Huge::new(R * C, 1);
        let mut c = Huge::new(R * U, 3);
        for dense in [false, true] {
            // sparse: one cell per column, every row is hit
            let f = |i: usize| { let (r, u) = (i / U, i % U); if dense { cell(i, 2) } else if r == (u * 7 + C - 1) % C { 1 + (u % 5) as i64 } else { 0 } };
            let b = Huge::with(C * U, f);
            let bt = Huge::with(C * U, |i| f((i % C) * U + i / C));
            let mut want = vec![0i64; R * U];
            for r in 0..R { for k in 0..C { let x = a.v[r * C + k]; for u in 0..U { want[r * U + u] += x * b.v[k * U + u]; } } }
            for k in 0..5 {
                ctx.step(|| format!("product {k}, second operand {}", if dense { "dense" } else { "sparse" }));
                ctx.state(mix(k, dense as u64));
                c.reset();
                let mut aux = vec![-1.0; C];
                lib(|| match k {
                    0 => a.refer::<R, C>().mult(&b.refer::<C, U>(), &mut c.refer_mut::<R, U>()),
                    1 => a.refer::<R, C>().mult_buffered(&b.refer::<C, U>(), &mut c.refer_mut::<R, U>(), &mut aux),
                    2 => a.refer::<R, C>().mult_transb(&bt.refer::<U, C>(), &mut c.refer_mut::<R, U>()),
                    3 => a.refer::<R, C>().multadd_transb(&bt.refer::<U, C>(), &mut c.refer_mut::<R, U>()),
                    _ => a.refer::<R, C>().multscale_transb(&bt.refer::<U, C>(), 3.0, &mut c.refer_mut::<R, U>()),
                });
                let what = ["mult", "mult_buffered", "mult_transb", "multadd_transb", "multscale_transb"][k as usize];
                c.is(|i| match k { 3 => c.v[i] + want[i], 4 => 3 * want[i], _ => want[i] }, what)?;
                a.unchanged(&format!("{what}, first operand"))?;
                b.unchanged(&format!("{what}, second operand"))?;
                bt.unchanged(&format!("{what}, second operand"))?;
                ctx.outcome(mix(k, dense as u64));
            }
        }
        let (x, mut y) = (Huge::new(C, 5), Huge::new(R, 6));
        for k in 0..2 {
            ctx.step(|| format!("vector product {k}"));
            ctx.state(k + 77);
            y.reset();
            lib(|| if k == 0 { a.refer::<R, C>().mult_rowvector(&x.refer::<C, 1>(), &mut y.refer_mut::<R, 1>()) } else { a.refer::<R, C>().multadd_rowvector(&x.refer::<C, 1>(), &mut y.refer_mut::<R, 1>()) });
            y.is(|i| (0..C).map(|j| a.v[i * C + j] * x.v[j]).sum::<i64>() + if k == 1 { y.v[i] } else { 0 }, ["mult_rowvector", "multadd_rowvector"][k as usize])?;
            a.unchanged("vector product, matrix")?;
            x.unchanged("vector product, vector")?;
            ctx.outcome(k + 77);
        }
        Ok(())
    });
}
fn main() {
    let mut h = Harness::new("M01");
    let t = h.thorough;
    macro_rules! all { ($f:ident; $($r:literal)*; $c:tt; $u:tt) => { $( all!(@1 $f; $r; $c; $u); )* };
        (@1 $f:ident; $r:literal; ($($c:literal)*); $u:tt) => { $( all!(@2 $f; $r; $c; $u); )* };
        (@2 $f:ident; $r:literal; $c:literal; ($($u:literal)*)) => { $( $f!($r, $c, $u); )* } }
    macro_rules! ex { ($r:literal, $c:literal, $u:literal) => {{
        let cells = $r * $c + $c * $u + $r * $u;
        prod::<Own, Gf<3>, $r, $c, $u>(&mut h, Gf::<3>::all(), false, if t { if cells <= 27 { 4 } else if cells <= 75 { 3 } else { 2 } } else if cells <= 27 { 3 } else { 2 });
        prod::<Own, Gf<3>, $r, $c, $u>(&mut h, Gf::<3>::all(), true, if t { 2 } else { 1 });
    }} }
    all!(ex; 1 2 3 4 5; (1 2 3 4 5); (1 2 3 4 5));
    // operands without rows, columns or inner dimension
    ex!(0, 0, 0); ex!(0, 2, 3); ex!(2, 0, 3); ex!(2, 3, 0); ex!(0, 2, 1); ex!(2, 0, 1); ex!(0, 0, 1); ex!(1, 0, 1); ex!(0, 0, 2); ex!(2, 0, 0);
    ex!(6, 6, 6); ex!(7, 3, 2); ex!(2, 7, 3); ex!(3, 2, 7); ex!(8, 1, 8); ex!(1, 8, 1); ex!(8, 8, 1); ex!(1, 9, 4); ex!(9, 2, 1); ex!(4, 8, 5); ex!(2, 16, 2); ex!(16, 2, 2); ex!(2, 2, 16); ex!(9, 9, 9);
    macro_rules! ma { ($r:literal, $c:literal, $u:literal) => {{
        prod::<Slice, f64, $r, $c, $u>(&mut h, f64::all(), true, 1);
        prod::<Slice, f64, $r, $c, $u>(&mut h, f64::few(), false, if $r * $c + $c * $u <= 12 || t { 2 } else { 1 });
    }} }
    all!(ma; 1 2 3 4; (1 2 3 4); (1 2 3 4));
    ma!(2, 0, 3); ma!(2, 0, 1); ma!(0, 3, 1); ma!(3, 2, 0);
    ma!(6, 6, 6); ma!(5, 2, 3); ma!(1, 8, 1); ma!(2, 5, 1); ma!(9, 8, 7);
    macro_rules! other { ($($f:ty, $t:ty, $r:literal $c:literal $u:literal;)*) => { $(
        prod::<$f, $t, $r, $c, $u>(&mut h, <$t>::all(), true, if t { 2 } else { 1 });
        prod::<$f, $t, $r, $c, $u>(&mut h, <$t>::few(), false, 2);
    )* } }
    other!(Boxed, f32, 1 1 1; Arr, f32, 2 3 1; Wrap, f32, 3 2 4; Own, f32, 4 4 4; Slice, f32, 5 1 2; Boxed, f64, 3 3 3; Arr, f64, 2 4 3; Wrap, f64, 4 2 1;);
    #[cfg(feature = "fixed")]
    other!(Boxed, I16F16, 2 2 2; Slice, I16F16, 3 2 1; Arr, I32F32, 2 3 4; Wrap, I32F32, 1 4 1;);
    // every inner dimension up to 36, and the same for rows and columns
    macro_rules! lens { ($($n:literal)*) => { $( wide::<2, $n, 3>(&mut h); wide::<$n, 2, 2>(&mut h); wide::<2, 3, $n>(&mut h); )* } }
    lens!(9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 48 63 64 65);
    wide_machine::<2, 12, 2>(&mut h); wide_machine::<13, 2, 2>(&mut h); wide_machine::<2, 17, 1>(&mut h); wide_machine::<3, 2, 16>(&mut h); wide_machine::<2, 33, 2>(&mut h); wide_machine::<9, 16, 9>(&mut h);
    wide::<1, 13, 1>(&mut h); wide::<1, 16, 1>(&mut h); wide::<4, 21, 1>(&mut h); wide::<1, 33, 1>(&mut h); wide::<10, 10, 10>(&mut h); wide::<12, 12, 12>(&mut h); wide::<16, 16, 16>(&mut h); wide::<17, 17, 17>(&mut h);
    scales::<Own, f64, 1, 1, 1>(&mut h, -60, 60);
    scales::<Own, f64, 2, 2, 2>(&mut h, -60, 60);
    scales::<Own, f64, 3, 4, 1>(&mut h, -60, 60);
    scales::<Own, f64, 4, 5, 3>(&mut h, -60, 60);
    scales::<Own, f32, 2, 3, 2>(&mut h, -50, 50);
    scales::<Own, f32, 1, 6, 4>(&mut h, -50, 50);
    #[cfg(feature = "fixed")]
    scales::<Own, I32F32, 3, 2, 3>(&mut h, -20, 8);
    huge::<260, 260, 2>(&mut h); huge::<2, 260, 260>(&mut h); huge::<260, 2, 260>(&mut h); huge::<17, 17, 17>(&mut h); huge::<130, 131, 129>(&mut h); huge::<1, 66000, 1>(&mut h); huge::<33000, 2, 2>(&mut h); huge::<2, 2, 33000>(&mut h); huge::<257, 256, 5>(&mut h);
    h.run()
}
