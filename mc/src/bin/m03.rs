//! M03: element, row and column access.
#![allow(unused_imports)]
use mc::explore::*;
use mc::fam::*;
use mc::gf::Gf;
use mc::huge::*;
use mc::mat::*;
use mc::num::*;
use mc::points::Alpha;
use mc::*;
use minikalman::matrix::*;
use minikalman::prelude::*;
/// Every read accessor on a matrix whose cells are all different.
fn reads<T: Sc, M: Matrix<R, C, T>, const R: usize, const C: usize>(ctx: &mut Ctx, m: &M, v: &[T], what: &str) -> Res {
    let n = R * C;
    ctx.step(|| format!("reading {R}x{C} {what}: {v:?}"));
    ctx.state(mix(fp(v), (R * 64 + C) as u64));
    ensure!(lib(|| (m.rows(), m.cols(), m.len(), m.is_empty(), m.is_valid())) == (R, C, n, n == 0, true), "{what}: dimensions of a {R}x{C} matrix are reported as {:?}", (m.rows(), m.cols(), m.len(), m.is_empty(), m.is_valid()));
    ensure!(lib(|| m.buffer_len()) >= n && m.buffer_len() == m.as_slice().len(), "{what}: buffer_len");
    ensure!(same(&m.as_slice()[..n], &v[..n]), "{what}: as_slice is {:?}, expected {v:?}", &m.as_slice()[..n]);
    ensure!(lib(|| m.inspect(|m| m.as_slice()[..n].iter().map(|x| x.bits()).fold(1, mix))) == v[..n].iter().map(|x| x.bits()).fold(1, mix), "{what}: inspect");
    for r in 0..R {
        for c in 0..C {
            let w = v[r * C + c].bits();
            ensure!(lib(|| m.get(r, c)).bits() == w, "{what}: get({r},{c}) is {:?}", m.get(r, c));
            ensure!(lib(|| m.get_at(r, c)).bits() == w, "{what}: get_at({r},{c}) is {:?}", m.get_at(r, c));
            ensure!(lib(|| m[r * C + c]).bits() == w, "{what}: [{}] is {:?}", r * C + c, m[r * C + c]);
            ctx.outcome(mix(w, (r * 64 + c) as u64));
        }
    }
    let canary = T::garbage(2);
    ctx.outcome(n as u64);
    for r in 0..R {
        for extra in [0, 2] {
            let mut o = vec![canary; C + extra];
            lib(|| m.get_row_copy(r, &mut o));
            ensure!(same(&o[..C], &v[r * C..r * C + C]), "{what}: get_row_copy({r}) gave {:?}, expected {:?}", &o[..C], &v[r * C..r * C + C]);
            ensure!(o[C..].iter().all(|x| x.bits() == canary.bits()), "{what}: get_row_copy({r}) wrote beyond the row");
        }
    }
    for c in 0..C {
        for extra in [0, 2] {
            let mut o = vec![canary; R + extra];
            let w: Vec<T> = (0..R).map(|r| v[r * C + c]).collect();
            lib(|| m.get_column_copy(c, &mut o));
            ensure!(same(&o[..R], &w), "{what}: get_column_copy({c}) gave {:?}, expected {w:?}", &o[..R]);
            ensure!(o[R..].iter().all(|x| x.bits() == canary.bits()), "{what}: get_column_copy({c}) wrote beyond the column");
        }
    }
    Ok(())
}
/// Every write accessor: exactly the cell named changes, nothing else in the memory.
fn writes<T: Sc, M: MatrixMut<R, C, T>, const R: usize, const C: usize>(ctx: &mut Ctx, m: &mut M, v: &[T], news: &[T], what: &str) -> Res {
    let n = R * C;
    let all: Vec<T> = m.as_slice().to_vec();
    for r in 0..R {
        for c in 0..C {
            for new in news {
                for k in 0..5 {
                    ctx.step(|| format!("writing {new:?} at ({r},{c}) of {R}x{C} {what} {v:?}, accessor {k}"));
                    m.as_mut_slice()[..n].copy_from_slice(&v[..n]);
                    lib(|| match k {
                        0 => m.set(r, c, *new),
                        1 => m.set_at(r, c, *new),
                        2 => m[r * C + c] = *new,
                        3 => m.as_mut_slice()[r * C + c] = *new,
                        _ => m.apply(|m| m.set(r, c, *new)),
                    });
                    let mut w = all.clone();
                    w[..n].copy_from_slice(&v[..n]);
                    w[r * C + c] = *new;
                    ensure!(same(m.as_slice(), &w), "{what}: after writing ({r},{c}) with accessor {k} the memory is {:?}, expected {w:?}", m.as_slice());
                    ensure!(m.get(r, c).bits() == new.bits(), "{what}: ({r},{c}) does not read back");
                    ctx.outcome(mix(fp(&w), k as u64));
                }
                if R == C {
                    ctx.step(|| format!("symmetric write of {new:?} at ({r},{c}) of {R}x{C} {what}"));
                    m.as_mut_slice()[..n].copy_from_slice(&v[..n]);
                    lib(|| m.set_symmetric(r, c, *new));
                    let mut w = all.clone();
                    w[..n].copy_from_slice(&v[..n]);
                    w[r * C + c] = *new;
                    w[c * C + r] = *new;
                    ensure!(same(m.as_slice(), &w), "{what}: after a symmetric write of ({r},{c}) the memory is {:?}, expected {w:?}", m.as_slice());
                    ctx.outcome(mix(fp(&w), 99));
                }
            }
        }
    }
    m.as_mut_slice()[..n].copy_from_slice(&v[..n]);
    Ok(())
}
fn family<F: Fam<T>, T: Alpha, const R: usize, const C: usize>(h: &mut Harness) {
    h.job(format!("access {R}x{C} {} {}", F::NAME, T::NAME), move |ctx| {
        let mut ar = Arena::<T>::new();
        ar.surplus = 3;
        let mut m = F::make::<R, C>(&mut ar, Role::Other(0), T::zero());
        for seed in 0..if ctx.thorough { 12 } else { 3 } {
            let v = distinct::<T>(R * C, seed);
            put::<F, T, R, C>(&mut m, &v);
            reads::<T, _, R, C>(ctx, &m, &v, F::NAME)?;
            writes::<T, _, R, C>(ctx, &mut m, &v, &if ctx.thorough { T::all() } else { T::few() }, F::NAME)?;
            reads::<T, _, R, C>(ctx, &m, &v, F::NAME)?;
        }
        Ok(())
    });
}
fn immutable<T: Sc, const R: usize, const C: usize, const N: usize>(h: &mut Harness) {
    assert_eq!(R * C, N);
    h.job(format!("access {R}x{C} immutable {}", T::NAME), move |ctx| {
        for seed in 0..4 {
            let v = distinct::<T>(R * C, seed);
            let mut big = v.clone();
            big.extend((0..3).map(T::garbage));
            reads::<T, _, R, C>(ctx, &MatrixData::new_ref::<R, C, T>(&v), &v, "reference")?;
            reads::<T, _, R, C>(ctx, &MatrixData::new_ref::<R, C, T>(&big), &v, "longer reference")?;
            reads::<T, _, R, C>(ctx, &MatrixDataRef::<R, C, T>::from(&v[..]), &v, "reference from")?;
            reads::<T, _, R, C>(ctx, &MatrixData::new_from::<R, C, T, _>(MatrixData::new_ref::<R, C, T>(&v)), &v, "wrapped reference")?;
            let a: [T; N] = core::array::from_fn(|i| v[i]);
            reads::<T, _, R, C>(ctx, &MatrixData::new_array::<R, C, N, T>(a), &v, "exact array")?;
            reads::<T, _, R, C>(ctx, &MatrixDataArray::<R, C, N, T>::from(a), &v, "array from")?;
            reads::<T, _, R, C>(ctx, &MatrixData::new_from::<R, C, T, _>(MatrixData::new_array::<R, C, N, T>(a)), &v, "wrapped array")?;
            #[cfg(feature = "alloc")]
            reads::<T, _, R, C>(ctx, &MatrixData::new_boxed::<R, C, T, _>(a), &v, "boxed from an array")?;
            let mut e = MatrixData::new_array::<R, C, N, T>(a);
            writes::<T, _, R, C>(ctx, &mut e, &v, &[T::one()], "exact array")?;
        }
        Ok(())
    });
}
/// Row vectors and column vectors, scalars.
fn vectors<F: Fam<T>, T: Alpha, const N: usize>(h: &mut Harness) {
    h.job(format!("vector and scalar access {N} {} {}", F::NAME, T::NAME), move |ctx| {
        let mut ar = Arena::<T>::new();
        ar.surplus = 2;
        let mut r = F::make::<N, 1>(&mut ar, Role::Other(0), T::zero());
        let mut c = F::make::<1, N>(&mut ar, Role::Other(1), T::zero());
        let mut s = F::make::<1, 1>(&mut ar, Role::Other(2), T::zero());
        let v = distinct::<T>(N, 1);
        for i in 0..N {
            for new in T::all() {
                ctx.step(|| format!("element {i} of {v:?} := {new:?}"));
                put::<F, T, N, 1>(&mut r, &v);
                put::<F, T, 1, N>(&mut c, &v);
                put::<F, T, 1, 1>(&mut s, &v);
                for j in 0..N {
                    ensure!(lib(|| r.get_row(j)).bits() == v[j].bits() && lib(|| c.get_col(j)).bits() == v[j].bits(), "vector element {j} reads {:?} and {:?} instead of {:?}", r.get_row(j), c.get_col(j), v[j]);
                }
                ensure!(lib(|| s.get_value()).bits() == v[0].bits(), "scalar reads {:?}", s.get_value());
                lib(|| { r.set_row(i, new); c.set_col(i, new); s.set_value(new); });
                let mut w = v.clone();
                w[i] = new;
                ensure!(same(&r.as_slice()[..N], &w) && same(&c.as_slice()[..N], &w) && s.as_slice()[0].bits() == new.bits(), "after writing element {i}: {:?} and {:?} instead of {w:?}", &r.as_slice()[..N], &c.as_slice()[..N]);
                ensure!(ar.tails_intact() && tail::<F, T, N, 1>(&r, Role::Other(0)) && tail::<F, T, 1, N>(&c, Role::Other(1)) && tail::<F, T, 1, 1>(&s, Role::Other(2)), "memory outside of the vectors changed");
                ctx.state(mix(fp(&w), i as u64));
                ctx.outcome(fp(&w));
            }
        }
        Ok(())
    });
}
/// More cells than narrow indices can name.
fn huge<const R: usize, const C: usize>(h: &mut Harness) {
    h.job(format!("access to {R}x{C}"), move |ctx| {
        let n = R * C;
        let mut a = Huge::with(n, |i| i as i64);
        ctx.state(n as u64);
        {
            let m = a.refer::<R, C>();
            ensure!(lib(|| (m.rows(), m.cols(), m.len())) == (R, C, n), "dimensions of a {R}x{C} matrix");
            for r in 0..R {
                ctx.step(|| format!("reading row {r}"));
                for c in 0..C {
                    let w = (r * C + c) as f64;
                    ensure!(lib(|| m.get(r, c)) == w && lib(|| m.get_at(r, c)) == w && lib(|| m[r * C + c]) == w, "({r},{c}) reads as {}, {}, {}", m.get(r, c), m.get_at(r, c), m[r * C + c]);
                }
                let mut o = vec![-1.0; C];
                lib(|| m.get_row_copy(r, &mut o));
                for c in 0..C { ensure!(o[c] == (r * C + c) as f64, "get_row_copy({r})[{c}] is {}", o[c]); }
                ctx.outcome(r as u64);
            }
            for c in 0..C {
                ctx.step(|| format!("copying column {c}"));
                let mut o = vec![-1.0; R];
                lib(|| m.get_column_copy(c, &mut o));
                for r in 0..R { ensure!(o[r] == (r * C + c) as f64, "get_column_copy({c})[{r}] is {}", o[r]); }
                ctx.outcome(mix(c as u64, 1));
            }
        }
        for k in 0..4 {
            ctx.step(|| format!("writing each cell, accessor {k}"));
            ctx.state(mix(n as u64, k));
            a.reset();
            {
                let mut m = a.refer_mut::<R, C>();
                for r in 0..R {
                    for c in 0..C {
                        let new = (2 * n - (r * C + c)) as f64;
                        lib(|| match k { 0 => m.set(r, c, new), 1 => m.set_at(r, c, new), 2 => m[r * C + c] = new, _ => { if R == C && r <= c { m.set_symmetric(r, c, new) } } });
                    }
                }
            }
            a.is(|i| {
                let (r, c) = (i / C, i % C);
                if k < 3 { (2 * n - i) as i64 } else if R != C { i as i64 } else { (2 * n - if r <= c { i } else { c * C + r }) as i64 }
            }, &format!("after writing every cell, accessor {k}"))?;
            ctx.outcome(k);
        }
        Ok(())
    });
}
fn main() {
    let mut h = Harness::new("M03");
    macro_rules! all { ($($r:literal)*; $c:tt) => { $( all!(@1 $r; $c); )* };
        (@1 $r:literal; ($($c:literal)*)) => { $( s!($r, $c); )* } }
    macro_rules! s { ($r:literal, $c:literal) => {{
        family::<Own, f64, $r, $c>(&mut h);
        family::<Slice, f64, $r, $c>(&mut h);
        family::<Boxed, f64, $r, $c>(&mut h);
        family::<Arr, f64, $r, $c>(&mut h);
        family::<Wrap, f64, $r, $c>(&mut h);
        immutable::<f32, $r, $c, { $r * $c }>(&mut h);
    }} }
    all!(1 2 3 4 5 6 7; (1 2 3 4 5 6 7));
    s!(0, 0); s!(0, 1); s!(1, 0); s!(0, 3); s!(3, 0);
    s!(1, 9); s!(9, 1); s!(8, 8); s!(2, 16); s!(16, 2); s!(8, 3); s!(3, 8); s!(9, 8); s!(1, 33); s!(33, 1); s!(17, 4);
    macro_rules! v { ($($n:literal)*) => { $(
        vectors::<Slice, f64, $n>(&mut h); vectors::<Boxed, f32, $n>(&mut h); vectors::<Arr, f64, $n>(&mut h); vectors::<Wrap, f32, $n>(&mut h);
        #[cfg(feature = "fixed")] vectors::<Slice, I16F16, $n>(&mut h);
    )* } }
    v!(1 2 3 4 5 6 8 9 16 17);
    huge::<260, 260>(&mut h); huge::<17, 17>(&mut h); huge::<1, 66000>(&mut h); huge::<66000, 1>(&mut h); huge::<3, 22001>(&mut h); huge::<22001, 3>(&mut h); huge::<257, 255>(&mut h);
    h.run()
}
use minikalman::matrix::*;
