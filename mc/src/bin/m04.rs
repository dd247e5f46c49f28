//! M04: fills and square initialisers.
#![allow(unused_imports)]
use mc::explore::*;
use mc::fam::*;
use mc::gf::Gf;
use mc::huge::*;
use mc::mat::*;
use mc::num::*;
use mc::points::Alpha;
use mc::*;
use minikalman::matrix::*;
use minikalman::prelude::*;
fn fills<F: Fam<T>, T: Alpha, const R: usize, const C: usize>(h: &mut Harness) {
    h.job(format!("fills {R}x{C} {} {}", F::NAME, T::NAME), move |ctx| {
        let mut ar = Arena::<T>::new();
        ar.surplus = 4;
        let mut m = F::make::<R, C>(&mut ar, Role::Other(0), T::zero());
        for g in 0..6 {
            let start: Vec<T> = if g < 4 { (0..R * C).map(|i| T::garbage(g + i * (g & 1))).collect() } else { distinct(R * C, g as i64) };
            for x in T::all() {
                for k in 0..3 {
                    ctx.step(|| format!("fill {k} with {x:?} over {start:?}"));
                    put::<F, T, R, C>(&mut m, &start);
                    let w = if k == 0 { x } else { T::zero() };
                    lib(|| match k { 0 => m.set_all(x), 1 => m.clear(), _ => m.set_zero() });
                    ensure!(m.as_slice()[..R * C].iter().all(|c| c.bits() == w.bits()), "after {} with {w:?}: {:?}", ["set_all", "clear", "set_zero"][k], &m.as_slice()[..R * C]);
                    ensure!(ar.tails_intact() && tail::<F, T, R, C>(&m, Role::Other(0)), "{} changed memory beyond the matrix: {:?}", ["set_all", "clear", "set_zero"][k], m.as_slice());
                    ctx.state(mix(fp(&start), mix(x.bits(), k as u64)));
                    ctx.outcome(mix(w.bits(), (R * C) as u64));
                }
            }
        }
        Ok(())
    });
}
fn squares<F: Fam<T>, T: Alpha, const N: usize>(h: &mut Harness) {
    h.job(format!("square initialisers {N} {} {}", F::NAME, T::NAME), move |ctx| {
        let mut ar = Arena::<T>::new();
        ar.surplus = 4;
        let mut m = F::make::<N, N>(&mut ar, Role::Other(0), T::zero());
        for g in 0..6 {
            let start: Vec<T> = if g < 4 { (0..N * N).map(|i| T::garbage(g + i * (g & 1))).collect() } else { distinct(N * N, g as i64) };
            for x in T::all() {
                for y in T::all() {
                    for k in 0..4 {
                        ctx.step(|| format!("initialiser {k} with {x:?}, {y:?} over {start:?}"));
                        put::<F, T, N, N>(&mut m, &start);
                        let what = ["make_identity", "make_scalar", "make_comatrix", "set_diagonal_to_scalar"][k];
                        lib(|| match k { 0 => m.make_identity(), 1 => m.make_scalar(x), 2 => m.make_comatrix(x, y), _ => m.set_diagonal_to_scalar(x) });
                        let mut w = start.clone();
                        for i in 0..N {
                            for j in 0..N {
                                w[i * N + j] = match (k, i == j) { (0, true) => T::one(), (0 | 1, false) => T::zero(), (_, true) => x, (2, false) => y, _ => w[i * N + j] };
                            }
                        }
                        ensure!(same(&m.as_slice()[..N * N], &w), "after {what}({x:?}, {y:?}): {:?}, expected {w:?}", &m.as_slice()[..N * N]);
                        ensure!(ar.tails_intact() && tail::<F, T, N, N>(&m, Role::Other(0)), "{what} changed memory beyond the matrix");
                        ctx.state(mix(fp(&start), mix(x.bits(), mix(y.bits(), k as u64))));
                        ctx.outcome(fp(&w));
                    }
                }
            }
        }
        Ok(())
    });
}
/// More cells than narrow indices can name.
fn huge<const N: usize>(h: &mut Harness) {
    h.job(format!("fills and initialisers of {N}x{N}"), move |ctx| {
        let mut a = Huge::new(N * N, 4);
        for k in 0..7 {
            ctx.step(|| format!("initialiser {k}"));
            ctx.state(k);
            a.reset();
            {
                let mut m = a.refer_mut::<N, N>();
                lib(|| match k { 0 => m.set_all(3.0), 1 => m.clear(), 2 => m.set_zero(), 3 => m.make_identity(), 4 => m.make_scalar(5.0), 5 => m.make_comatrix(5.0, 6.0), _ => m.set_diagonal_to_scalar(5.0) });
            }
            a.is(|i| match (k, i / N == i % N) { (0, _) => 3, (1 | 2, _) | (3 | 4, false) => 0, (3, true) => 1, (_, true) => 5, (5, _) => 6, _ => a.v[i] }, &format!("initialiser {k}"))?;
            ctx.outcome(k);
        }
        Ok(())
    });
}
fn main() {
    let mut h = Harness::new("M04");
    macro_rules! all { ($($r:literal)*; $c:tt) => { $( all!(@1 $r; $c); )* };
        (@1 $r:literal; ($($c:literal)*)) => { $( s!($r, $c); )* } }
    macro_rules! s { ($r:literal, $c:literal) => {{
        fills::<Own, f64, $r, $c>(&mut h);
        fills::<Slice, f32, $r, $c>(&mut h);
        fills::<Boxed, f64, $r, $c>(&mut h);
        fills::<Arr, f64, $r, $c>(&mut h);
        fills::<Wrap, f32, $r, $c>(&mut h);
        #[cfg(feature = "fixed")]
        fills::<Slice, I16F16, $r, $c>(&mut h);
    }} }
    all!(1 2 3 4 5 6; (1 2 3 4 5 6));
    s!(0, 0); s!(0, 2); s!(3, 0); s!(1, 9); s!(9, 1); s!(8, 8); s!(7, 2); s!(2, 16); s!(17, 4); s!(1, 40);
    macro_rules! q { ($($n:literal)*) => { $(
        squares::<Own, f64, $n>(&mut h); squares::<Slice, f64, $n>(&mut h); squares::<Boxed, f32, $n>(&mut h); squares::<Arr, f32, $n>(&mut h); squares::<Wrap, f64, $n>(&mut h);
        squares::<Slice, Gf<5>, $n>(&mut h);
        #[cfg(feature = "fixed")] squares::<Slice, I32F32, $n>(&mut h);
    )* } }
    q!(1 2 3 4 5 6 7 8);
    huge::<260>(&mut h); huge::<17>(&mut h); huge::<33>(&mut h); huge::<129>(&mut h); huge::<257>(&mut h);
    h.run()
}
