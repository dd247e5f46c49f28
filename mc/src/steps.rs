//! Job generators for single operations (F01–F06): exact deviations and grids, machine-number deviations,
//! magnitude sweeps, and live-object walks.
use crate::explore::*;
use crate::num::*;
use crate::points::*;
use crate::rig::*;

pub type Mk<T> = fn() -> Box<dyn Sys<T>>;

pub fn routes(k: K) -> &'static [u8] {
    match k {
        K::Predict | K::NlPredict => &[0, 1],
        K::Tuned | K::NlTuned => &[0],
        _ => &[0, 1, 2, 3],
    }
}

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Base { Zero, Ident, Dense(i64) }
pub fn base<T: Sc>(b: Base, k: K, d: (usize, usize, usize)) -> Vals<T> {
    let z = Vals::zero(d);
    match b {
        Base::Zero => match k {
            K::Correct | K::NlCorrect => z.ident(W::R),
            _ => z,
        },
        Base::Ident => {
            let mut z = z;
            for w in k.uses() {
                if !matches!(w, W::X | W::U | W::Z) {
                    z = z.ident(*w);
                }
            }
            z
        }
        Base::Dense(s) => Vals::dense(d, s),
    }
}

/// All inputs that deviate from a base in at most `depth` cells; every route for up to two deviations,
/// rotating through them beyond.
pub fn dev_job<T: Alpha>(h: &mut Harness, k: K, mk: Mk<T>, b: Base, values: Vec<T>, depth: usize) {
    let s = mk();
    let name = format!("{k:?} {} from {b:?}, up to {depth} of {} cells over {} values", s.label(), vars_of(k, s.dims()).len(), values.len());
    h.job(name, move |ctx| {
        let mut s = mk();
        let d = s.dims();
        let bv = base::<T>(b, k, d);
        let vs = vars_of(k, d);
        let rs = routes(k);
        let mut i = 0usize;
        for &r in rs {
            deviations(&bv, &vs, &values, depth.min(2), &mut |v| {
                i += 1;
                point(ctx, &mut *s, v, k, r, Some(i % 4))
            })?;
        }
        if depth > 2 {
            deviations(&bv, &vs, &values, depth, &mut |v| {
                i += 1;
                point(ctx, &mut *s, v, k, rs[i % rs.len()], Some(i % 4))
            })?;
        }
        Ok(())
    });
}

/// The full grid of values over every cell, split in parallel jobs over the first two cells.
pub fn grid_jobs<T: Alpha>(h: &mut Harness, k: K, mk: Mk<T>, values: Vec<T>) {
    let s = mk();
    let d = s.dims();
    let vs = vars_of(k, d);
    let split = if (values.len() as f64).powi(vs.len() as i32) > 50_000.0 { 2 } else { 0 };
    let mut heads: Vec<Vec<T>> = vec![vec![]];
    for _ in 0..split {
        heads = heads.iter().flat_map(|h| values.iter().map(move |x| { let mut h = h.clone(); h.push(*x); h })).collect();
    }
    for head in heads {
        let (vs, values) = (vs.clone(), values.clone());
        h.job(format!("{k:?} {} full grid {}^{} with {:?}", s.label(), values.len(), vs.len(), head), move |ctx| {
            let mut s = mk();
            let mut z = Vals::<T>::zero(d);
            for (v, x) in vs.iter().zip(&head) {
                z.put(*v, *x);
            }
            let rs = routes(k);
            let mut i = 0usize;
            grid(&z, &vs[head.len()..], &values, &mut |v| {
                i += 1;
                point(ctx, &mut *s, v, k, rs[i % rs.len()], Some((i / rs.len()) % 4))
            })
        });
    }
}

/// Magnitude sweeps: dense inputs rescaled by powers of two, uniformly and one component at a time.
pub fn scale_job<T: Alpha>(h: &mut Harness, k: K, mk: Mk<T>, lo: i32, hi: i32, by: i32) {
    let s = mk();
    h.job(format!("{k:?} {} magnitudes 2^{lo}..2^{hi}", s.label()), move |ctx| {
        let mut s = mk();
        let d = s.dims();
        let rs = routes(k);
        let p2 = |e: i32| if e >= 0 { T::dy(1i64 << e.min(62), 1) } else { T::dy(1, 1i64 << (-e).min(62)) };
        let pow = |e: i32| {
            let mut e = e;
            let mut r = T::one();
            while e != 0 {
                let st = e.clamp(-60, 60);
                r = r * p2(st);
                e -= st;
            }
            r
        };
        let mut i = 0usize;
        for seed in 0..4 {
            let b = Vals::<T>::dense(d, seed);
            let mut e = lo;
            while e <= hi {
                for which in 0..=d.0 {
                    for (me, mw) in [(0, 0), (e, 0), (-e, 0), (e, 1), (-e, d.1)] {
                        if me == 0 && mw != 0 || !matches!(k, K::Correct | K::NlCorrect) && (me, mw) != (0, 0) {
                            continue;
                        }
                        let st = |j: usize| if which == 0 || which == j + 1 { pow(e) } else { T::one() };
                        let mut v = rescale(&b, k, &st, &|j| if mw == 0 || mw == j + 1 { pow(me) } else { T::one() });
                        for l in if k.tuned() { vec![T::dy(3, 2), pow(e / 2), T::zero() - pow(-e / 2)] } else { vec![T::one()] } {
                            v.lambda = l;
                            i += 1;
                            point(ctx, &mut *s, &v, k, rs[i % rs.len()], Some(i % 4))?;
                        }
                    }
                }
                e += by;
            }
        }
        Ok(())
    });
}

/// Each quantity of the operation alone at every magnitude, the rest dense: relative thresholds and shortcuts.
pub fn single_scale_job<T: Alpha>(h: &mut Harness, k: K, mk: Mk<T>, lo: i32, hi: i32, by: i32) {
    let s = mk();
    h.job(format!("{k:?} {} one quantity at magnitudes 2^{lo}..2^{hi}", s.label()), move |ctx| {
        let mut s = mk();
        let d = s.dims();
        let rs = routes(k);
        let mut i = 0usize;
        for seed in 0..3 {
            let b = Vals::<T>::dense(d, seed);
            let mut e = lo;
            while e <= hi {
                let f = if e >= 0 { T::dy(1i64 << e, 1) } else { T::dy(1, 1i64 << -e) };
                for &w in k.uses() {
                    let mut v = b.clone();
                    for c in v.v[w as usize].iter_mut() {
                        *c = *c * f;
                    }
                    i += 1;
                    point(ctx, &mut *s, &v, k, rs[i % rs.len()], Some(i % 4))?;
                }
                for (_, l) in [(0, f), (1, T::zero() - f)] {
                    if k.tuned() {
                        let mut v = b.clone();
                        v.lambda = l;
                        point(ctx, &mut *s, &v, k, 0, Some(i % 4))?;
                    }
                }
                e += by;
            }
        }
        Ok(())
    });
}

/// Letters for a walk: two settings of every quantity the operations use, and the operations.
pub fn letters<T: Sc>(ks: &[K], d: (usize, usize, usize), sets: &[W]) -> Vec<Ev<T>> {
    let (a, b) = (Vals::<T>::dense(d, 0), Vals::<T>::dense(d, 1));
    let mut l: Vec<Ev<T>> = ks.iter().map(|k| Ev::Do(*k)).collect();
    for &w in sets {
        l.push(Ev::Set(w, a.g(w).to_vec()));
        l.push(Ev::Set(w, b.g(w).to_vec()));
    }
    if ks.iter().any(|k| k.tuned()) {
        l.push(Ev::Lambda(T::dy(1, 2)));
        l.push(Ev::Lambda(T::dy(-5, 4)));
    }
    if ks.iter().any(|k| k.extra(d.0, d.1) > 0) {
        l.push(Ev::Out(a.out.clone()));
        l.push(Ev::Out(b.out.clone()));
    }
    l
}
/// One live object driven through a word that contains every sequence of `len` letters.
pub fn walk_job<T: Alpha>(h: &mut Harness, ks: &'static [K], mk: Mk<T>, sets: &'static [W], len: usize) {
    let s = mk();
    h.job(format!("live {} {ks:?}: every history of {len} events over {} letters", s.label(), letters::<T>(ks, s.dims(), sets).len()), move |ctx| {
        let mut s = mk();
        let d = s.dims();
        let ls = letters::<T>(ks, d, sets);
        let word = debruijn(ls.len(), len);
        for r in 0..if ctx.thorough { 4 } else { 2u8 } {
            // routes 2 and 3 fall back where they do not exist
            let mut w = Walk::start(&mut *s, &Vals::dense(d, 2), r);
            for &l in &word {
                w.event(ctx, &mut *s, l, &ls[l], false)?;
            }
            ctx.traces += 1;
        }
        Ok(())
    });
}

/// Innovation covariances on the way to singularity.
pub fn near_singular_job<T: Alpha>(h: &mut Harness, k: K, mk: Mk<T>, to: i32) {
    let s = mk();
    h.job(format!("{k:?} {} nearly singular innovation covariances down to 2^-{to}", s.label()), move |ctx| {
        let mut s = mk();
        let d = s.dims();
        let rs = routes(k);
        let mut i = 0usize;
        for seed in 0..3 {
            for j in 0..=to {
                let r = T::dy(1, 1i64 << j);
                for shape in 0..4 {
                    let mut v = Vals::<T>::dense(d, seed);
                    match shape {
                        0 | 1 => {
                            // little noise on dependent measurements
                            v.v[W::R as usize].fill(T::zero());
                            for a in 0..d.1 {
                                v.set(W::R, a, a, if shape == 0 { r } else { r * T::dy(1 + a as i64, 1) });
                            }
                            if shape == 1 {
                                v.v[W::H as usize].fill(T::one());
                            }
                        }
                        2 => {
                            // rows of H nearly equal, no noise to speak of
                            for a in 1..d.1 {
                                for b in 0..d.0 {
                                    let x = v.g(W::H)[b];
                                    v.set(W::H, a, b, if b == a % d.0 { x + r } else { x });
                                }
                            }
                            for c in v.v[W::R as usize].iter_mut() {
                                *c = *c * r * r;
                            }
                        }
                        _ => {
                            // strongly correlated noise, small uncertainty
                            for c in v.v[W::P as usize].iter_mut() {
                                *c = *c * r;
                            }
                            for a in 0..d.1 {
                                for b in 0..=a {
                                    v.set(W::R, a, b, if a == b { T::one() + r } else { T::one() });
                                }
                            }
                        }
                    }
                    i += 1;
                    point(ctx, &mut *s, &v, k, rs[i % rs.len()], Some(i % 4))?;
                }
            }
        }
        Ok(())
    });
}

/// Large dimensions: dense inputs and all that differ from them in one cell (in every `1/part`th cell).
pub fn wide_job<T: Alpha>(h: &mut Harness, k: K, mk: Mk<T>, part: usize) {
    let s = mk();
    let part = if h.thorough { 1 } else { part };
    for seed in 0..2 {
        h.job(format!("{k:?} {} wide, seed {seed}, 1/{part} of all single deviations", s.label()), move |ctx| {
            let mut s = mk();
            let d = s.dims();
            let mut b = Vals::<T>::dense(d, seed);
            for w in [W::P, W::Q, W::Qc, W::R] {
                let n = w.shape(d.0, d.1, d.2).0;
                for i in 0..n {
                    let x = b.v[w as usize][i * n + i];
                    b.set(w, i, i, x + T::dy(n as i64, 2));
                }
            }
            let rs = routes(k);
            for &r in rs {
                point(ctx, &mut *s, &b, k, r, Some(r as usize))?;
            }
            for (i, var) in vars_of(k, d).into_iter().enumerate().filter(|x| x.0 % part == seed as usize % part) {
                let old = b.var(var);
                b.put(var, old + T::one());
                point(ctx, &mut *s, &b, k, rs[i % rs.len()], Some(i % 4))?;
                b.put(var, old);
            }
            Ok(())
        });
    }
}

pub fn exact(h: &mut Harness, k: K, mk3: Mk<crate::gf::Gf<3>>, mk7: Mk<crate::gf::Gf<7>>, quick: usize, thorough: usize) {
    use crate::gf::Gf;
    let t = h.thorough;
    dev_job(h, k, mk3, Base::Zero, Gf::<3>::all(), if t { thorough } else { quick });
    dev_job(h, k, mk3, Base::Ident, Gf::<3>::all(), if t { thorough } else { 2.min(quick) });
    dev_job(h, k, mk7, Base::Dense(0), Gf::<7>::all(), if t { 2 } else { 1 });
    dev_job(h, k, mk7, Base::Dense(1), Gf::<7>::all(), 1);
}
pub fn machine<T: Alpha>(h: &mut Harness, k: K, mk: Mk<T>, lo: i32, hi: i32, by: i32) {
    let t = h.thorough;
    let n = mk().dims().0.max(mk().dims().1);
    for b in [Base::Zero, Base::Ident, Base::Dense(0), Base::Dense(1)] {
        dev_job(h, k, mk, b, T::all(), if t && n <= 4 { 2 } else { 1 });
        if b != Base::Dense(1) && n <= 3 {
            dev_job(h, k, mk, b, T::few(), if t { 3 } else { 2 });
        }
    }
    scale_job(h, k, mk, lo, hi, by);
    single_scale_job(h, k, mk, lo.max(-60), hi.min(60), if t { 1 } else { by.min(4) });
}
#[macro_export]
macro_rules! reg { ($f:ty, $t:ty, $n:literal $m:literal $c:literal) => { mc::rig::Reg::<$f, $t, $n, $m, $c>::boxed as mc::steps::Mk<$t> } }
#[macro_export]
macro_rules! ext { ($f:ty, $t:ty, $n:literal $m:literal $c:literal) => { mc::rig::Ext::<$f, $t, $n, $m>::boxed as mc::steps::Mk<$t> } }
#[macro_export]
macro_rules! reg_built { ($t:ty, $n:literal $m:literal $c:literal) => { (|| Box::new(mc::rig::Reg::<mc::fam::Boxed, $t, $n, $m, $c>::built())) as mc::steps::Mk<$t> } }
#[macro_export]
macro_rules! ext_built { ($t:ty, $n:literal $m:literal $c:literal) => { (|| Box::new(mc::rig::Ext::<mc::fam::Boxed, $t, $n, $m>::built())) as mc::steps::Mk<$t> } }
/// Large dimensions, exactly and in machine numbers.
#[macro_export]
macro_rules! wide { ($h:ident, $k:expr, $mk:ident, $($n:literal $m:literal $c:literal / $part:literal),*) => { $(
    mc::steps::wide_job(&mut $h, $k, $mk!(mc::fam::Own, mc::gf::Gf<997>, $n $m $c), $part);
    mc::steps::wide_job(&mut $h, $k, $mk!(mc::fam::Slice, f64, $n $m $c), $part);
    mc::steps::wide_job(&mut $h, $k, $mk!(mc::fam::Boxed, f32, $n $m $c), $part);
)* } }
/// Every job kind of one operation over the listed dimensions.
#[macro_export]
macro_rules! suite {
    ($h:ident, $k:expr, $mk:ident, exact: $(($($d:literal)*; $q:literal $th:literal)),*; machine: $(($f:ty, $t:ty, $($md:literal)*; $lo:literal $hi:literal $by:literal)),* ;) => {
        $( mc::steps::exact(&mut $h, $k, $mk!(mc::fam::Own, mc::gf::Gf<3>, $($d)*), $mk!(mc::fam::Own, mc::gf::Gf<7>, $($d)*), $q, $th); )*
        $( mc::steps::machine::<$t>(&mut $h, $k, $mk!($f, $t, $($md)*), $lo, $hi, $by); )*
    };
}
