//! B01: storage kinds are interchangeable; memory past the matrix is neither read nor written.
#![allow(unused_imports)]
use mc::explore::*;
use mc::fam::*;
use mc::gf::Gf;
use mc::mat::*;
use mc::num::*;
use mc::points::*;
use mc::rig::*;
use mc::steps::*;
use mc::*;
use minikalman::buffers::types::*;
use minikalman::matrix::*;
use minikalman::prelude::*;
use minikalman::regular::*;
use std::ops::{Index, IndexMut};

type Bx<T, const R: usize, const C: usize> = MatrixDataBoxed<R, C, T>;
fn bx<T: Sc, const R: usize, const C: usize>(seed: i64) -> Bx<T, R, C> {
    Bx::new(distinct::<T>(R * C, seed))
}
fn zr<T: Sc, const R: usize, const C: usize>() -> Bx<T, R, C> {
    Bx::new(vec![T::zero(); R * C])
}

/// Storage for the other operands, with memory of its own past the matrix; spoilt memory is noticed when it goes away.
struct Partner<T: Sc, const R: usize, const C: usize> {
    v: Vec<T>,
    seed: usize,
}
thread_local! { static SPOILT: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) }; }
impl<T: Sc, const R: usize, const C: usize> Partner<T, R, C> {
    fn new(mut v: Vec<T>, sp: usize, seed: usize) -> Self {
        v.extend((0..sp).map(|i| T::garbage(seed + i)));
        Partner { v, seed }
    }
    fn cells(&self) -> &[T] {
        &self.v[..R * C]
    }
}
impl<T: Sc, const R: usize, const C: usize> Drop for Partner<T, R, C> {
    fn drop(&mut self) {
        if self.v[R * C..].iter().enumerate().any(|(i, x)| x.bits() != T::garbage(self.seed + i).bits()) {
            SPOILT.with(|s| *s.borrow_mut() = Some(format!("memory past the other operand, {R}x{C}, was changed to {:?}", &self.v[R * C..])));
        }
    }
}
impl<T: Sc, const R: usize, const C: usize> RowMajorSequentialData<R, C, T> for Partner<T, R, C> {
    fn as_slice(&self) -> &[T] {
        &self.v
    }
}
impl<T: Sc, const R: usize, const C: usize> RowMajorSequentialDataMut<R, C, T> for Partner<T, R, C> {
    fn as_mut_slice(&mut self) -> &mut [T] {
        &mut self.v
    }
}
impl<T: Sc, const R: usize, const C: usize> Index<usize> for Partner<T, R, C> {
    type Output = T;
    fn index(&self, i: usize) -> &T {
        &self.v[i]
    }
}
impl<T: Sc, const R: usize, const C: usize> IndexMut<usize> for Partner<T, R, C> {
    fn index_mut(&mut self, i: usize) -> &mut T {
        &mut self.v[i]
    }
}
impl<T: Sc, const R: usize, const C: usize> Matrix<R, C, T> for Partner<T, R, C> {}
impl<T: Sc, const R: usize, const C: usize> MatrixMut<R, C, T> for Partner<T, R, C> {}
fn px<T: Sc, const R: usize, const C: usize>(sp: usize, seed: i64) -> Partner<T, R, C> {
    Partner::new(distinct::<T>(R * C, seed), sp, seed as usize)
}
fn pz<T: Sc, const R: usize, const C: usize>(sp: usize) -> Partner<T, R, C> {
    Partner::new(vec![T::zero(); R * C], sp, 1)
}
fn unspoilt(what: &str) -> Res {
    match SPOILT.with(|s| s.borrow_mut().take()) {
        Some(e) => viol(format!("{what}: {e}")),
        None => Ok(()),
    }
}

/// Everything a matrix can take part in without being changed.
#[inline(never)]
fn ro<T: Sc, M: Matrix<R, C, T>, const R: usize, const C: usize>(m: &M, sp: usize) -> Vec<T> {
    let mut o = vec![];
    macro_rules! out { ($c:expr) => { o.extend_from_slice($c.cells()) } }
    lib(|| {
        let (b, mut c) = (px::<T, C, 2>(sp, 1), pz::<T, R, 2>(sp));
        m.mult(&b, &mut c);
        out!(c);
        m.mult_buffered(&b, &mut c, &mut vec![T::zero(); C][..]);
        out!(c);
        let b = px::<T, 2, C>(sp, 2);
        m.mult_transb(&b, &mut c);
        out!(c);
        m.multadd_transb(&b, &mut c);
        out!(c);
        m.multscale_transb(&b, T::dy(3, 2), &mut c);
        out!(c);
        let (b, mut c) = (px::<T, C, 1>(sp, 3), pz::<T, R, 1>(sp));
        m.mult_rowvector(&b, &mut c);
        out!(c);
        m.multadd_rowvector(&b, &mut c);
        out!(c);
        let (mut b, mut c) = (px::<T, R, C>(sp, 4), pz::<T, R, C>(sp));
        m.sub(&b, &mut c);
        out!(c);
        b.sub(m, &mut c);
        out!(c);
        m.add_inplace_b(&mut b);
        out!(b);
        m.sub_inplace_b(&mut b);
        out!(b);
        b.add_inplace_a(m);
        out!(b);
        b.sub_inplace_a(m);
        out!(b);
        m.copy_to(&mut b);
        out!(b);
        b.clear();
        m.copy(&mut b);
        out!(b);
        let (a, mut c) = (px::<T, 2, R>(sp, 5), pz::<T, 2, C>(sp));
        a.mult(m, &mut c);
        out!(c);
        a.mult_buffered(m, &mut c, &mut vec![T::zero(); R][..]);
        out!(c);
        let (a, mut c) = (px::<T, 2, C>(sp, 5), pz::<T, 2, R>(sp));
        a.mult_transb(m, &mut c);
        out!(c);
        a.multadd_transb(m, &mut c);
        out!(c);
        a.multscale_transb(m, T::dy(3, 2), &mut c);
        out!(c);
        let mut r = vec![T::zero(); C];
        for i in 0..R {
            m.get_row_copy(i, &mut r);
            o.extend_from_slice(&r);
        }
        let mut r = vec![T::zero(); R];
        for j in 0..C {
            m.get_column_copy(j, &mut r);
            o.extend_from_slice(&r);
        }
        let (s, n) = m.inspect(|m| (m.as_slice()[..R * C].to_vec(), m.rows() * 100 + m.cols()));
        o.extend(s);
        o.push(T::dy(n as i64, 1));
        for i in 0..R {
            for j in 0..C {
                o.push(m.get(i, j));
                o.push(m.get_at(i, j));
            }
        }
    });
    o
}
/// Everything that writes into a matrix, each from the same content.
#[inline(never)]
fn rw<T: Sc, M: MatrixMut<R, C, T>, const R: usize, const C: usize>(m: &mut M, base: &[T], sp: usize) -> Result<Vec<T>, Viol> {
    let mut o = vec![];
    let mem = m.as_slice().len();
    let end: Vec<T> = m.as_slice()[R * C..].to_vec();
    let mut n = 0;
    let mut turn = |f: &mut dyn FnMut(&mut M)| -> Res {
        m.as_mut_slice()[..R * C].copy_from_slice(&base[..R * C]);
        lib(|| f(m));
        o.extend_from_slice(&m.as_slice()[..R * C]);
        n += 1;
        ensure!(m.as_slice().len() == mem && same(&m.as_slice()[R * C..], &end), "writing operation {n} on {R}x{C} in {mem} cells changed the memory past the matrix");
        Ok(())
    };
    let (a, b, t) = (px::<T, R, 2>(sp, 6), px::<T, 2, C>(sp, 7), px::<T, C, 2>(sp, 8));
    let (x, y) = (px::<T, R, C>(sp, 9), px::<T, R, C>(sp, 10));
    turn(&mut |m| a.mult(&b, m))?;
    turn(&mut |m| a.mult_buffered(&b, m, &mut [T::zero(), T::zero()]))?;
    turn(&mut |m| a.mult_transb(&t, m))?;
    turn(&mut |m| a.multadd_transb(&t, m))?;
    turn(&mut |m| a.multscale_transb(&t, T::dy(3, 2), m))?;
    turn(&mut |m| x.sub(&y, m))?;
    turn(&mut |m| x.add_inplace_b(m))?;
    turn(&mut |m| x.sub_inplace_b(m))?;
    turn(&mut |m| m.add_inplace_a(&x))?;
    turn(&mut |m| m.sub_inplace_a(&x))?;
    turn(&mut |m| x.copy_to(m))?;
    turn(&mut |m| x.copy(m))?;
    turn(&mut |m| m.copy_from(&x))?;
    turn(&mut |m| m.set_all(T::dy(5, 4)))?;
    turn(&mut |m| m.clear())?;
    turn(&mut |m| m.set_zero())?;
    for i in 0..R {
        for j in 0..C {
            turn(&mut |m| m.set(i, j, T::dy(7, 4)))?;
            turn(&mut |m| m.set_at(i, j, T::dy(9, 4)))?;
        }
    }
    let mut z = pz::<T, R, C>(sp);
    turn(&mut |m| z.copy_from(m))?;
    turn(&mut |m| {
        m.apply(|m| m.set(R - 1, C - 1, T::dy(11, 4)));
    })?;
    o.extend_from_slice(z.cells());
    Ok(o)
}
#[inline(never)]
fn vo<T: Sc, M: MatrixMut<N, 1, T>, const N: usize>(m: &mut M, base: &[T], sp: usize) -> Vec<T> {
    m.as_mut_slice()[..N].copy_from_slice(&base[..N]);
    let mut o = vec![];
    lib(|| {
        for i in 0..N {
            o.push(m.get_row(i));
            m.set_row(i, T::dy(13 + i as i64, 4));
            o.extend_from_slice(&m.as_slice()[..N]);
        }
        let (x, v) = (px::<T, N, 3>(sp, 1), px::<T, 3, 1>(sp, 2));
        x.mult_rowvector(&v, m);
        o.extend_from_slice(&m.as_slice()[..N]);
        x.multadd_rowvector(&v, m);
        o.extend_from_slice(&m.as_slice()[..N]);
        let x = px::<T, 2, N>(sp, 3);
        let mut c = pz::<T, 2, 1>(sp);
        x.mult_rowvector(m, &mut c);
        o.extend_from_slice(c.cells());
        x.multadd_rowvector(m, &mut c);
        o.extend_from_slice(c.cells());
    });
    o
}
#[inline(never)]
fn so<T: Sc, M: MatrixMut<N, N, T>, const N: usize>(m: &mut M, sp: usize) -> Result<Vec<T>, Viol> {
    let mut o = vec![];
    let end: Vec<T> = m.as_slice()[N * N..].to_vec();
    let pd: Vec<T> = (0..N * N).map(|k| T::dy(if k / N == k % N { 16 } else { (k / N + k % N) as i64 - 2 }, 4)).collect();
    let mut n = 0;
    let mut turn = |f: &mut dyn FnMut(&mut M)| -> Res {
        m.as_mut_slice()[..N * N].copy_from_slice(&pd);
        lib(|| f(m));
        o.extend_from_slice(&m.as_slice()[..N * N]);
        n += 1;
        ensure!(same(&m.as_slice()[N * N..], &end), "square operation {n} on {N}x{N} changed the memory past the matrix");
        Ok(())
    };
    turn(&mut |m| m.make_identity())?;
    turn(&mut |m| m.make_scalar(T::dy(7, 4)))?;
    turn(&mut |m| m.set_diagonal_to_scalar(T::dy(7, 4)))?;
    turn(&mut |m| m.make_comatrix(T::dy(7, 4), T::dy(9, 4)))?;
    turn(&mut |m| m.set_symmetric(N - 1, 0, T::dy(11, 4)))?;
    let mut ok = false;
    turn(&mut |m| ok = m.cholesky_decompose_lower())?;
    let mut l = pz::<T, N, N>(sp);
    let mut other = vec![T::dy(ok as i64, 1)];
    turn(&mut |m| {
        m.cholesky_decompose_lower();
        m.invert_l_cholesky(&mut l);
    })?;
    other.extend_from_slice(l.cells());
    turn(&mut |m| {
        m.cholesky_decompose_lower();
        l.copy_from(m);
        l.invert_l_cholesky(m);
    })?;
    o.extend(other);
    Ok(o)
}
fn bits<T: Sc>(what: &str, op: &str, got: &[T], want: &[T]) -> Res {
    ensure!(got.len() == want.len(), "{what}: {op} gives {} values, heap storage gives {}", got.len(), want.len());
    for i in 0..got.len() {
        ensure!(got[i].bits() == want[i].bits(), "{what}: {op}: value {i} is {:?}, with heap storage {:?}", got[i], want[i]);
    }
    Ok(())
}
/// What every way to look into a buffer must show.
#[inline(never)]
fn show<T: Sc, B: Matrix<R, C, T> + Index<usize, Output = T>, I: Matrix<R, C, T>, const R: usize, const C: usize>(what: &str, b: &B, inner: &I, data: &[T]) -> Res {
    ensure!(same(lib(|| b.as_slice()), data), "{what}: as_slice shows {:?}, memory is {data:?}", b.as_slice());
    ensure!(same(lib(|| inner.as_slice()), data), "{what}: as_matrix shows {:?}, memory is {data:?}", inner.as_slice());
    for k in 0..R * C {
        ensure!(lib(|| b[k]).bits() == data[k].bits(), "{what}: [{k}] is {:?}, memory holds {:?}", b[k], data[k]);
        ensure!(lib(|| b.get_at(k / C, k % C)).bits() == data[k].bits(), "{what}: get_at({}, {}) is {:?}, memory holds {:?}", k / C, k % C, b.get_at(k / C, k % C), data[k]);
        ensure!(lib(|| b.get(k / C, k % C)).bits() == data[k].bits(), "{what}: get({}, {}) is {:?}, memory holds {:?}", k / C, k % C, b.get(k / C, k % C), data[k]);
        ensure!(lib(|| inner.get_at(k / C, k % C)).bits() == data[k].bits(), "{what}: as_matrix().get_at({}, {}) is {:?}, memory holds {:?}", k / C, k % C, inner.get_at(k / C, k % C), data[k]);
    }
    Ok(())
}
#[inline(never)]
fn look<T: Sc, B: Matrix<R, C, T> + Index<usize, Output = T>, I: Matrix<R, C, T>, const R: usize, const C: usize>(ctx: &mut Ctx, what: &str, b: &B, inner: &I, data: &[T]) -> Res {
    ctx.step(|| format!("{what} {R}x{C} from {data:?}"));
    ctx.state(mix(fp(data), what.bytes().fold(R as u64 * 64 + C as u64, |h, b| mix(h, b as u64))));
    show::<T, B, I, R, C>(what, b, inner, data)?;
    ctx.outcome(fp(data));
    Ok(())
}
/// Reading operations against heap storage.
#[inline(never)]
fn use_ro<T: Sc, B: Matrix<R, C, T>, const R: usize, const C: usize>(ctx: &mut Ctx, what: &str, b: &B, data: &[T]) -> Res {
    ctx.step(|| format!("{what} {R}x{C}: reading operations on {data:?}"));
    let heap = Bx::<T, R, C>::new(data[..R * C].to_vec());
    let w = ro::<T, _, R, C>(&heap, 0);
    for sp in [0, 3, 5] {
        let g = ro::<T, B, R, C>(b, sp);
        bits(what, "reading operations", &g, &w)?;
        unspoilt(what)?;
        ctx.outcome(fp(&g));
    }
    ensure!(same(b.as_slice(), data), "{what}: reading operations changed the memory");
    Ok(())
}
/// Writing operations against heap storage.
#[inline(never)]
fn use_rw<T: Sc, B: MatrixMut<R, C, T>, const R: usize, const C: usize>(ctx: &mut Ctx, what: &str, b: &mut B, data: &[T]) -> Res {
    ctx.step(|| format!("{what} {R}x{C}: writing operations on {data:?}"));
    let heap = &mut zr::<T, R, C>();
    let w = rw::<T, _, R, C>(heap, data, 0)?;
    for sp in [0, 3, 5] {
        let g = rw::<T, B, R, C>(b, data, sp)?;
        bits(what, "writing operations", &g, &w)?;
        unspoilt(what)?;
        ctx.outcome(fp(&g));
    }
    b.as_mut_slice()[..R * C].copy_from_slice(&data[..R * C]);
    Ok(())
}
/// Writes each cell in each way.
#[inline(never)]
fn write<T: Sc, B: MatrixMut<R, C, T> + IndexMut<usize, Output = T>, const R: usize, const C: usize>(ctx: &mut Ctx, what: &str, b: &mut B, data: &mut [T], inner: &mut dyn FnMut(&mut B, usize, Option<T>) -> T) -> Res {
    for k in 0..R * C {
        for way in 0..6u64 {
            let x = T::dy((k as u64 * 6 + way) as i64 % 61 + 50, 2);
            ctx.step(|| format!("{what} {R}x{C}: way {way} to write {x:?} into cell {k}"));
            match way {
                0 => lib(|| b[k] = x),
                1 => lib(|| b.set_at(k / C, k % C, x)),
                2 => lib(|| b.as_mut_slice()[k] = x),
                3 => lib(|| b.set(k / C, k % C, x)),
                4 => lib(|| b.apply(|b| b.set(k / C, k % C, x))),
                _ => {
                    inner(b, k, Some(x));
                }
            }
            data[k] = x;
            ensure!(same(b.as_slice(), data), "{what}: after way {way} to write cell {k} the memory is {:?} instead of {data:?}", b.as_slice());
            ensure!(inner(b, k, None).bits() == x.bits(), "{what}: as_matrix does not show cell {k}");
            ctx.state(mix(fp(data), what.bytes().fold(way, |h, b| mix(h, b as u64))));
            ctx.outcome(fp(data));
        }
    }
    Ok(())
}
/// What came out of a buffer.
trait Cells<T> {
    fn cells(&self) -> &[T];
}
impl<T, const N: usize> Cells<T> for [T; N] {
    fn cells(&self) -> &[T] {
        self
    }
}
impl<T> Cells<T> for &[T] {
    fn cells(&self) -> &[T] {
        self
    }
}
impl<T> Cells<T> for &mut [T] {
    fn cells(&self) -> &[T] {
        self
    }
}
impl<T> Cells<T> for Box<[T]> {
    fn cells(&self) -> &[T] {
        self
    }
}
impl<T, const R: usize, const C: usize> Cells<T> for MatrixDataBoxed<R, C, T> {
    fn cells(&self) -> &[T] {
        self.as_slice()
    }
}
impl<T, const R: usize, const C: usize, const N: usize> Cells<T> for MatrixDataArray<R, C, N, T> {
    fn cells(&self) -> &[T] {
        self.as_slice()
    }
}
impl<T, const R: usize, const C: usize> Cells<T> for MatrixDataRef<'_, R, C, T> {
    fn cells(&self) -> &[T] {
        self.as_slice()
    }
}
fn back<T: Sc>(what: &str, got: &dyn Cells<T>, data: &[T]) -> Res {
    ensure!(same(got.cells(), data), "{what}: taken out again: {:?}, put in: {data:?}", got.cells());
    Ok(())
}
/// Memory of `n` cells whose end holds garbage of kind `k`.
fn mem<T: Sc>(n: usize, need: usize, k: usize, seed: i64) -> Vec<T> {
    let mut d = distinct::<T>(need, seed);
    d.extend((need..n).map(|i| T::garbage(k + i * (k & 1))));
    d
}

macro_rules! roview { ($ctx:ident $t:ty, $what:expr, $r:literal $c:literal, $make:expr, $data:expr $(, $back:ident)?) => { {
    let b = lib(|| $make);
    look::<$t, _, _, $r, $c>($ctx, $what, &b, b.as_matrix(), &$data)?;
    $(
        let out = lib(|| IntoInnerData::$back(b));
        back::<$t>($what, &out, &$data)?;
    )?
} } }
macro_rules! rwview { ($ctx:ident $t:ty, $what:expr, $r:literal $c:literal, $make:expr, $data:expr) => { {
    let mut b = lib(|| $make);
    let mut data = $data.clone();
    look::<$t, _, _, $r, $c>($ctx, $what, &b, b.as_matrix(), &data)?;
    write::<$t, _, $r, $c>($ctx, $what, &mut b, &mut data, &mut |b, k, x| match x {
        Some(x) => {
            lib(|| b.as_matrix_mut().set_at(k / $c, k % $c, x));
            x
        }
        None => b.as_matrix().as_slice()[k],
    })?;
    look::<$t, _, _, $r, $c>($ctx, $what, &b, b.as_matrix(), &data)?;
    let out = lib(|| IntoInnerData::into_inner(b));
    back::<$t>($what, &out, &data)?;
} } }
macro_rules! one {
    ($cl:ident $b:ident $a:tt $r:literal $c:literal; $h:ident $t:ty) => {
        $h.job(format!("{} {}x{} {}, every storage kind", stringify!($b), $r, $c, <$t as Sc>::NAME), |ctx| {
            for k in 0..4 {
                inner!($cl $b $a $r $c; ctx $t, k);
            }
            Ok(())
        });
    };
}
macro_rules! inner {
    (imm $b:ident [$($a:tt)*] $r:literal $c:literal; $ctx:ident $t:ty, $k:ident) => {
        let n = stringify!($b);
        let d = mem::<$t>($r * $c, $r * $c, $k, 1);
        let e = mem::<$t>($r * $c + 5, $r * $c, $k, 2);
        let da: [$t; $r * $c] = d.clone().try_into().unwrap();
        let ea: [$t; $r * $c + 5] = e.clone().try_into().unwrap();
        roview!($ctx $t, &format!("{n} from an array"), $r $c, $b::<$($a)* $t, MatrixDataArray<$r, $c, { $r * $c }, $t>>::from(da), d, into_inner);
        let ops = $b::<$($a)* $t, _>::new(MatrixData::new_array::<$r, $c, { $r * $c + 5 }, $t>(ea));
        use_ro::<$t, _, $r, $c>($ctx, &format!("{n} over a larger array"), &ops, &e)?;
        roview!($ctx $t, &format!("{n} over a larger array"), $r $c, $b::<$($a)* $t, _>::new(MatrixData::new_array::<$r, $c, { $r * $c + 5 }, $t>(ea)), e, into_inner);
        roview!($ctx $t, &format!("{n} from a slice"), $r $c, $b::<$($a)* $t, MatrixDataRef<$r, $c, $t>>::from(&d[..]), d);
        roview!($ctx $t, &format!("{n} from a larger slice"), $r $c, $b::<$($a)* $t, MatrixDataRef<$r, $c, $t>>::from(&e[..]), e);
        let mut es = e.clone();
        roview!($ctx $t, &format!("{n} from a larger mutable slice"), $r $c, $b::<$($a)* $t, MatrixDataRef<$r, $c, $t>>::from(&mut es[..]), e);
        roview!($ctx $t, &format!("{n} over heap storage"), $r $c, $b::<$($a)* $t, _>::new(MatrixData::new_boxed::<$r, $c, $t, _>(d.clone())), d, into_inner);
        roview!($ctx $t, &format!("{n} over a wrapped slice"), $r $c, $b::<$($a)* $t, _>::new(MatrixData::new_from::<$r, $c, $t, _>(MatrixData::new_ref::<$r, $c, $t>(&e))), e);
        roview!($ctx $t, &format!("{n} over a mutably wrapped array"), $r $c, $b::<$($a)* $t, _>::new(MatrixData::new_mut_from::<$r, $c, $t, _>(MatrixData::new_array::<$r, $c, { $r * $c + 5 }, $t>(ea))), e, into_inner);
    };
    (mat $b:ident [$($a:tt)*] $r:literal $c:literal; $ctx:ident $t:ty, $k:ident) => {
        let da: [$t; $r * $c] = mem::<$t>($r * $c, $r * $c, $k, 1).try_into().unwrap();
        rwview!($ctx $t, concat!(stringify!($b), " from an array"), $r $c, $b::<$($a)* $t, MatrixDataArray<$r, $c, { $r * $c }, $t>>::from(da), da.to_vec());
        inner!(vec $b [$($a)*] $r $c; $ctx $t, $k);
    };
    (vec $b:ident [$($a:tt)*] $r:literal $c:literal; $ctx:ident $t:ty, $k:ident) => {
        let n = stringify!($b);
        let d = mem::<$t>($r * $c, $r * $c, $k, 1);
        let e = mem::<$t>($r * $c + 5, $r * $c, $k, 2);
        let ea: [$t; $r * $c + 5] = e.clone().try_into().unwrap();
        let mut ops = $b::<$($a)* $t, _>::new(MatrixData::new_array::<$r, $c, { $r * $c + 5 }, $t>(ea));
        use_ro::<$t, _, $r, $c>($ctx, &format!("{n} over a larger array"), &ops, &e)?;
        use_rw::<$t, _, $r, $c>($ctx, &format!("{n} over a larger array"), &mut ops, &e)?;
        rwview!($ctx $t, &format!("{n} over a larger array"), $r $c, $b::<$($a)* $t, _>::new(MatrixData::new_array::<$r, $c, { $r * $c + 5 }, $t>(ea)), e);
        let (mut ds, mut es) = (d.clone(), e.clone());
        rwview!($ctx $t, &format!("{n} from a slice"), $r $c, $b::<$($a)* $t, MatrixDataMut<$r, $c, $t>>::from(&mut ds[..]), d);
        rwview!($ctx $t, &format!("{n} from a larger slice"), $r $c, $b::<$($a)* $t, MatrixDataMut<$r, $c, $t>>::from(&mut es[..]), e);
        rwview!($ctx $t, &format!("{n} over heap storage"), $r $c, $b::<$($a)* $t, _>::new(MatrixData::new_boxed::<$r, $c, $t, _>(d.clone())), d);
        rwview!($ctx $t, &format!("{n} over a wrapped array"), $r $c, $b::<$($a)* $t, _>::new(MatrixData::new_mut_from::<$r, $c, $t, _>(MatrixData::new_array::<$r, $c, { $r * $c + 5 }, $t>(ea))), e);
    };
}

/// Square and vector operations of every named buffer that has them.
macro_rules! squares { ($h:ident $t:ty; $($b:ident $n:literal;)*) => { $(
    $h.job(format!("{} {}x{}, square operations", stringify!($b), $n, $n), |ctx| {
        for k in 0..4 {
            let e = mem::<$t>($n * $n + 5, $n * $n, k, 2);
            let ea: [$t; $n * $n + 5] = e.clone().try_into().unwrap();
            ctx.step(|| format!("{} {}x{}, garbage {k}", stringify!($b), $n, $n));
            let mut b = $b::<$n, $t, _>::new(MatrixData::new_array::<$n, $n, { $n * $n + 5 }, $t>(ea));
            for sp in [0, 3, 5] {
                let g = so::<$t, _, $n>(&mut b, sp)?;
                bits(stringify!($b), "square operations", &g, &so::<$t, _, $n>(&mut zr::<$t, $n, $n>(), 0)?)?;
                unspoilt(stringify!($b))?;
                ctx.state(mix($n, fp(&g)));
                ctx.outcome(fp(&g));
            }
        }
        Ok(())
    });
)* } }
macro_rules! vectors { ($h:ident $t:ty; $($b:ident $n:literal;)*) => { $(
    $h.job(format!("{} of {}, vector operations", stringify!($b), $n), |ctx| {
        for k in 0..4 {
            let e = mem::<$t>($n + 5, $n, k, 2);
            let ea: [$t; $n + 5] = e.clone().try_into().unwrap();
            ctx.step(|| format!("{} of {}, garbage {k}", stringify!($b), $n));
            let mut b = $b::<$n, $t, _>::new(MatrixData::new_array::<$n, 1, { $n + 5 }, $t>(ea));
            let g = vo::<$t, _, $n>(&mut b, &e, k);
            bits(stringify!($b), "vector operations", &g, &vo::<$t, _, $n>(&mut zr::<$t, $n, 1>(), &e, 0))?;
            unspoilt(stringify!($b))?;
            ensure!(same(&b.as_slice()[$n..], &e[$n..]), "{}: vector operations changed the memory past the vector", stringify!($b));
            let mut d = e.clone();
            d[..$n].copy_from_slice(&b.as_slice()[..$n]);
            ensure!(same(b.as_ref(), &d), "{}: as_ref shows {:?}, memory is {d:?}", stringify!($b), b.as_ref());
            for i in 0..$n {
                b.as_mut()[i] = <$t as Sc>::dy(90 + i as i64, 1);
                d[i] = <$t as Sc>::dy(90 + i as i64, 1);
                ensure!(same(b.as_slice(), &d), "{}: after as_mut()[{i}] = .. the memory is {:?} instead of {d:?}", stringify!($b), b.as_slice());
                ensure!(same(AsMatrix::as_matrix(&b).as_slice(), &d) && same(AsMatrixMut::as_matrix_mut(&mut b).as_slice(), &d), "{}: as_matrix after as_mut()[{i}]", stringify!($b));
            }
            ctx.state(mix($n, fp(&g)));
            ctx.outcome(fp(&g));
        }
        Ok(())
    });
)* } }

/// Storage types by themselves: every kind, its conversions, and what the surplus holds.
macro_rules! storages { ($h:ident; $($t:ty, $r:literal $c:literal;)*) => { $(
    $h.job(format!("storage kinds {}x{} {}", $r, $c, <$t as Sc>::NAME), |ctx| {
        for k in 0..4 {
            let d = mem::<$t>($r * $c, $r * $c, k, 1);
            let e = mem::<$t>($r * $c + 5, $r * $c, k, 2);
            let da: [$t; $r * $c] = d.clone().try_into().unwrap();
            let ea: [$t; $r * $c + 5] = e.clone().try_into().unwrap();
            macro_rules! reads { ($what:expr, $make:expr, $data:expr) => { {
                let m = $make;
                look::<$t, _, _, $r, $c>(ctx, $what, &m, &m, &$data)?;
                use_ro::<$t, _, $r, $c>(ctx, $what, &m, &$data)?;
            } } }
            macro_rules! writes { ($what:expr, $make:expr, $data:expr) => { {
                let mut m = $make;
                let mut data = $data.to_vec();
                write::<$t, _, $r, $c>(ctx, $what, &mut m, &mut data, &mut |m, k, x| match x {
                    Some(x) => {
                        lib(|| m.as_mut_slice()[k] = x);
                        x
                    }
                    None => m.as_slice()[k],
                })?;
                look::<$t, _, _, $r, $c>(ctx, $what, &m, &m, &data)?;
                use_ro::<$t, _, $r, $c>(ctx, $what, &m, &data)?;
                use_rw::<$t, _, $r, $c>(ctx, $what, &mut m, &data)?;
                let out = IntoInnerData::into_inner(m);
                back::<$t>($what, &out, &data)?;
            } } }
            reads!("MatrixDataRef", MatrixData::new_ref::<$r, $c, $t>(&e), e);
            reads!("wrapped MatrixDataRef", MatrixData::new_from::<$r, $c, $t, _>(MatrixData::new_ref::<$r, $c, $t>(&e)), e);
            writes!("MatrixDataArray", MatrixDataArray::<$r, $c, { $r * $c }, $t>::new(da), d);
            writes!("larger MatrixDataArray", MatrixData::new_array::<$r, $c, { $r * $c + 5 }, $t>(ea), e);
            let (mut ds, mut es) = (d.clone(), e.clone());
            writes!("MatrixDataMut", MatrixData::new_mut::<$r, $c, $t>(&mut ds[..]), d);
            writes!("larger MatrixDataMut", MatrixData::new_mut::<$r, $c, $t>(&mut es[..]), e);
            writes!("MatrixDataBoxed", MatrixData::new_boxed::<$r, $c, $t, _>(d.clone()), d);
            writes!("MatrixDataBoxed from a box", MatrixDataBoxed::<$r, $c, $t>::from(d.clone().into_boxed_slice()), d);
            writes!("wrapped array", MatrixData::new_mut_from::<$r, $c, $t, _>(MatrixData::new_array::<$r, $c, { $r * $c + 5 }, $t>(ea)), e);
            writes!("wrapped box", MatrixDataRowMajorMut::<$r, $c, _, $t>::new(MatrixData::new_boxed::<$r, $c, $t, _>(d.clone())), d);
            // conversions out
            back::<$t>("array out of MatrixDataArray", &<[$t; $r * $c]>::from(MatrixDataArray::<$r, $c, { $r * $c }, $t>::from(da)), &d)?;
            back::<$t>("slice out of MatrixDataRef", &<&[$t]>::from(MatrixData::new_ref::<$r, $c, $t>(&e)), &e)?;
            back::<$t>("into_inner of MatrixDataRef", &MatrixData::new_ref::<$r, $c, $t>(&e).into_inner(), &e)?;
            back::<$t>("IntoInnerData of MatrixDataRef", &IntoInnerData::into_inner(MatrixData::new_ref::<$r, $c, $t>(&e)), &e)?;
            back::<$t>("IntoInnerData of a wrapped MatrixDataRef", &IntoInnerData::into_inner(MatrixData::new_from::<$r, $c, $t, _>(MatrixData::new_ref::<$r, $c, $t>(&e))).into_inner(), &e)?;
            back::<$t>("slice out of MatrixDataMut", &<&[$t]>::from(MatrixData::new_mut::<$r, $c, $t>(&mut e.clone()[..])), &e)?;
            back::<$t>("mutable slice out of MatrixDataMut", &<&mut [$t]>::from(MatrixData::new_mut::<$r, $c, $t>(&mut e.clone()[..])), &e)?;
            back::<$t>("slice out of MatrixDataRef from a mutable slice", &<&[$t]>::from(MatrixDataRef::<$r, $c, $t>::from(&mut e.clone()[..])), &e)?;
            back::<$t>("into_inner of MatrixDataMut", &MatrixDataMut::<$r, $c, $t>::from(&mut e.clone()[..]).into_inner(), &e)?;
        }
        Ok(())
    });
)* } }

/// Operations whose operands live in different kinds of storage.
#[inline(never)]
fn combo<T: Alpha, A: Fam<T>, B: Fam<T>, C: Fam<T>, const I: usize, const J: usize, const L: usize>(ctx: &mut Ctx) -> Res {
    let mut ar = Arena::new();
    ar.surplus = 4;
    let z = <T as minikalman::num_traits::Zero>::zero();
    let (mut a, mut b, mut bt, mut c) = (A::make::<I, J>(&mut ar, Role::Other(0), z), B::make::<J, L>(&mut ar, Role::Other(1), z), B::make::<L, J>(&mut ar, Role::Other(2), z), C::make::<I, L>(&mut ar, Role::Other(3), z));
    let (mut b2, mut c2) = (B::make::<I, J>(&mut ar, Role::Other(4), z), C::make::<I, J>(&mut ar, Role::Other(5), z));
    let (mut x, mut y) = (B::vec::<J>(&mut ar, Role::Other(6), z), C::vec::<I>(&mut ar, Role::Other(7), z));
    let mut ra = zr::<T, I, J>();
    let (mut rb, mut rbt, mut rc) = (zr::<T, J, L>(), zr::<T, L, J>(), zr::<T, I, L>());
    let (mut rb2, mut rc2) = (zr::<T, I, J>(), zr::<T, I, J>());
    let (mut rx, mut ry) = (zr::<T, J, 1>(), zr::<T, I, 1>());
    let n = I * J + J * L + I * L;
    let what = format!("{} x {} -> {}, {I}x{J}x{L}", A::NAME, B::NAME, C::NAME);
    dev_flat(&distinct::<T>(n, 3), &T::few(), if ctx.thorough { 2 } else { 1 }, &mut |v| {
        ctx.step(|| format!("{what}: {v:?}"));
        ctx.state(mix(fp(v), A::NAME.len() as u64 * 100 + B::NAME.len() as u64 * 10 + C::NAME.len() as u64));
        let mut h = 0;
        for op in 0..14 {
            macro_rules! fill { ($($m:ident $l:expr, $o:expr;)*) => { $( $m.as_mut_slice()[..$l].copy_from_slice(&v[$o..$o + $l]); )* } }
            fill!(a I * J, 0; ra I * J, 0; b J * L, I * J; rb J * L, I * J; bt J * L, I * J; rbt J * L, I * J; c I * L, I * J + J * L; rc I * L, I * J + J * L;);
            for (t, r) in [(b2.as_mut_slice(), rb2.as_mut_slice()), (c2.as_mut_slice(), rc2.as_mut_slice())] {
                for i in 0..I * J {
                    t[i] = v[(i + J) % n];
                    r[i] = t[i];
                }
            }
            for i in 0..J {
                x.as_mut_slice()[i] = v[i];
                rx[i] = v[i];
            }
            for i in 0..I {
                y.as_mut_slice()[i] = v[n - 1 - i];
                ry[i] = v[n - 1 - i];
            }
            macro_rules! run { ($a:expr, $b:expr, $bt:expr, $c:expr, $b2:expr, $c2:expr, $x:expr, $y:expr) => {
                lib(|| match op {
                    0 => $a.mult($b, $c),
                    1 => $a.mult_buffered($b, $c, &mut [T::zero(); J]),
                    2 => $a.mult_transb($bt, $c),
                    3 => $a.multadd_transb($bt, $c),
                    4 => $a.multscale_transb($bt, T::dy(3, 2), $c),
                    5 => $a.mult_rowvector($x, $y),
                    6 => $a.multadd_rowvector($x, $y),
                    7 => $a.sub($b2, $c2),
                    8 => $a.add_inplace_b($b2),
                    9 => $a.sub_inplace_b($b2),
                    10 => $a.add_inplace_a($b2),
                    11 => $a.sub_inplace_a($b2),
                    12 => $a.copy_to($b2),
                    _ => $a.copy_from($c2),
                })
            } }
            run!(&mut a, &mut b, &bt, &mut c, &mut b2, &mut c2, &x, &mut y);
            run!(&mut ra, &mut rb, &rbt, &mut rc, &mut rb2, &mut rc2, &rx, &mut ry);
            let pairs: [(&str, &[T], &[T]); 8] = [("a", a.as_slice(), &ra.as_slice()), ("b", b.as_slice(), rb.as_slice()), ("bt", bt.as_slice(), rbt.as_slice()), ("c", c.as_slice(), rc.as_slice()),
                ("b", b2.as_slice(), rb2.as_slice()), ("c", c2.as_slice(), rc2.as_slice()), ("x", x.as_slice(), rx.as_slice()), ("y", y.as_slice(), ry.as_slice())];
            for (k, (name, got, want)) in pairs.into_iter().enumerate() {
                ensure!(same(&got[..want.len()], want), "{what}: operation {op}: {name} is {:?}, with heap storage {want:?}", &got[..want.len()]);
                let role = Role::Other(k);
                ensure!(got[want.len()..].iter().enumerate().all(|(i, x)| x.bits() == Arena::<T>::canary(role, i).bits()), "{what}: operation {op} changed the memory past {name}");
                h = mix(h, fp(want));
            }
        }
        ctx.outcome(h);
        Ok(())
    })
}
macro_rules! combos { ($h:ident $t:ty, $i:literal $j:literal $k:literal; $($a:ident $b:ident $c:ident;)*) => { $(
    $h.job(format!("operands in {} and {}, result in {}: {}x{}x{} {}", <$a as Fam<$t>>::NAME, <$b as Fam<$t>>::NAME, <$c as Fam<$t>>::NAME, $i, $j, $k, <$t as Sc>::NAME), |ctx| combo::<$t, $a, $b, $c, $i, $j, $k>(ctx));
)* } }
macro_rules! latin { ($h:ident $t:ty, $i:literal $j:literal $k:literal) => {
    combos!($h $t, $i $j $k;
        Boxed Boxed Boxed; Boxed Slice Slice; Boxed Arr Arr; Boxed Wrap Wrap; Boxed Own Own;
        Slice Boxed Slice; Slice Slice Arr; Slice Slice Slice; Arr Arr Arr; Slice Arr Wrap; Slice Wrap Own; Slice Own Boxed;
        Arr Boxed Arr; Arr Slice Wrap; Arr Arr Own; Arr Wrap Boxed; Arr Own Slice;
        Wrap Boxed Wrap; Wrap Slice Own; Wrap Arr Boxed; Wrap Wrap Slice; Wrap Own Arr;
        Own Boxed Own; Own Slice Boxed; Own Arr Slice; Own Wrap Arr; Own Own Wrap;);
} }

/// Histories on two sets of objects that differ in their storage only.
fn walks<T: Alpha>(h: &mut Harness, mks: [Mk<T>; 2], linear: bool, len: usize) {
    let label = mks.map(|m| m().label());
    h.job(format!("every history of {len} events, {} against {}", label[0], label[1]), move |ctx| {
        let (mut s, mut t) = (mks[0](), mks[1]());
        let d = s.dims();
        let ks: &[K] = if linear { &[K::Correct, K::Control, K::Predict, K::Tuned] } else { &[K::NlCorrect, K::NlPredict, K::NlTuned] };
        let sets: &[W] = if linear { &[W::P, W::H, W::R, W::A, W::B] } else { &[W::P, W::H, W::R, W::A] };
        let ls = letters::<T>(ks, d, sets);
        let word = debruijn(ls.len(), len);
        let v0 = Vals::<T>::dense(d, 2);
        for route in 0..4 {
            let mut v = v0.clone();
            for w in ALLW {
                if s.has(w) {
                    s.put(w, v.g(w));
                    t.put(w, v.g(w));
                }
            }
            for (i, &l) in word.iter().enumerate() {
                match &ls[l] {
                    Ev::Set(w, x) => {
                        s.put(*w, x);
                        t.put(*w, x);
                    }
                    Ev::Lambda(l) => v.lambda = *l,
                    Ev::Out(o) => v.out = o.clone(),
                    Ev::Do(k) => {
                        for w in ALLW {
                            if s.has(w) {
                                let n = v.g(w).len();
                                v.v[w as usize].copy_from_slice(&s.buf(w)[..n]);
                            }
                        }
                        ctx.step(|| format!("{} and {}, route {route}, event {i}: {}", s.label(), t.label(), v.show(*k)));
                        ctx.state(mix(v.fp(k.uses()), *k as u64));
                        s.arena().fill_tails(i);
                        t.arena().fill_tails(i);
                        let r = routes(*k);
                        perform(&mut *s, &v, *k, r[route % r.len()])?;
                        perform(&mut *t, &v, *k, r[route % r.len()])?;
                        ensure!(s.arena().tails_hold(i) && t.arena().tails_hold(i), "memory past a matrix was changed");
                        let mut o = 1;
                        for w in ALLW {
                            if s.has(w) {
                                for j in 0..v.g(w).len() {
                                    let (x, y) = (s.buf(w)[j], t.buf(w)[j]);
                                    ensure!(x.bits() == y.bits(), "{w:?}[{j}] is {x:?} in one and {y:?} in the other");
                                    o = mix(o, x.bits());
                                }
                            }
                        }
                        ctx.outcome(o);
                        if !T::EXACT && s.buf(W::P)[..d.0 * d.0].iter().chain(&v.v[0]).any(|x| !(*x < T::dy(64, 1) && *x > T::dy(-64, 1))) {
                            for w in [W::X, W::P] {
                                s.put(w, v0.g(w));
                                t.put(w, v0.g(w));
                            }
                        }
                    }
                }
            }
            ctx.traces += 1;
        }
        Ok(())
    });
}

/// The same histories with the model in read-only buffers of several kinds.
macro_rules! read_only { ($h:ident; $($t:ty, $n:literal $m:literal $c:literal;)*) => { $(
    $h.job(format!("read-only model buffers, {} states, {} measurements, {} controls, {}", $n, $m, $c, <$t as Sc>::NAME), |ctx| {
        type T = $t;
        const N: usize = $n;
        const M: usize = $m;
        const C: usize = $c;
        let depth = if ctx.thorough { 6 } else { 4 };
        let base = Vals::<T>::dense((N, M, C), 2);
        let ws = [W::A, W::Q, W::B, W::Qc, W::H];
        deviations(&base, &vars(&ws, (N, M, C)), &T::few(), 1, &mut |v| {
            let g = |w: W| v.g(w).to_vec();
            let over = |w: W| { let mut x = g(w); x.extend((0..5).map(T::garbage)); x };
            let z = <T as minikalman::num_traits::Zero>::zero();
            let mut ar = Arena::new();
            let word = debruijn(4, depth);
            macro_rules! play { ($fa:expr, $fq:expr, $cb:expr, $cq:expr, $oh:expr) => { {
                let mut kf = RegularKalmanBuilder::new::<N, T>($fa, StateVectorBuffer::new(Boxed::vec::<N>(&mut ar, Role::X, z)), EstimateCovarianceMatrixBuffer::new(Boxed::make::<N, N>(&mut ar, Role::P, z)), $fq,
                    PredictedStateEstimateVectorBuffer::new(Boxed::vec::<N>(&mut ar, Role::Px, z)), TemporaryStateMatrixBuffer::new(Boxed::make::<N, N>(&mut ar, Role::TempP, z)));
                let mut ctl = ControlBuilder::new::<N, C, T>($cb, ControlVectorBuffer::new(Boxed::vec::<C>(&mut ar, Role::U, z)), $cq, TemporaryBQMatrixBuffer::new(Boxed::make::<N, C>(&mut ar, Role::TempBQ, z)));
                let mut obs = RegularObservationBuilder::new::<N, M, T>($oh, MeasurementVectorBuffer::new(Boxed::vec::<M>(&mut ar, Role::Z, z)), MeasurementNoiseCovarianceMatrixBuffer::new(Boxed::make::<M, M>(&mut ar, Role::R, z)),
                    InnovationVectorBuffer::new(Boxed::vec::<M>(&mut ar, Role::Y, z)), InnovationCovarianceMatrixBuffer::new(Boxed::make::<M, M>(&mut ar, Role::S, z)), KalmanGainMatrixBuffer::new(Boxed::make::<N, M>(&mut ar, Role::K, z)),
                    TemporaryResidualCovarianceInvertedMatrixBuffer::new(Boxed::make::<M, M>(&mut ar, Role::SInv, z)), TemporaryHPMatrixBuffer::new(Boxed::make::<M, N>(&mut ar, Role::HP, z)),
                    TemporaryPHTMatrixBuffer::new(Boxed::make::<N, M>(&mut ar, Role::PHt, z)), TemporaryKHPMatrixBuffer::new(Boxed::make::<N, N>(&mut ar, Role::KHP, z)));
                let mut o = vec![];
                let reset = |kf: &mut _| {
                    fn reset<A, Q>(kf: &mut RegularKalman<N, T, A, StateVectorBuffer<N, T, MatrixDataArray<N, 1, N, T>>, EstimateCovarianceMatrixBuffer<N, T, MatrixDataBoxed<N, N, T>>, Q, PredictedStateEstimateVectorBuffer<N, T, MatrixDataArray<N, 1, N, T>>, TemporaryStateMatrixBuffer<N, T, MatrixDataBoxed<N, N, T>>>, v: &Vals<T>) {
                        kf.state_vector_mut().as_mut_slice().copy_from_slice(v.g(W::X));
                        kf.estimate_covariance_mut().as_mut_slice().copy_from_slice(v.g(W::P));
                    }
                    reset(kf, v)
                };
                obs.measurement_noise_covariance_mut().as_mut_slice().copy_from_slice(v.g(W::R));
                obs.measurement_vector_mut().as_mut_slice().copy_from_slice(v.g(W::Z));
                ctl.control_vector_mut().as_mut_slice().copy_from_slice(v.g(W::U));
                reset(&mut kf);
                for (i, &l) in word.iter().enumerate() {
                    if i % 16 == 0 && !<T as Alpha>::EXACT {
                        reset(&mut kf);
                    }
                    lib(|| match l {
                        0 => kf.predict(),
                        1 => kf.predict_tuned(T::dy(1, 1) + T::dy(1, 2)),
                        2 => kf.control(&mut ctl),
                        _ => kf.correct(&mut obs),
                    });
                    o.extend_from_slice(kf.state_vector().as_slice());
                    o.extend_from_slice(kf.estimate_covariance().as_slice());
                }
                o.extend_from_slice(&kf.state_transition().as_slice()[..N * N]);
                o.extend_from_slice(&kf.direct_process_noise().as_slice()[..N * N]);
                o.extend_from_slice(&ctl.control_matrix().as_slice()[..N * C]);
                o.extend_from_slice(&ctl.process_noise_covariance().as_slice()[..C * C]);
                o.extend_from_slice(&obs.observation_matrix().as_slice()[..N * M]);
                o
            } } }
            ctx.step(|| format!("every history of {depth} events with {}", v.show(K::Predict)));
            ctx.state(v.fp(&ws));
            let want = play!(StateTransitionMatrixMutBuffer::new(MatrixData::new_boxed::<N, N, T, _>(g(W::A))), DirectProcessNoiseCovarianceMatrixMutBuffer::new(MatrixData::new_boxed::<N, N, T, _>(g(W::Q))),
                ControlMatrixMutBuffer::new(MatrixData::new_boxed::<N, C, T, _>(g(W::B))), ControlProcessNoiseCovarianceMatrixMutBuffer::new(MatrixData::new_boxed::<C, C, T, _>(g(W::Qc))), ObservationMatrixMutBuffer::new(MatrixData::new_boxed::<M, N, T, _>(g(W::H))));
            let (a, q, b, qc, h) = (over(W::A), over(W::Q), over(W::B), over(W::Qc), over(W::H));
            let arr = play!(StateTransitionMatrixBuffer::<N, T, MatrixDataArray<N, N, { N * N }, T>>::from(<[T; N * N]>::try_from(g(W::A)).unwrap()), DirectProcessNoiseCovarianceMatrixBuffer::<N, T, MatrixDataArray<N, N, { N * N }, T>>::from(<[T; N * N]>::try_from(g(W::Q)).unwrap()),
                ControlMatrixBuffer::<N, C, T, MatrixDataArray<N, C, { N * C }, T>>::from(<[T; N * C]>::try_from(g(W::B)).unwrap()), ControlProcessNoiseCovarianceMatrixBuffer::<C, T, MatrixDataArray<C, C, { C * C }, T>>::from(<[T; C * C]>::try_from(g(W::Qc)).unwrap()), ObservationMatrixBuffer::<M, N, T, MatrixDataArray<M, N, { N * M }, T>>::from(<[T; N * M]>::try_from(g(W::H)).unwrap()));
            bits("read-only arrays", "a history", &arr, &want)?;
            let sl = play!(StateTransitionMatrixBuffer::<N, T, MatrixDataRef<N, N, T>>::from(&a[..]), DirectProcessNoiseCovarianceMatrixBuffer::<N, T, MatrixDataRef<N, N, T>>::from(&q[..]),
                ControlMatrixBuffer::<N, C, T, MatrixDataRef<N, C, T>>::from(&b[..]), ControlProcessNoiseCovarianceMatrixBuffer::<C, T, MatrixDataRef<C, C, T>>::from(&qc[..]), ObservationMatrixBuffer::<M, N, T, MatrixDataRef<M, N, T>>::from(&h[..]));
            bits("read-only larger slices", "a history", &sl, &want)?;
            let wr = play!(StateTransitionMatrixBuffer::new(MatrixData::new_from::<N, N, T, _>(MatrixData::new_ref::<N, N, T>(&a))), DirectProcessNoiseCovarianceMatrixBuffer::new(MatrixData::new_from::<N, N, T, _>(MatrixData::new_ref::<N, N, T>(&q))),
                ControlMatrixBuffer::new(MatrixData::new_from::<N, C, T, _>(MatrixData::new_ref::<N, C, T>(&b))), ControlProcessNoiseCovarianceMatrixBuffer::new(MatrixData::new_from::<C, C, T, _>(MatrixData::new_ref::<C, C, T>(&qc))), ObservationMatrixBuffer::new(MatrixData::new_from::<M, N, T, _>(MatrixData::new_ref::<M, N, T>(&h))));
            bits("read-only wrapped slices", "a history", &wr, &want)?;
            ctx.traces += 3;
            ctx.outcome(fp(&want));
            Ok(())
        })
    });
)* } }
fn main() {
    let mut h = Harness::new("B01");
    let t = h.thorough;
    named!(one; 3 2 4; h f64);
    squares!(h f64; StateTransitionMatrixMutBuffer 3; DirectProcessNoiseCovarianceMatrixMutBuffer 3; ControlProcessNoiseCovarianceMatrixMutBuffer 4; EstimateCovarianceMatrixBuffer 3; InnovationCovarianceMatrixBuffer 2;
        MeasurementNoiseCovarianceMatrixBuffer 2; TemporaryKHPMatrixBuffer 3; TemporaryResidualCovarianceInvertedMatrixBuffer 2; TemporaryStateMatrixBuffer 3;);
    vectors!(h f64; StateVectorBuffer 3; PredictedStateEstimateVectorBuffer 3; ControlVectorBuffer 4; MeasurementVectorBuffer 2; InnovationVectorBuffer 5;);
    storages!(h; f64, 1 1; f32, 2 3; Gf<7>, 4 2; f64, 9 9; f32, 2 17; f64, 12 1;);
    latin!(h f64, 2 3 4);
    macro_rules! hist { ($($t:ty, $n:literal $m:literal $c:literal;)*) => { $(
        for mk in [Reg::<Slice, $t, $n, $m, $c>::boxed, Reg::<Arr, $t, $n, $m, $c>::boxed, Reg::<Wrap, $t, $n, $m, $c>::boxed, Reg::<Own, $t, $n, $m, $c>::boxed, (|| Box::new(Reg::<Boxed, $t, $n, $m, $c>::built())) as Mk<$t>] {
            walks::<$t>(&mut h, [Reg::<Boxed, $t, $n, $m, $c>::boxed, mk], true, if t { 5 } else { 4 });
        }
        for mk in [Ext::<Slice, $t, $n, $m>::boxed, Ext::<Arr, $t, $n, $m>::boxed, Ext::<Wrap, $t, $n, $m>::boxed, Ext::<Own, $t, $n, $m>::boxed, (|| Box::new(Ext::<Boxed, $t, $n, $m>::built())) as Mk<$t>] {
            walks::<$t>(&mut h, [Ext::<Boxed, $t, $n, $m>::boxed, mk], false, if t { 5 } else { 4 });
        }
    )* } }
    hist!(f64, 3 2 1; f32, 1 2 2;);
    // beyond size thresholds
    macro_rules! wide { ($($t:ty, $n:literal $m:literal $c:literal;)*) => { $(
        for mk in [Reg::<Slice, $t, $n, $m, $c>::boxed, Reg::<Wrap, $t, $n, $m, $c>::boxed, Reg::<Own, $t, $n, $m, $c>::boxed, (|| Box::new(Reg::<Boxed, $t, $n, $m, $c>::built())) as Mk<$t>] {
            walks::<$t>(&mut h, [Reg::<Boxed, $t, $n, $m, $c>::boxed, mk], true, 3);
        }
        for mk in [Ext::<Slice, $t, $n, $m>::boxed, Ext::<Wrap, $t, $n, $m>::boxed, Ext::<Own, $t, $n, $m>::boxed, (|| Box::new(Ext::<Boxed, $t, $n, $m>::built())) as Mk<$t>] {
            walks::<$t>(&mut h, [Ext::<Boxed, $t, $n, $m>::boxed, mk], false, 3);
        }
    )* } }
    wide!(f64, 9 2 12; f64, 3 17 1; f64, 17 9 3;);
    #[cfg(feature = "fixed")]
    hist!(I32F32, 2 1 3;);
    read_only!(h; f64, 3 2 1; Gf<7>, 2 1 3;);
    h.run()
}
