//! N02: matrices as nalgebra storage.
//! For every shape and content, every view operation is compared with the same operation on a native nalgebra matrix.
#![allow(unused_imports)]
use mc::explore::*;
use mc::*;
use minikalman::matrix::*;
use minikalman::prelude::*;
use nalgebra as na;
use std::fmt::Debug;

/// A number for which both sides can be computed.
trait Num: MatrixDataType + na::Scalar + na::ClosedAdd + na::ClosedMul + na::ClosedSub + na::RealField + PartialEq + Debug + Default + 'static {}
impl Num for f32 {}
impl Num for f64 {}

type View<const R: usize, const C: usize, const RC: usize, T> = na::Matrix<T, na::Const<R>, na::Const<C>, MatrixDataArray<R, C, RC, T>>;
/// Strides of the view, whatever the library says they are.
type RS<const R: usize, const C: usize, const RC: usize, T> = <MatrixDataArray<R, C, RC, T> as na::RawStorage<T, na::Const<R>, na::Const<C>>>::RStride;
type CS<const R: usize, const C: usize, const RC: usize, T> = <MatrixDataArray<R, C, RC, T> as na::RawStorage<T, na::Const<R>, na::Const<C>>>::CStride;
type Nat<const R: usize, const C: usize, T> = na::SMatrix<T, R, C>;

/// The library's matrix, the view of it and the native matrix with the same cells.
fn make<const R: usize, const C: usize, const RC: usize, T: Num>(v: &[T], how: u8) -> Result<(View<R, C, RC, T>, Nat<R, C, T>), Viol> {
    let cell = |r: usize, c: usize| v[r * C + c];
    let m = lib(|| match how {
        0 => MatrixData::new_array::<R, C, RC, T>(core::array::from_fn(|i| v[i])),
        1 => MatrixDataArray::<R, C, RC, T>::new(core::array::from_fn(|i| v[i])),
        2 => {
            let mut m = MatrixData::new_array::<R, C, RC, T>([T::default(); RC]);
            for r in 0..R {
                for c in 0..C {
                    m.set_at(r, c, cell(r, c));
                }
            }
            m
        }
        _ => {
            let src = MatrixData::new_array::<R, C, RC, T>(core::array::from_fn(|i| v[i]));
            let mut m = MatrixData::new_array::<R, C, RC, T>([T::default(); RC]);
            m.as_mut_slice().copy_from_slice(src.as_slice());
            m
        }
    });
    for r in 0..R {
        for c in 0..C {
            ensure!(lib(|| m.get_at(r, c)) == cell(r, c), "get_at({r}, {c}) is {:?}", m.get_at(r, c));
        }
    }
    Ok((na::Matrix::from_data(m), Nat::<R, C, T>::from_fn(cell)))
}
macro_rules! eq {
    ($what:expr, $got:expr, $want:expr) => {{
        let (g, w) = (lib(|| $got), $want);
        ensure!(g == w, "{} is {:?} instead of {:?}", $what, g, w);
    }};
}
#[inline(never)]
fn places<const R: usize, const C: usize, const RC: usize, T: Num>(a: &View<R, C, RC, T>, n: &Nat<R, C, T>) -> Res {
    eq!("shape", a.shape(), (R, C));
    eq!("nrows", a.nrows(), R);
    eq!("ncols", a.ncols(), C);
    eq!("len", a.len(), R * C);
    eq!("is_square", a.is_square(), R == C);
    for r in 0..R {
        for c in 0..C {
            eq!(format!("[({r}, {c})]"), a[(r, c)], n[(r, c)]);
            eq!(format!("get(({r}, {c}))"), a.get((r, c)).copied(), Some(n[(r, c)]));
            eq!(format!("index(({r}, {c}))"), *a.index((r, c)), n[(r, c)]);
            eq!(format!("get_unchecked(({r}, {c}))"), unsafe { *a.get_unchecked((r, c)) }, n[(r, c)]);
        }
    }
    for i in 0..R * C {
        eq!(format!("[{i}]"), a[i], n[i]);
        eq!(format!("get({i})"), a.get(i).copied(), n.get(i).copied());
        eq!(format!("vector_to_matrix_index({i})"), a.vector_to_matrix_index(i), n.vector_to_matrix_index(i));
    }
    eq!("get((R, 0))", a.get((R, 0)).is_none(), true);
    eq!("get((0, C))", a.get((0, C)).is_none(), true);
    Ok(())
}
#[inline(never)]
fn iterate<const R: usize, const C: usize, const RC: usize, T: Num>(a: &View<R, C, RC, T>, n: &Nat<R, C, T>) -> Res {
    let want: Vec<T> = n.iter().copied().collect();
    eq!("iter()", a.iter().copied().collect::<Vec<_>>(), want.clone());
    eq!("into_iter()", a.into_iter().copied().collect::<Vec<_>>(), want.clone());
    eq!("iter().len()", a.iter().len(), R * C);
    eq!("iter().count()", a.iter().count(), R * C);
    eq!("iter().rev()", a.iter().rev().copied().collect::<Vec<_>>(), want.iter().rev().copied().collect::<Vec<_>>());
    eq!("iter().last()", a.iter().last().copied(), want.last().copied());
    for k in 0..=R * C {
        // from both ends, meeting at k
        let mut it = a.iter();
        let mut got = vec![];
        lib(|| {
            for _ in 0..k {
                got.push(*it.next_back().unwrap());
            }
            got.extend(it.copied());
        });
        let mut w: Vec<T> = want[R * C - k..].iter().rev().copied().collect();
        w.extend(&want[..R * C - k]);
        ensure!(got == w, "iter() from both ends is {got:?} instead of {w:?}");
        eq!(format!("iter().nth({k})"), a.iter().nth(k).copied(), want.get(k).copied());
    }
    for (r, row) in a.row_iter().enumerate() {
        for c in 0..C {
            eq!(format!("row_iter()[{r}][{c}]"), row[c], n[(r, c)]);
        }
    }
    eq!("row_iter().count()", a.row_iter().count(), R);
    for (c, col) in a.column_iter().enumerate() {
        for r in 0..R {
            eq!(format!("column_iter()[{c}][{r}]"), col[r], n[(r, c)]);
        }
    }
    eq!("column_iter().count()", a.column_iter().count(), C);
    for (k, col) in a.column_iter().rev().enumerate() {
        eq!(format!("column_iter().rev()[{k}]"), col.clone_owned(), n.column(C - 1 - k).clone_owned());
    }
    Ok(())
}
#[inline(never)]
fn parts<const R: usize, const C: usize, const RC: usize, T: Num>(a: &View<R, C, RC, T>, n: &Nat<R, C, T>) -> Res {
    for r in 0..R {
        eq!(format!("row({r})"), a.row(r).clone_owned(), n.row(r).clone_owned());
        for k in 0..=C {
            for (i, x) in a.row_part(r, k).iter().enumerate() {
                eq!(format!("row_part({r}, {k})[{i}]"), *x, n[(r, i)]);
            }
        }
    }
    for c in 0..C {
        eq!(format!("column({c})"), a.column(c).clone_owned(), n.column(c).clone_owned());
        for k in 0..=R {
            for (i, x) in a.column_part(c, k).iter().enumerate() {
                eq!(format!("column_part({c}, {k})[{i}]"), *x, n[(i, c)]);
            }
        }
    }
    // every rectangle, also with steps
    for r0 in 0..R {
        for c0 in 0..C {
            for h in 1..=R - r0 {
                for w in 1..=C - c0 {
                    let (x, y) = (a.view((r0, c0), (h, w)), n.view((r0, c0), (h, w)));
                    eq!(format!("view(({r0}, {c0}), ({h}, {w}))"), x == y, true);
                    for i in 0..h {
                        for j in 0..w {
                            eq!(format!("view(({r0}, {c0}), ({h}, {w}))[({i}, {j})]"), x[(i, j)], n[(r0 + i, c0 + j)]);
                        }
                    }
                    eq!(format!("sum of view(({r0}, {c0}), ({h}, {w}))"), x.sum(), y.sum());
                    eq!(format!("iteration over view(({r0}, {c0}), ({h}, {w}))"), x.iter().copied().collect::<Vec<_>>(), y.iter().copied().collect::<Vec<_>>());
                }
            }
            for (sr, sc) in [(0usize, 1usize), (1, 0), (1, 1), (2, 1), (1, 2)] {
                let (h, w) = ((R - r0).div_ceil(sr + 1), (C - c0).div_ceil(sc + 1));
                if r0 + (h - 1) * (sr + 1) < R && c0 + (w - 1) * (sc + 1) < C {
                    let (x, y) = (a.view_with_steps((r0, c0), (h, w), (sr, sc)), n.view_with_steps((r0, c0), (h, w), (sr, sc)));
                    eq!(format!("view_with_steps(({r0}, {c0}), ({h}, {w}), ({sr}, {sc}))"), x == y, true);
                }
            }
        }
    }
    for r0 in 0..R {
        for k in 1..=R - r0 {
            eq!(format!("rows({r0}, {k})"), a.rows(r0, k) == n.rows(r0, k), true);
        }
        eq!(format!("index(({r0}.., ..))"), a.index((r0.., ..)) == n.index((r0.., ..)), true);
        eq!(format!("index((..{r0}, ..))"), a.index((..r0, ..)) == n.index((..r0, ..)), true);
    }
    for c0 in 0..C {
        for k in 1..=C - c0 {
            eq!(format!("columns({c0}, {k})"), a.columns(c0, k) == n.columns(c0, k), true);
        }
        eq!(format!("index((.., {c0}..))"), a.index((.., c0..)) == n.index((.., c0..)), true);
        eq!(format!("index((.., {c0}))"), a.index((.., c0)) == n.index((.., c0)), true);
    }
    eq!("fixed_view", a.fixed_view::<1, 1>(R - 1, C - 1)[(0, 0)], n[(R - 1, C - 1)]);
    let (x, y) = a.rows_range_pair(0..R / 2, R / 2..R);
    let (p, q) = n.rows_range_pair(0..R / 2, R / 2..R);
    eq!("rows_range_pair", (x == p, y == q), (true, true));
    let (x, y) = a.columns_range_pair(0..C / 2, C / 2..C);
    let (p, q) = n.columns_range_pair(0..C / 2, C / 2..C);
    eq!("columns_range_pair", (x == p, y == q), (true, true));
    Ok(())
}
/// The cells as one slice, which nalgebra defines to be column by column.
fn slices<const R: usize, const C: usize, const RC: usize, T: Num>(v: &[T], a: &View<R, C, RC, T>, n: &Nat<R, C, T>) -> Res {
    let s = lib(|| a.as_slice());
    if s != n.as_slice() && s == v && known("N02", "as_slice, array references and named coordinates of a view with several rows and columns are in row-major order") {
        return Ok(());
    }
    ensure!(s == n.as_slice(), "as_slice() is {s:?} instead of {:?}", n.as_slice());
    Ok(())
}
#[inline(never)]
fn unary<const R: usize, const C: usize, const RC: usize, T: Num>(a: &View<R, C, RC, T>, n: &Nat<R, C, T>) -> Res {
    eq!("transpose()", a.transpose(), n.transpose());
    eq!("adjoint()", a.adjoint(), n.adjoint());
    eq!("map", a.map(|x| x + x), n.map(|x| x + x));
    eq!("map_with_location", a.map_with_location(|i, j, x| (i, j, x)), n.map_with_location(|i, j, x| (i, j, x)));
    eq!("fold", a.fold(vec![], |mut l, x| { l.push(x); l }), n.fold(vec![], |mut l, x| { l.push(x); l }));
    eq!("sum()", a.sum(), n.sum());
    eq!("row_sum()", a.row_sum(), n.row_sum());
    eq!("column_sum()", a.column_sum(), n.column_sum());
    eq!("row_sum_tr()", a.row_sum_tr(), n.row_sum_tr());
    eq!("product()", a.product(), n.product());
    eq!("mean()", a.mean(), n.mean());
    eq!("row_mean()", a.row_mean(), n.row_mean());
    if R == 1 || C == 1 {
    eq!("column_mean()", a.column_mean(), n.column_mean());
    }
    eq!("variance()", a.variance(), n.variance());
    eq!("row_variance()", a.row_variance(), n.row_variance());
    eq!("max()", a.camax(), n.camax());
    eq!("min()", a.camin(), n.camin());
    eq!("icamax_full()", a.icamax_full(), n.icamax_full());
    eq!("is_identity()", a.is_identity(T::default_epsilon()), n.is_identity(T::default_epsilon()));
    eq!("clone", a.clone() == *n, true);
    eq!("==", a == n, true);
    eq!("== from the other side", n == a, true);
    for r in 0..R {
        for c in 0..C {
            let mut o = *n;
            o[(r, c)] += T::one();
            ensure!(lib(|| *a != o), "the view equals a matrix that differs in ({r}, {c})");
        }
    }
    let s = format!("{}", lib(|| a.map(|x| x)));
    ensure!(s == format!("{n}"), "formatting differs");
    ensure!(format!("{}", a.as_view::<na::Const<R>, na::Const<C>, RS<R, C, RC, T>, CS<R, C, RC, T>>()) == format!("{n}"), "formatting differs");
    Ok(())
}
#[inline(never)]
fn binary<const R: usize, const C: usize, const RC: usize, const K: usize, T: Num>(a: &View<R, C, RC, T>, n: &Nat<R, C, T>, b: &View<R, C, RC, T>, m: &Nat<R, C, T>, p: &Nat<C, K, T>) -> Res {
    let av = a.as_view::<na::Const<R>, na::Const<C>, RS<R, C, RC, T>, CS<R, C, RC, T>>();
    let bv = b.as_view::<na::Const<R>, na::Const<C>, RS<R, C, RC, T>, CS<R, C, RC, T>>();
    eq!("view + view", av + bv, n + m);
    eq!("view + native", av + m, n + m);
    eq!("native + view", n + bv, n + m);
    eq!("view - native", av - m, n - m);
    eq!("native - view", n - bv, n - m);
    eq!("native += view", { let mut x = *n; x += bv; x }, n + m);
    eq!("native -= view", { let mut x = *n; x -= bv; x }, n - m);
    eq!("-view", -av, -n);
    eq!("view * 3", av * (T::one() + T::one() + T::one()), n * (T::one() + T::one() + T::one()));
    if R == 1 || C == 1 {
        eq!("view * native", av * p, n * p);
        eq!("view * view'", av * b.transpose(), n * m.transpose());
    }
    eq!("tr_mul", av.tr_mul(m), n.tr_mul(m));
    eq!("native' * view", m.transpose() * av, m.transpose() * n);
    eq!("component_mul", av.component_mul(&bv), n.component_mul(m));
    eq!("dot", a.dot(b), n.dot(m));
    eq!("dot native", a.dot(m), n.dot(m));
    eq!("zip_map", a.zip_map(b, |x, y| (x, y)), n.zip_map(m, |x, y| (x, y)));
    eq!("zip_map with native", a.zip_map(m, |x, y| (x, y)), n.zip_map(m, |x, y| (x, y)));
    eq!("zip_zip_map", a.zip_zip_map(b, n, |x, y, z| (x, y, z)), n.zip_zip_map(m, n, |x, y, z| (x, y, z)));
    eq!("zip_fold", a.zip_fold(b, vec![], |mut l, x, y| { l.push((x, y)); l }), n.zip_fold(m, vec![], |mut l, x, y| { l.push((x, y)); l }));
    eq!("norm", av.norm_squared(), n.norm_squared());
    eq!("clone_owned", av.clone_owned(), *n);
    eq!("copy_from", { let mut x = Nat::<R, C, T>::zeros(); x.copy_from(a); x }, *n);
    eq!("tr_copy_from", { let mut x = Nat::<C, R, T>::zeros(); x.tr_copy_from(a); x }, n.transpose());
    eq!("transpose_to", { let mut x = Nat::<C, R, T>::zeros(); a.transpose_to(&mut x); x }, n.transpose());
    Ok(())
}
#[inline(never)]
fn products<const R: usize, const C: usize, const RC: usize, const K: usize, const CK: usize, T: Num>(a: &View<R, C, RC, T>, n: &Nat<R, C, T>, w: &[T]) -> Res {
    let (p, q) = make::<C, K, CK, T>(w, 0)?;
    let av = a.as_view::<na::Const<R>, na::Const<C>, RS<R, C, RC, T>, CS<R, C, RC, T>>();
    let pv = p.as_view::<na::Const<C>, na::Const<K>, RS<C, K, CK, T>, CS<C, K, CK, T>>();
    // nalgebra 0.32 itself reads past strided columns on the left of a product (axcpy_uninit takes the
    // length of the underlying slice for the number of elements), native views included
    if R == 1 || C == 1 {
        eq!("view * view", av * pv, n * q);
        eq!("view * native", av * q, n * q);
        eq!("gemm", { let mut x = n * q; x.gemm(T::one() + T::one(), &av, &q, T::one()); x }, { let mut x = n * q; x.gemm(T::one() + T::one(), n, &q, T::one()); x });
    }
    eq!("native * view", n * pv, n * q);
    Ok(())
}
fn square<const N: usize, const NN: usize, T: Num>(a: &View<N, N, NN, T>, n: &Nat<N, N, T>) -> Res
where
    na::Const<N>: na::DimMin<na::Const<N>, Output = na::Const<N>>,
{
    let av = a.as_view::<na::Const<N>, na::Const<N>, RS<N, N, NN, T>, CS<N, N, NN, T>>();
    eq!("diagonal()", a.diagonal(), n.diagonal());
    eq!("map_diagonal", a.map_diagonal(|x| x + T::one()), n.map_diagonal(|x| x + T::one()));
    eq!("trace()", a.trace(), n.trace());
    eq!("determinant()", av.determinant(), n.determinant());
    eq!("lower_triangle()", av.lower_triangle(), n.lower_triangle());
    eq!("upper_triangle()", av.upper_triangle(), n.upper_triangle());
    eq!("try_inverse", av.try_inverse(), n.try_inverse());
    eq!("symmetric_part()", av.symmetric_part(), n.symmetric_part());
    Ok(())
}
fn contents<const R: usize, const C: usize, T: Num>(c2: &mut Ctx, f: &mut dyn FnMut(&mut Ctx, &[T], u8) -> Res) -> Res {
    let n = R * C;
    let num = |k: i64| -> T { T::from_i64(k).unwrap() };
    let lab: Vec<T> = (0..n).map(|i| num(3 * i as i64 - n as i64 + 1 + (i as i64 % 2))).collect();
    for how in 0..4 {
        f(c2, &lab, how)?;
    }
    for i in 0..n {
        let mut v = vec![T::default(); n];
        v[i] = num(1);
        for how in 0..4 {
            f(c2, &v, how)?;
        }
        v.iter_mut().for_each(|x| *x = num(2));
        v[i] = num(-5);
        f(c2, &v, 0)?;
    }
    if n <= if c2.thorough { 16 } else { 12 } {
        for bits in 0..1u32 << n {
            let v: Vec<T> = (0..n).map(|i| num(if bits >> i & 1 == 1 { 1 + (i as i64 % 3) } else { -1 })).collect();
            f(c2, &v, 0)?;
        }
    }
    Ok(())
}
fn bits<T: Debug>(v: &[T]) -> u64 {
    format!("{v:?}").bytes().fold(7, |h, b| mix(h, b as u64))
}
fn shape<const R: usize, const C: usize, const RC: usize, const CR: usize, T: Num>(h: &mut Harness) {
    h.job(format!("{R}x{C} {}", std::any::type_name::<T>()), |ctx| {
        let num = |k: i64| -> T { T::from_i64(k).unwrap() };
        let second: Vec<T> = (0..RC).map(|i| num(7 * i as i64 % 11 - 4)).collect();
        let p = Nat::<C, R, T>::from_fn(|i, j| num((i * 5 + j * 3) as i64 - 4));
        contents::<R, C, T>(ctx, &mut |ctx, v, how| {
            ctx.step(|| format!("{R}x{C} cells {v:?}, built in way {how}"));
            ctx.state(mix(bits(v), how as u64));
            let (a, n) = make::<R, C, RC, T>(v, how)?;
            places(&a, &n)?;
            iterate(&a, &n)?;
            parts(&a, &n)?;
            unary(&a, &n)?;
            slices(v, &a, &n)?;
            let (b, m) = make::<R, C, RC, T>(&second, 0)?;
            binary::<R, C, RC, R, T>(&a, &n, &b, &m, &p)?;
            binary::<R, C, RC, R, T>(&b, &m, &a, &n, &p)?;
            products::<R, C, RC, R, CR, T>(&a, &n, &(0..CR).map(|i| num(i as i64 * 3 % 7 - 2)).collect::<Vec<_>>())?;
            ctx.outcome(bits(v));
            Ok(())
        })
    });
}
fn squares<const N: usize, const NN: usize, T: Num>(h: &mut Harness)
where
    na::Const<N>: na::DimMin<na::Const<N>, Output = na::Const<N>>,
{
    h.job(format!("square {N}x{N} {}", std::any::type_name::<T>()), |ctx| {
        contents::<N, N, T>(ctx, &mut |ctx, v, how| {
            ctx.step(|| format!("{N}x{N} cells {v:?}"));
            ctx.state(bits(v));
            let (a, n) = make::<N, N, NN, T>(v, how)?;
            square(&a, &n)?;
            ctx.outcome(bits(v));
            Ok(())
        })
    });
}
/// Named coordinates.
macro_rules! coords {
    ($h:expr, $($r:literal x $c:literal: $($f:ident $i:literal $j:literal),*;)*) => { $(
        $h.job(format!("named coordinates of {}x{}", $r, $c), |ctx| {
            contents::<$r, $c, f64>(ctx, &mut |ctx, v, how| {
                ctx.step(|| format!("cells {v:?}"));
                ctx.state(mix(bits(v), how as u64));
                ctx.outcome(bits(v));
                let (a, n) = make::<$r, $c, { $r * $c }, f64>(v, how)?;
                $(
                    let (x, y) = (lib(|| a.$f), n[($i, $j)]);
                    if x != y && $r > 1 && $c > 1 && x == v[$j * $r + $i] && known("N02", "as_slice, array references and named coordinates of a view with several rows and columns are in row-major order") {
                    } else {
                        ensure!(x == y, "coordinate {} is {x} instead of {y}", stringify!($f));
                    }
                )*
                Ok(())
            })
        });
    )* };
}
fn main() {
    let mut h = Harness::new("N02");
    macro_rules! shapes { ($($r:literal x $c:literal),*) => { $(shape::<$r, $c, { $r * $c }, { $c * $r }, f64>(&mut h);)* } }
    shapes!(1 x 1, 1 x 2, 1 x 3, 1 x 4, 1 x 5, 2 x 1, 2 x 2, 2 x 3, 2 x 4, 2 x 5, 3 x 1, 3 x 2, 3 x 3, 3 x 4, 3 x 5, 4 x 1, 4 x 2, 4 x 3, 4 x 4, 4 x 5, 5 x 1, 5 x 2, 5 x 3, 5 x 4, 5 x 5);
    shapes!(9 x 9, 1 x 9, 17 x 1, 8 x 3, 3 x 10);
    shape::<2, 3, 6, 6, f32>(&mut h);
    squares::<1, 1, f64>(&mut h);
    squares::<2, 4, f64>(&mut h);
    squares::<3, 9, f64>(&mut h);
    squares::<4, 16, f64>(&mut h);
    squares::<5, 25, f64>(&mut h);
    squares::<8, 64, f64>(&mut h);
    coords!(h, 1 x 1: x 0 0; 2 x 1: x 0 0, y 1 0; 3 x 1: x 0 0, y 1 0, z 2 0; 4 x 1: x 0 0, y 1 0, z 2 0, w 3 0; 5 x 1: x 0 0, y 1 0, z 2 0, w 3 0, a 4 0;
        1 x 2: x 0 0, y 0 1; 1 x 3: x 0 0, y 0 1, z 0 2;
        2 x 2: m11 0 0, m12 0 1, m21 1 0, m22 1 1;
        2 x 3: m11 0 0, m12 0 1, m13 0 2, m21 1 0, m22 1 1, m23 1 2;
        3 x 2: m11 0 0, m12 0 1, m21 1 0, m22 1 1, m31 2 0, m32 2 1;
        3 x 3: m11 0 0, m12 0 1, m13 0 2, m21 1 0, m22 1 1, m23 1 2, m31 2 0, m32 2 1, m33 2 2;);
    h.run()
}
