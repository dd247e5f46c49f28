//! B02: buffers of the wrong size are told apart from valid ones.
#![allow(unused_imports)]
use mc::explore::*;
use mc::mat::*;
use mc::num::*;
use mc::*;
use minikalman::buffers::types::*;
use minikalman::matrix::*;
use minikalman::prelude::*;

/// Are the library's assertions compiled in?
const STRICT: bool = !cfg!(feature = "no_assert") && cfg!(debug_assertions);
/// Exactly sized storage insists on its size in release builds, too.
const EXACT: bool = !cfg!(feature = "no_assert");

struct Seen {
    len: usize,
    empty: bool,
    valid: bool,
    rows: usize,
    cols: usize,
    mem: usize,
    data: bool,
}
fn look<T: Sc, M: Matrix<R, C, T>, const R: usize, const C: usize>(m: &M, data: &[T]) -> Seen {
    Seen {
        len: RowMajorSequentialData::len(m),
        empty: RowMajorSequentialData::is_empty(m),
        valid: RowMajorSequentialData::is_valid(m),
        rows: m.rows(),
        cols: m.cols(),
        mem: m.buffer_len(),
        data: same(m.as_slice(), data),
    }
}
/// `build` makes the buffer from `mem` cells and answers the size queries; `need` cells are needed.
#[inline(never)]
fn case(ctx: &mut Ctx, what: &str, r: usize, c: usize, mem: usize, exact: bool, build: &mut dyn FnMut() -> Seen) -> Res {
    let need = r * c;
    ctx.step(|| format!("{what}: {r}x{c} from {mem} cells"));
    let bad = if exact { mem != need } else { mem < need };
    let mut got = None;
    let refused = panics(|| got = Some(lib(&mut *build)));
    ctx.state(mix(mix(what.len() as u64, (r * 64 + c) as u64), mix(mem as u64, what.bytes().fold(0, |h, b| mix(h, b as u64)))));
    if (STRICT || EXACT && exact) && bad {
        ensure!(refused, "{what}: {r}x{c} built from {mem} cells without complaint");
        ctx.outcome(0);
        return Ok(());
    }
    if EXACT && bad && refused {
        // a release build may do without the check of a buffer's minimum size, but need not
        ctx.outcome(1);
        return Ok(());
    }
    ensure!(!refused, "{what}: {r}x{c} from {mem} cells was refused");
    let s = got.unwrap();
    ensure!(s.len == need, "{what}: {r}x{c} in {mem} cells reports length {}", s.len);
    ensure!(s.empty == (need == 0), "{what}: {r}x{c} in {mem} cells reports is_empty = {}", s.empty);
    ensure!(s.valid == (mem >= need), "{what}: {r}x{c} in {mem} cells reports is_valid = {}", s.valid);
    ensure!((s.rows, s.cols) == (r, c), "{what}: {r}x{c} in {mem} cells reports {}x{}", s.rows, s.cols);
    ensure!(s.mem == mem, "{what}: {r}x{c} in {mem} cells reports buffer_len {}", s.mem);
    ensure!(s.data, "{what}: {r}x{c} in {mem} cells does not show the memory");
    ctx.outcome(mix(s.len as u64, s.valid as u64 + 2));
    Ok(())
}
/// Inherent queries must say the same as the trait's.
#[inline(never)]
fn inherent(what: &str, mem: usize, need: usize, len: usize, empty: bool, valid: Option<bool>) -> Res {
    ensure!(len == need && empty == (need == 0), "{what}: length {len} and is_empty {empty} for {need} cells in memory of {mem}");
    if let Some(v) = valid {
        ensure!(v == (mem >= need), "{what}: is_valid is {v} for {need} cells in memory of {mem}");
    }
    Ok(())
}

macro_rules! slices { ($ctx:ident, $t:ty, $b:ident, [$($a:tt)*], $r:literal, $c:literal, $store:ident, $how:ident, $valid:ident) => {
    for mem in 0..=$r * $c + 4 {
        let mut d = distinct::<$t>(mem, 1);
        let copy = d.clone();
        case($ctx, concat!(stringify!($b), " ", stringify!($how)), $r, $c, mem, false, &mut || look::<_, _, $r, $c>(&$b::<$($a)* $t, $store<'_, $r, $c, $t>>::from(d.$how()), &copy))?;
        if !EXACT || mem >= $r * $c {
            let b = $b::<$($a)* $t, $store<'_, $r, $c, $t>>::from(d.$how());
            inherent(stringify!($b), mem, $r * $c, b.len(), b.is_empty(), $valid!(b))?;
        }
    }
} }
macro_rules! has { ($b:ident) => { Some($b.is_valid()) } }
macro_rules! array { ($ctx:ident, $t:ty, $b:ident, [$($a:tt)*], $r:literal, $c:literal, $mem:expr, $valid:ident) => { {
    const MEM: usize = $mem;
    let d: [$t; MEM] = distinct::<$t>(MEM, 2).try_into().unwrap();
    case($ctx, concat!(stringify!($b), " array"), $r, $c, MEM, false, &mut || look::<_, _, $r, $c>(&$b::<$($a)* $t, MatrixDataArray<$r, $c, MEM, $t>>::from(d), &d))?;
    if !EXACT || MEM >= $r * $c {
        let b = $b::<$($a)* $t, MatrixDataArray<$r, $c, MEM, $t>>::from(d);
        inherent(stringify!($b), MEM, $r * $c, b.len(), b.is_empty(), $valid!(b))?;
    }
    // memory wrapped before it becomes a buffer is judged by the queries alone
    let b = $b::<$($a)* $t, MatrixDataArray<$r, $c, MEM, $t>>::new(MatrixData::new_array::<$r, $c, MEM, $t>(d));
    inherent(stringify!($b), MEM, $r * $c, b.len(), b.is_empty(), $valid!(b))?;
    let s = look::<_, _, $r, $c>(&b, &d);
    inherent(stringify!($b), MEM, $r * $c, s.len, s.empty, Some(s.valid))?;
    ensure!(s.data && s.mem == MEM && (s.rows, s.cols) == ($r, $c), "{}: queries of a wrapped array of {MEM}", stringify!($b));
} } }
macro_rules! arrays { ($ctx:ident, $t:ty, $b:ident, $a:tt, $r:literal, $c:literal, $valid:ident) => {
    array!($ctx, $t, $b, $a, $r, $c, $r, $valid);
    array!($ctx, $t, $b, $a, $r, $c, $r * $c - ($r * $c > 0) as usize, $valid);
    array!($ctx, $t, $b, $a, $r, $c, $r * $c, $valid);
    array!($ctx, $t, $b, $a, $r, $c, $r * $c + 1, $valid);
    array!($ctx, $t, $b, $a, $r, $c, $r * $r, $valid);
    array!($ctx, $t, $b, $a, $r, $c, $c * $c, $valid);
} }
macro_rules! one {
    ($cl:ident $b:ident $a:tt $r:literal $c:literal; $ctx:ident $t:ty) => { {
        #[inline(never)]
        fn go(ctx: &mut Ctx) -> Res {
            inner!($cl $b $a $r $c; ctx $t);
            Ok(())
        }
        go($ctx)?;
    } }
}
macro_rules! inner {
    (imm $b:ident $a:tt $r:literal $c:literal; $ctx:ident $t:ty) => {
        slices!($ctx, $t, $b, $a, $r, $c, MatrixDataRef, as_slice, has);
        slices!($ctx, $t, $b, $a, $r, $c, MatrixDataRef, as_mut_slice, has);
        arrays!($ctx, $t, $b, $a, $r, $c, has);
    };
    (mat $b:ident $a:tt $r:literal $c:literal; $ctx:ident $t:ty) => {
        slices!($ctx, $t, $b, $a, $r, $c, MatrixDataMut, as_mut_slice, has);
        arrays!($ctx, $t, $b, $a, $r, $c, has);
    };
    (vec $b:ident [$($a:tt)*] $r:literal $one:literal; $ctx:ident $t:ty) => {
        slices!($ctx, $t, $b, [$($a)*], $r, 1, MatrixDataMut, as_mut_slice, has);
        {
            let d: [$t; $r] = distinct::<$t>($r, 2).try_into().unwrap();
            case($ctx, concat!(stringify!($b), " array"), $r, 1, $r, false, &mut || look::<_, _, $r, 1>(&$b::<$($a)* $t, MatrixDataArray<$r, 1, $r, $t>>::from(d), &d))?;
            let b = $b::<$($a)* $t, MatrixDataArray<$r, 1, $r, $t>>::from(d);
            inherent(stringify!($b), $r, $r, b.len(), b.is_empty(), has!(b))?;
            macro_rules! odd { ($m:expr) => { {
                const MEM: usize = $m;
                let d: [$t; MEM] = distinct::<$t>(MEM, 2).try_into().unwrap();
                let b = $b::<$($a)* $t, MatrixDataArray<$r, 1, MEM, $t>>::new(MatrixData::new_array::<$r, 1, MEM, $t>(d));
                inherent(stringify!($b), MEM, $r, b.len(), b.is_empty(), has!(b))?;
                let s = look::<_, _, $r, 1>(&b, &d);
                inherent(stringify!($b), MEM, $r, s.len, s.empty, Some(s.valid))?;
            } } }
            odd!($r - ($r > 0) as usize);
            odd!($r + 1);
            odd!(0);
        }
    };
}

/// Storage types by themselves.
macro_rules! storage { ($ctx:ident, $t:ty, $r:literal $c:literal) => { {
    for mem in 0..=$r * $c + 4 {
        let mut d = distinct::<$t>(mem, 1);
        let copy = d.clone();
        case($ctx, "MatrixData::new_ref", $r, $c, mem, false, &mut || if STRICT && mem < $r * $c { panic!() } else { look::<_, _, $r, $c>(&MatrixData::new_ref::<$r, $c, $t>(&d), &copy) })?;
        let s = look::<_, _, $r, $c>(&MatrixData::new_ref::<$r, $c, $t>(&d), &copy);
        inherent("new_ref", mem, $r * $c, s.len, s.empty, Some(s.valid))?;
        let s = look::<_, _, $r, $c>(&MatrixDataRef::<$r, $c, $t>::from(&d[..]), &copy);
        inherent("MatrixDataRef::from", mem, $r * $c, s.len, s.empty, Some(s.valid))?;
        let s = look::<_, _, $r, $c>(&MatrixData::new_mut::<$r, $c, $t>(&mut d), &copy);
        inherent("new_mut", mem, $r * $c, s.len, s.empty, Some(s.valid))?;
        let s = look::<_, _, $r, $c>(&MatrixData::new_from::<$r, $c, $t, _>(MatrixData::new_ref::<$r, $c, $t>(&d)), &copy);
        inherent("new_from", mem, $r * $c, s.len, s.empty, Some(s.valid))?;
        let s = look::<_, _, $r, $c>(&MatrixData::new_mut_from::<$r, $c, $t, _>(MatrixData::new_mut::<$r, $c, $t>(&mut d)), &copy);
        inherent("new_mut_from", mem, $r * $c, s.len, s.empty, Some(s.valid))?;
        #[cfg(feature = "alloc")]
        {
            case($ctx, "MatrixData::new_boxed", $r, $c, mem, true, &mut || look::<_, _, $r, $c>(&MatrixData::new_boxed::<$r, $c, $t, _>(d.clone()), &copy))?;
            case($ctx, "MatrixDataBoxed::new", $r, $c, mem, true, &mut || look::<_, _, $r, $c>(&MatrixDataBoxed::<$r, $c, $t>::new(d.clone()), &copy))?;
            case($ctx, "MatrixDataBoxed::from", $r, $c, mem, true, &mut || look::<_, _, $r, $c>(&MatrixDataBoxed::<$r, $c, $t>::from(d.clone().into_boxed_slice()), &copy))?;
        }
    }
    macro_rules! arr { ($m:expr) => { {
        const MEM: usize = $m;
        let d: [$t; MEM] = distinct::<$t>(MEM, 2).try_into().unwrap();
        case($ctx, "MatrixDataArray::new", $r, $c, MEM, true, &mut || look::<_, _, $r, $c>(&MatrixDataArray::<$r, $c, MEM, $t>::new(d), &d))?;
        case($ctx, "MatrixDataArray::from", $r, $c, MEM, true, &mut || look::<_, _, $r, $c>(&MatrixDataArray::<$r, $c, MEM, $t>::from(d), &d))?;
        let s = look::<_, _, $r, $c>(&MatrixDataArray::<$r, $c, MEM, $t>::new_unchecked(d), &d);
        inherent("new_unchecked", MEM, $r * $c, s.len, s.empty, Some(s.valid))?;
        let s = look::<_, _, $r, $c>(&MatrixData::new_array::<$r, $c, MEM, $t>(d), &d);
        inherent("new_array", MEM, $r * $c, s.len, s.empty, Some(s.valid))?;
    } } }
    arr!(0); arr!(1); arr!($r); arr!($c); arr!($r * $c); arr!($r * $c + 1); arr!($r * $c - ($r * $c > 0) as usize); arr!($r * $r); arr!($c * $c); arr!(($r + 1) * $c); arr!($r * ($c + 1));
    #[cfg(feature = "alloc")]
    {
        let v = <$t as Sc>::dy(3, 4);
        let d = vec![v; $r * $c];
        case($ctx, "MatrixData::new", $r, $c, $r * $c, true, &mut || look::<_, _, $r, $c>(&MatrixData::new::<$r, $c, $t>(v), &d))?;
    }
} } }

fn main() {
    let mut h = Harness::new("B02");
    macro_rules! dims { ($($t:ty, $n:literal $m:literal $c:literal;)*) => { $(
        h.job(format!("named buffers with {} states, {} measurements, {} controls, {}", $n, $m, $c, <$t as Sc>::NAME), |ctx| {
            named!(one; $n $m $c; ctx $t);
            Ok(())
        });
    )* } }
    dims!(f64, 1 1 1; f32, 2 3 1; f64, 3 1 2; f32, 5 4 6;);
    macro_rules! shapes { ($($t:ty, $r:literal $c:literal;)*) => { $(
        h.job(format!("storage types {}x{} {}", $r, $c, <$t as Sc>::NAME), |ctx| {
            storage!(ctx, $t, $r $c);
            Ok(())
        });
    )* } }
    shapes!(f64, 0 0; f64, 0 1; f64, 0 3; f64, 3 0; f64, 1 1; f64, 1 2; f32, 2 1; f64, 2 2; f32, 2 3; f64, 3 2; f32, 1 5; f64, 5 1; f64, 4 4; f32, 3 7; f64, 6 5; f64, 9 9;);
    h.job("the empty matrix", |ctx| {
        let e = MatrixData::empty::<f64>();
        case(ctx, "MatrixData::empty", 0, 0, 0, true, &mut || look::<_, _, 0, 0>(&e, &[]))
    });
    h.run()
}
