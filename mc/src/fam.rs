//! Storage families: the memory behind the library's buffer types.
use crate::num::Sc;
use minikalman::matrix::{MatrixData, MatrixDataArray, MatrixDataBoxed, MatrixDataMut, MatrixDataRowMajorMut};
use minikalman::prelude::*;
use std::ops::{Index, IndexMut};

#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash)]
pub enum Role {
    X, P, A, Q, Px, TempP, B, U, Qc, TempBQ, H, Z, R, Y, S, K, SInv, HP, PHt, KHP, ExtX, ExtP, Other(usize),
}
impl Role {
    fn index(self) -> usize {
        use Role::*;
        match self {
            Other(k) => k,
            r => [X, P, A, Q, Px, TempP, B, U, Qc, TempBQ, H, Z, R, Y, S, K, SInv, HP, PHt, KHP, ExtX, ExtP].iter().position(|x| *x == r).unwrap(),
        }
    }
}
pub const SCRATCH: [Role; 10] = [Role::Px, Role::TempP, Role::TempBQ, Role::Y, Role::S, Role::K, Role::SInv, Role::HP, Role::PHt, Role::KHP];

/// Memory handed out to one set of library objects; some of it can be reached behind the library's back.
pub struct Arena<T> {
    pub cells: Vec<(Role, *mut T, usize, usize)>, // role, start, matrix cells, all cells
    pub groups: Vec<Vec<Role>>,                   // roles that share memory (Mem family only)
    shared: Vec<Option<*mut T>>,
    pub surplus: usize,
}
unsafe impl<T> Send for Arena<T> {}
const SHARED: usize = 360;

impl<T: Sc> Arena<T> {
    pub fn new() -> Self {
        Arena { cells: vec![], groups: vec![], shared: vec![], surplus: 0 }
    }
    pub fn sharing(groups: Vec<Vec<Role>>) -> Self {
        let n = groups.len();
        Arena { cells: vec![], groups, shared: vec![None; n], surplus: 0 }
    }
    /// What lies in surplus cell `i` of the buffer in that role: different from buffer to buffer and from cell to
    /// cell, so that moving surplus around shows.
    pub fn canary(role: Role, i: usize) -> T {
        let r = role.index();
        T::garbage(r + i * (1 + (r / 4) % 2 * 2))
    }
    fn raw(role: Role, from: usize, n: usize) -> *mut T {
        let v: Vec<T> = (0..n.max(1)).map(|i| Self::canary(role, i.wrapping_sub(from) & 0xff)).collect();
        Box::leak(v.into_boxed_slice()).as_mut_ptr()
    }
    fn take(&mut self, role: Role, n: usize, surplus: usize, init: T) -> (*mut T, usize) {
        if let Some(g) = self.groups.iter().position(|g| g.contains(&role)) {
            assert!(n <= SHARED);
            let p = *self.shared[g].get_or_insert_with(|| Self::raw(role, 0, SHARED));
            self.cells.push((role, p, n, n));
            return (p, n);
        }
        let p = Self::raw(role, n, n + surplus);
        for i in 0..n {
            unsafe { *p.add(i) = init };
        }
        self.cells.push((role, p, n, n + surplus));
        (p, n + surplus)
    }
    /// Overwrites the temporaries with recognisable garbage.
    pub fn poison(&mut self, k: usize) {
        for &(role, p, n, _) in &self.cells {
            if SCRATCH.contains(&role) {
                for i in 0..n {
                    unsafe { *p.add(i) = T::garbage(k + i * (k & 1)) };
                }
            }
        }
    }
    pub fn tails_intact(&self) -> bool {
        self.cells.iter().all(|&(role, p, n, all)| (n..all).all(|i| unsafe { (*p.add(i)).bits() } == Self::canary(role, i - n).bits()))
    }
    /// Fills what lies beyond the matrices with other garbage.
    pub fn fill_tails(&mut self, k: usize) {
        for (c, &(_, p, n, all)) in self.cells.iter().enumerate() {
            for i in n..all {
                unsafe { *p.add(i) = T::garbage(k % 5 + c + i * (k & 1)) };
            }
        }
    }
    pub fn tails_hold(&self, k: usize) -> bool {
        self.cells.iter().enumerate().all(|(c, &(_, p, n, all))| (n..all).all(|i| unsafe { (*p.add(i)).bits() } == T::garbage(k % 5 + c + i * (k & 1)).bits()))
    }
    pub fn dump(&self, role: Role) -> Vec<T> {
        self.cells.iter().filter(|c| c.0 == role).flat_map(|&(_, p, n, _)| (0..n).map(move |i| unsafe { *p.add(i) })).collect()
    }
}

pub trait Fam<T: Sc>: 'static {
    type M<const R: usize, const C: usize>: MatrixMut<R, C, T> + 'static;
    type V<const N: usize>: MatrixMut<N, 1, T> + 'static;
    const NAME: &'static str;
    /// Can temporaries be poisoned?
    const OPEN: bool = false;
    fn make<const R: usize, const C: usize>(a: &mut Arena<T>, role: Role, init: T) -> Self::M<R, C>;
    fn vec<const N: usize>(a: &mut Arena<T>, role: Role, init: T) -> Self::V<N>;
}

/// Heap storage of the library, exactly sized.
pub struct Boxed;
impl<T: Sc> Fam<T> for Boxed {
    type M<const R: usize, const C: usize> = MatrixDataBoxed<R, C, T>;
    type V<const N: usize> = MatrixDataArray<N, 1, N, T>;
    const NAME: &'static str = "boxed";
    fn make<const R: usize, const C: usize>(_: &mut Arena<T>, _: Role, init: T) -> Self::M<R, C> {
        MatrixData::new_boxed::<R, C, T, _>(vec![init; R * C])
    }
    fn vec<const N: usize>(_: &mut Arena<T>, _: Role, init: T) -> Self::V<N> {
        MatrixDataArray::new([init; N])
    }
}
/// Borrowed slices, longer than needed; what lies beyond the matrix is a canary.
pub struct Slice;
impl<T: Sc> Fam<T> for Slice {
    type M<const R: usize, const C: usize> = MatrixDataMut<'static, R, C, T>;
    type V<const N: usize> = MatrixDataMut<'static, N, 1, T>;
    const NAME: &'static str = "slice";
    const OPEN: bool = true;
    fn make<const R: usize, const C: usize>(a: &mut Arena<T>, role: Role, init: T) -> Self::M<R, C> {
        let (p, n) = a.take(role, R * C, a.surplus, init);
        MatrixData::new_mut::<R, C, T>(unsafe { std::slice::from_raw_parts_mut(p, n) })
    }
    fn vec<const N: usize>(a: &mut Arena<T>, role: Role, init: T) -> Self::V<N> {
        Self::make::<N, 1>(a, role, init)
    }
}
/// Array storage, larger than the matrix.
pub struct Arr;
impl<T: Sc> Fam<T> for Arr {
    type M<const R: usize, const C: usize> = MatrixDataArray<R, C, 72, T>;
    type V<const N: usize> = MatrixDataArray<N, 1, 72, T>;
    const NAME: &'static str = "array";
    fn make<const R: usize, const C: usize>(_: &mut Arena<T>, role: Role, init: T) -> Self::M<R, C> {
        let mut d = [init; 72];
        for i in R * C..72 {
            d[i] = Arena::<T>::canary(role, i - R * C);
        }
        MatrixData::new_array::<R, C, 72, T>(d)
    }
    fn vec<const N: usize>(a: &mut Arena<T>, role: Role, init: T) -> Self::V<N> {
        Self::make::<N, 1>(a, role, init)
    }
}
/// The library's wrapper around caller-supplied row-major storage.
pub struct Wrap;
impl<T: Sc> Fam<T> for Wrap {
    type M<const R: usize, const C: usize> = MatrixDataRowMajorMut<R, C, MatrixDataBoxed<R, C, T>, T>;
    type V<const N: usize> = MatrixDataRowMajorMut<N, 1, MatrixDataBoxed<N, 1, T>, T>;
    const NAME: &'static str = "wrapped";
    fn make<const R: usize, const C: usize>(_: &mut Arena<T>, _: Role, init: T) -> Self::M<R, C> {
        MatrixData::new_mut_from::<R, C, T, _>(MatrixData::new_boxed::<R, C, T, _>(vec![init; R * C]))
    }
    fn vec<const N: usize>(a: &mut Arena<T>, role: Role, init: T) -> Self::V<N> {
        Self::make::<N, 1>(a, role, init)
    }
}
/// Storage supplied by the harness: temporaries can be poisoned between operations and can share memory.
pub struct Own;
pub struct Mem<const R: usize, const C: usize, T>(*mut T, usize);
unsafe impl<const R: usize, const C: usize, T> Send for Mem<R, C, T> {}
impl<T: Sc> Fam<T> for Own {
    type M<const R: usize, const C: usize> = Mem<R, C, T>;
    type V<const N: usize> = Mem<N, 1, T>;
    const NAME: &'static str = "own";
    const OPEN: bool = true;
    fn make<const R: usize, const C: usize>(a: &mut Arena<T>, role: Role, init: T) -> Self::M<R, C> {
        let (p, n) = a.take(role, R * C, 0, init);
        Mem(p, n)
    }
    fn vec<const N: usize>(a: &mut Arena<T>, role: Role, init: T) -> Self::V<N> {
        Self::make::<N, 1>(a, role, init)
    }
}
impl<const R: usize, const C: usize, T> RowMajorSequentialData<R, C, T> for Mem<R, C, T> {
    fn as_slice(&self) -> &[T] {
        unsafe { std::slice::from_raw_parts(self.0, self.1) }
    }
}
impl<const R: usize, const C: usize, T> RowMajorSequentialDataMut<R, C, T> for Mem<R, C, T> {
    fn as_mut_slice(&mut self) -> &mut [T] {
        unsafe { std::slice::from_raw_parts_mut(self.0, self.1) }
    }
}
impl<const R: usize, const C: usize, T> Index<usize> for Mem<R, C, T> {
    type Output = T;
    fn index(&self, i: usize) -> &T {
        &self.as_slice()[i]
    }
}
impl<const R: usize, const C: usize, T> IndexMut<usize> for Mem<R, C, T> {
    fn index_mut(&mut self, i: usize) -> &mut T {
        &mut self.as_mut_slice()[i]
    }
}
impl<const R: usize, const C: usize, T> Matrix<R, C, T> for Mem<R, C, T> {}
impl<const R: usize, const C: usize, T> MatrixMut<R, C, T> for Mem<R, C, T> {}
