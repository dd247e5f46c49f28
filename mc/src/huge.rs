//! Matrices of more cells than 8 or 16 bit indices can name: small integers in plain memory with a guard
//! before and after, compared with integer arithmetic (everything is exactly representable).
use crate::ensure;
use crate::explore::*;

pub const GUARD: usize = 5;
/// Integer of a cell: all small, no two neighbours (in either direction) equal, period prime to the shapes.
pub fn cell(i: usize, seed: usize) -> i64 {
    ((i * 31 + i / 251 + seed * 17) % 61) as i64 - 30
}
pub struct Huge {
    pub v: Vec<i64>,
    pub m: Vec<f64>,
}
impl Huge {
    pub fn new(n: usize, seed: usize) -> Self {
        Self::with(n, |i| cell(i, seed))
    }
    pub fn with(n: usize, f: impl Fn(usize) -> i64) -> Self {
        let v: Vec<i64> = (0..n).map(f).collect();
        let mut m = vec![-777.0; n + GUARD];
        for (m, v) in m.iter_mut().zip(&v) {
            *m = *v as f64;
        }
        Huge { v, m }
    }
    pub fn refer<const R: usize, const C: usize>(&self) -> minikalman::matrix::MatrixDataRef<'_, R, C, f64> {
        MatrixData::new_ref::<R, C, f64>(&self.m)
    }
    pub fn refer_mut<const R: usize, const C: usize>(&mut self) -> minikalman::matrix::MatrixDataMut<'_, R, C, f64> {
        MatrixData::new_mut::<R, C, f64>(&mut self.m)
    }
    /// The content is what it should be, and the guard is intact.
    pub fn is(&self, want: impl Fn(usize) -> i64, what: &str) -> Res {
        let n = self.v.len();
        for i in 0..n {
            ensure!(self.m[i] == want(i) as f64, "{what}: cell {i} of {n} is {}, expected {}", self.m[i], want(i));
        }
        ensure!(self.m[n..].iter().all(|x| *x == -777.0), "{what}: memory beyond the matrix changed");
        Ok(())
    }
    pub fn unchanged(&self, what: &str) -> Res {
        self.is(|i| self.v[i], what)
    }
    pub fn reset(&mut self) {
        for (m, v) in self.m.iter_mut().zip(&self.v) {
            *m = *v as f64;
        }
    }
}
use minikalman::matrix::MatrixData;
