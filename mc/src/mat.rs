//! Enumerations over flat lists of cells, and storage kinds for plain matrix operations.
use crate::explore::*;
use crate::fam::*;
use crate::num::*;
use minikalman::prelude::*;

/// All lists that differ from `base` in at most `k` cells, fewest first.
pub fn dev_flat<T: Sc>(base: &[T], values: &[T], k: usize, f: &mut dyn FnMut(&[T]) -> Res) -> Res {
    fn rec<T: Sc>(cur: &mut [T], values: &[T], from: usize, left: usize, f: &mut dyn FnMut(&[T]) -> Res) -> Res {
        if left == 0 {
            return f(cur);
        }
        for i in from..cur.len() {
            if cur.len() - i < left {
                break;
            }
            let old = cur[i];
            for x in values {
                if x.bits() != old.bits() {
                    cur[i] = *x;
                    rec(cur, values, i + 1, left - 1, f)?;
                }
            }
            cur[i] = old;
        }
        Ok(())
    }
    let mut cur = base.to_vec();
    for d in 0..=k {
        rec(&mut cur, values, 0, d, f)?;
    }
    Ok(())
}
/// The full grid over the cells.
pub fn grid_flat<T: Sc>(n: usize, values: &[T], f: &mut dyn FnMut(&[T]) -> Res) -> Res {
    fn rec<T: Sc>(cur: &mut [T], i: usize, values: &[T], f: &mut dyn FnMut(&[T]) -> Res) -> Res {
        if i == cur.len() {
            return f(cur);
        }
        for x in values {
            cur[i] = *x;
            rec(cur, i + 1, values, f)?;
        }
        Ok(())
    }
    rec(&mut vec![T::zero(); n], 0, values, f)
}
pub fn fp<T: Sc>(v: &[T]) -> u64 {
    v.iter().fold(9, |h, x| mix(h, x.bits()))
}
pub fn same<T: Sc>(a: &[T], b: &[T]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.bits() == y.bits())
}
/// Distinct small dyadic values, none zero.
pub fn distinct<T: Sc>(n: usize, seed: i64) -> Vec<T> {
    (0..n as i64)
        .map(|i| {
            let k = (i * 7 + seed * 3) % 97 - 48;
            T::dy(if k >= 0 { k + 1 } else { k }, 4)
        })
        .collect()
}
/// A matrix in the storage of family F, with the given content and its surplus intact.
pub fn put<F: Fam<T>, T: Sc, const R: usize, const C: usize>(m: &mut F::M<R, C>, v: &[T]) {
    m.as_mut_slice()[..R * C].copy_from_slice(&v[..R * C]);
}
/// Symmetric matrix from its upper triangle.
pub fn sym<T: Sc>(n: usize, tri: &[T]) -> Vec<T> {
    let mut o = vec![T::zero(); n * n];
    let mut k = 0;
    for i in 0..n {
        for j in i..n {
            o[i * n + j] = tri[k];
            o[j * n + i] = tri[k];
            k += 1;
        }
    }
    o
}
/// Memory beyond the matrix must hold the canary still.
pub fn tail<F: Fam<T>, T: Sc, const R: usize, const C: usize>(m: &F::M<R, C>, role: Role) -> bool {
    m.as_slice()[R * C..].iter().enumerate().all(|(i, x)| x.bits() == Arena::<T>::canary(role, i).bits())
}
