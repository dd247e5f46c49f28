//! F03: control inputs.
use mc::explore::*;
use mc::fam::*;
use mc::gf::Gf;
use mc::num::*;
use mc::points::*;
#[allow(unused_imports)]
use mc::rig::*;
use mc::steps::*;
use mc::*;

fn main() {
    let mut h = Harness::new("F03");
    let t = h.thorough;
    suite!(h, K::Control, reg,
        exact: (1 1 1; 5 5), (1 1 2; 4 6), (2 1 1; 4 6), (2 1 2; 4 5), (1 1 3; 4 5), (3 1 1; 4 5), (3 1 2; 3 4), (2 1 3; 3 4), (3 1 3; 3 4), (4 1 2; 3 3), (4 1 4; 3 3), (2 1 5; 3 3), (5 1 2; 3 3), (5 1 5; 2 3), (1 1 6; 3 4), (6 1 1; 3 3), (6 1 3; 2 3), (3 1 7; 2 3), (8 1 2; 2 2), (2 1 8; 2 3);
        machine: (Slice, f64, 1 1 1; -240 240 8), (Own, f64, 1 1 2; -240 240 8), (Boxed, f64, 2 1 1; -240 240 8), (Arr, f64, 2 1 2; -240 240 8), (Wrap, f64, 3 1 2; -240 240 8), (Slice, f64, 2 1 3; -240 240 8), (Boxed, f64, 4 1 4; -240 240 12), (Slice, f64, 3 1 6; -240 240 12), (Arr, f64, 6 1 2; -240 240 12),
            (Own, f32, 1 1 1; -26 26 2), (Slice, f32, 2 1 1; -26 26 2), (Arr, f32, 2 1 3; -26 26 2), (Boxed, f32, 3 1 2; -26 26 2), (Wrap, f32, 4 1 3; -26 26 4););
    #[cfg(feature = "fixed")]
    suite!(h, K::Control, reg, exact: ; machine: (Wrap, I16F16, 1 1 1; -2 3 1), (Boxed, I16F16, 2 1 2; -2 3 1), (Slice, I16F16, 3 1 1; -2 3 1), (Own, I32F32, 1 1 3; -4 6 1), (Arr, I32F32, 3 1 2; -4 6 1););
    grid_jobs(&mut h, K::Control, reg!(Own, Gf<7>, 1 1 1), Gf::<7>::all());
    grid_jobs(&mut h, K::Control, reg!(Own, Gf<3>, 2 1 1), Gf::<3>::all());
    grid_jobs(&mut h, K::Control, reg!(Own, Gf<3>, 1 1 2), Gf::<3>::all());
    if t {
        grid_jobs(&mut h, K::Control, reg!(Own, Gf<3>, 2 1 2), Gf::<3>::all());
        grid_jobs(&mut h, K::Control, reg!(Own, Gf<5>, 2 1 1), Gf::<5>::all());
        grid_jobs(&mut h, K::Control, reg!(Own, Gf<3>, 3 1 1), Gf::<3>::all());
    }
    #[cfg(feature = "alloc")]
    {
        dev_job(&mut h, K::Control, reg_built!(Gf<3>, 3 2 2), Base::Zero, Gf::<3>::all(), 3);
        dev_job(&mut h, K::Control, reg_built!(f32, 4 3 3), Base::Ident, f32::all(), 1);
        dev_job(&mut h, K::Control, reg_built!(f64, 1 1 1), Base::Dense(0), f64::all(), 2);
    }
    zero_inputs::<f64>(&mut h, reg!(Slice, f64, 3 1 2));
    zero_inputs::<f32>(&mut h, reg!(Boxed, f32, 2 1 3));
    const KS: &[K] = &[K::Control];
    const SETS: &[W] = &[W::B, W::U, W::Qc, W::P];
    let n = if t { 5 } else { 4 };
    walk_job(&mut h, KS, reg!(Own, Gf<7>, 1 1 1), SETS, n);
    walk_job(&mut h, KS, reg!(Own, Gf<7>, 2 1 1), SETS, n);
    walk_job(&mut h, KS, reg!(Own, Gf<7>, 2 1 3), SETS, n);
    walk_job(&mut h, KS, reg!(Boxed, Gf<5>, 3 1 2), SETS, n);
    walk_job(&mut h, KS, reg!(Slice, f64, 2 1 2), SETS, n);
    walk_job(&mut h, KS, reg!(Arr, f64, 3 1 1), SETS, n);
    walk_job(&mut h, KS, reg!(Wrap, f32, 2 1 3), SETS, n);
    walk_job(&mut h, KS, reg!(Slice, f64, 5 1 3), SETS, 4);
    #[cfg(feature = "alloc")]
    walk_job(&mut h, KS, reg_built!(f64, 3 1 2), SETS, 3);
    // no controls at all
    for r in [reg!(Own, f64, 1 1 0), reg!(Boxed, f64, 3 1 0), reg!(Slice, f64, 4 1 0)] {
        dev_job(&mut h, K::Control, r, Base::Dense(0), f64::all(), 1);
        walk_job(&mut h, &[K::Control, K::Predict], r, &[W::P, W::X, W::A], 4);
    }
    dev_job(&mut h, K::Control, reg!(Own, Gf<7>, 2 1 0), Base::Dense(0), Gf::<7>::all(), 2);
    wide!(h, K::Control, reg, 1 1 9 / 1, 9 1 9 / 1, 2 1 12 / 1, 12 1 2 / 1, 3 1 13 / 1, 13 1 3 / 1, 1 1 15 / 1, 16 1 1 / 1, 1 1 16 / 1, 16 1 16 / 3, 2 1 17 / 1, 17 1 2 / 1, 4 1 33 / 7, 33 1 4 / 7, 65 2 3 / 301, 3 1 65 / 301);
    h.run()
}

/// Zero inputs and zero process noise leave every cell of the estimate exactly as it was, whatever B is.
fn zero_inputs<T: Alpha>(h: &mut Harness, mk: Mk<T>) {
    h.job(format!("zero inputs change nothing, {}", mk().label()), move |ctx| {
        let mut s = mk();
        let d = s.dims();
        for seed in 0..6 {
            let mut b = Vals::<T>::dense(d, seed);
            b.v[W::U as usize].fill(T::zero());
            b.v[W::Qc as usize].fill(T::zero());
            deviations(&b, &vars(&[W::B, W::X, W::P], d), &T::all(), 1, &mut |v| {
                for r in 0..4 {
                    ctx.step(|| v.show(K::Control));
                    load(&mut *s, v, K::Control.uses());
                    s.arena().poison(r as usize);
                    perform(&mut *s, v, K::Control, r)?;
                    ctx.state(mix(v.fp(K::Control.uses()), r as u64));
                    for w in [W::X, W::P] {
                        for (i, o) in v.g(w).iter().enumerate() {
                            ensure!(s.buf(w)[i] == *o, "{w:?}[{i}] changed from {o:?} to {:?}", s.buf(w)[i]);
                        }
                    }
                    ctx.outcome(v.fp(&[W::X, W::P]));
                }
                Ok(())
            })?;
        }
        Ok(())
    });
}
