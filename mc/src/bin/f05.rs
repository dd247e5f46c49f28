//! F05: extended prediction.
use mc::explore::*;
use mc::fam::*;
use mc::gf::Gf;
use mc::num::*;
use mc::points::*;
#[allow(unused_imports)]
use mc::rig::*;
use mc::steps::*;
use mc::*;

fn main() {
    let mut h = Harness::new("F05");
    let t = h.thorough;
    suite!(h, K::NlPredict, ext,
        exact: (1 1 1; 4 4), (2 1 1; 4 5), (3 1 1; 3 4), (4 1 1; 3 4), (5 1 1; 3 3), (6 1 1; 2 3), (7 1 1; 2 3), (8 1 1; 2 2), (9 1 1; 2 2);
        machine: (Slice, f64, 1 1 1; -240 240 8), (Own, f64, 2 1 1; -240 240 8), (Boxed, f64, 3 1 1; -240 240 8), (Arr, f64, 4 1 1; -240 240 8), (Wrap, f64, 5 1 1; -240 240 8),
            (Slice, f64, 6 1 1; -240 240 12), (Boxed, f64, 8 1 1; -240 240 12),
            (Own, f32, 1 1 1; -26 26 2), (Slice, f32, 2 1 1; -26 26 2), (Arr, f32, 3 1 1; -26 26 2), (Boxed, f32, 4 1 1; -26 26 2), (Slice, f32, 7 1 1; -26 26 4););
    #[cfg(feature = "fixed")]
    suite!(h, K::NlPredict, ext, exact: ; machine: (Wrap, I16F16, 1 1 1; -2 3 1), (Boxed, I16F16, 2 1 1; -2 3 1), (Slice, I16F16, 3 1 1; -2 3 1), (Own, I32F32, 2 1 1; -4 6 1), (Arr, I32F32, 3 1 1; -4 6 1), (Boxed, I32F32, 4 1 1; -4 6 1););
    grid_jobs(&mut h, K::NlPredict, ext!(Own, Gf<13>, 1 1 1), Gf::<13>::all());
    grid_jobs(&mut h, K::NlPredict, ext!(Own, Gf<3>, 2 1 1), Gf::<3>::all());
    #[cfg(feature = "alloc")]
    {
        dev_job(&mut h, K::NlPredict, ext_built!(Gf<3>, 3 2 1), Base::Zero, Gf::<3>::all(), 3);
        dev_job(&mut h, K::NlPredict, ext_built!(f32, 4 3 2), Base::Ident, f32::all(), 1);
        dev_job(&mut h, K::NlPredict, ext_built!(f64, 1 1 1), Base::Dense(0), f64::all(), 2);
    }
    suite!(h, K::NlTuned, ext,
        exact: (1 1 1; 4 4), (2 1 1; 4 5), (3 1 1; 3 4), (4 1 1; 3 4), (5 1 1; 3 3), (6 1 1; 2 3), (7 1 1; 2 3), (8 1 1; 2 2), (9 1 1; 2 2);
        machine: (Slice, f64, 1 1 1; -240 240 8), (Own, f64, 2 1 1; -240 240 8), (Boxed, f64, 3 1 1; -240 240 8), (Arr, f64, 4 1 1; -240 240 8), (Wrap, f64, 5 1 1; -240 240 8),
            (Slice, f64, 6 1 1; -240 240 12), (Boxed, f64, 8 1 1; -240 240 12),
            (Own, f32, 1 1 1; -26 26 2), (Slice, f32, 2 1 1; -26 26 2), (Arr, f32, 3 1 1; -26 26 2), (Boxed, f32, 4 1 1; -26 26 2), (Slice, f32, 7 1 1; -26 26 4););
    #[cfg(feature = "fixed")]
    suite!(h, K::NlTuned, ext, exact: ; machine: (Wrap, I16F16, 1 1 1; -2 3 1), (Boxed, I16F16, 2 1 1; -2 3 1), (Slice, I16F16, 3 1 1; -2 3 1), (Own, I32F32, 2 1 1; -4 6 1), (Arr, I32F32, 3 1 1; -4 6 1), (Boxed, I32F32, 4 1 1; -4 6 1););
    grid_jobs(&mut h, K::NlTuned, ext!(Own, Gf<7>, 1 1 1), Gf::<7>::all());
    #[cfg(feature = "alloc")]
    {
        dev_job(&mut h, K::NlTuned, ext_built!(Gf<3>, 3 2 1), Base::Zero, Gf::<3>::all(), 3);
        dev_job(&mut h, K::NlTuned, ext_built!(f32, 4 3 2), Base::Ident, f32::all(), 1);
        dev_job(&mut h, K::NlTuned, ext_built!(f64, 1 1 1), Base::Dense(0), f64::all(), 2);
    }
    // live objects
    const KS: &[K] = &[K::NlPredict, K::NlTuned];
    const SETS: &[W] = &[W::A, W::Q, W::P, W::X];
    let n = if t { 5 } else { 4 };
    walk_job(&mut h, KS, ext!(Own, Gf<7>, 1 1 1), SETS, n);
    walk_job(&mut h, KS, ext!(Own, Gf<7>, 2 1 1), SETS, n);
    walk_job(&mut h, KS, ext!(Own, Gf<7>, 3 1 1), SETS, n);
    walk_job(&mut h, KS, ext!(Boxed, Gf<5>, 4 1 1), SETS, n);
    walk_job(&mut h, KS, ext!(Slice, f64, 2 1 1), SETS, n);
    walk_job(&mut h, KS, ext!(Arr, f64, 3 1 1), SETS, n);
    walk_job(&mut h, KS, ext!(Wrap, f32, 2 1 1), SETS, n);
    walk_job(&mut h, KS, ext!(Slice, f64, 5 1 1), SETS, 4);
    #[cfg(feature = "alloc")]
    walk_job(&mut h, KS, ext_built!(f64, 3 1 1), SETS, 3);
    wide!(h, K::NlPredict, ext, 10 1 1 / 1, 11 1 1 / 1, 12 1 1 / 1, 13 1 1 / 1, 14 1 1 / 1, 15 1 1 / 1, 16 1 1 / 1, 17 1 1 / 1, 20 1 1 / 3, 24 1 1 / 5, 32 1 1 / 23, 33 1 1 / 23, 65 1 1 / 301);
    wide!(h, K::NlTuned, ext, 10 1 1 / 1, 11 1 1 / 1, 12 1 1 / 1, 13 1 1 / 1, 14 1 1 / 1, 15 1 1 / 1, 16 1 1 / 1, 17 1 1 / 1, 20 1 1 / 3, 24 1 1 / 5, 32 1 1 / 23, 33 1 1 / 23, 65 1 1 / 301);
    h.run()
}
