//! F06: extended correction.
use mc::explore::*;
use mc::fam::*;
use mc::gf::Gf;
use mc::num::*;
use mc::points::*;
#[allow(unused_imports)]
use mc::rig::*;
use mc::steps::*;
use mc::*;

fn main() {
    let mut h = Harness::new("F06");
    let t = h.thorough;
    suite!(h, K::NlCorrect, ext,
        exact: (1 1 1; 5 5), (1 2 1; 4 6), (2 1 1; 4 6), (1 3 1; 3 5), (3 1 1; 3 4), (2 2 1; 3 5), (2 3 1; 3 4), (3 2 1; 3 4), (3 3 1; 3 3), (2 4 1; 2 3), (4 2 1; 3 3), (4 1 1; 3 3), (1 4 1; 3 4), (1 5 1; 2 3), (5 1 1; 2 3), (4 3 1; 2 3), (3 4 1; 2 3), (4 4 1; 2 3), (5 2 1; 2 3), (3 5 1; 2 2), (6 3 1; 2 2), (3 6 1; 2 2), (6 6 1; 1 2), (8 1 1; 2 2), (1 8 1; 2 2), (8 2 1; 1 2), (7 5 1; 1 2);
        machine: (Slice, f64, 1 1 1; -120 120 6), (Own, f64, 1 2 1; -120 120 6), (Boxed, f64, 2 1 1; -120 120 6), (Arr, f64, 2 2 1; -120 120 6), (Wrap, f64, 2 3 1; -120 120 6), (Slice, f64, 3 2 1; -120 120 6), (Boxed, f64, 3 1 1; -120 120 6), (Arr, f64, 3 3 1; -120 120 6),
            (Boxed, f64, 4 3 1; -120 120 10), (Slice, f64, 3 5 1; -120 120 10), (Wrap, f64, 6 3 1; -120 120 10), (Slice, f64, 5 6 1; -120 120 20),
            (Own, f32, 1 1 1; -15 15 1), (Slice, f32, 2 1 1; -15 15 1), (Arr, f32, 2 2 1; -15 15 1), (Boxed, f32, 3 2 1; -15 15 1), (Wrap, f32, 2 3 1; -15 15 1), (Slice, f32, 4 4 1; -15 15 3););
    #[cfg(feature = "fixed")]
    suite!(h, K::NlCorrect, ext, exact: ; machine: (Wrap, I16F16, 1 1 1; -1 2 1), (Boxed, I16F16, 2 1 1; -1 2 1), (Slice, I16F16, 2 2 1; -1 2 1), (Own, I32F32, 1 2 1; -2 3 1), (Arr, I32F32, 2 2 1; -2 3 1), (Boxed, I32F32, 3 2 1; -2 3 1););
    macro_rules! near { ($(($f:ty, $t:ty, $($d:literal)*; $to:literal)),*) => { $( near_singular_job::<$t>(&mut h, K::NlCorrect, ext!($f, $t, $($d)*), $to); )* } }
    near!((Slice, f64, 1 2 1; 44), (Boxed, f64, 2 2 1; 44), (Arr, f64, 2 3 1; 40), (Wrap, f64, 3 2 1; 44), (Own, f64, 4 4 1; 40), (Own, f64, 3 1 1; 60), (Slice, f32, 1 2 1; 18), (Boxed, f32, 2 2 1; 18), (Own, f32, 3 3 1; 16), (Own, f32, 2 1 1; 30));
    grid_jobs(&mut h, K::NlCorrect, ext!(Own, Gf<7>, 1 1 1), Gf::<7>::all());
    grid_jobs(&mut h, K::NlCorrect, ext!(Own, Gf<3>, 2 1 1), Gf::<3>::all());
    grid_jobs(&mut h, K::NlCorrect, ext!(Own, Gf<3>, 1 2 1), Gf::<3>::all());
    if t { grid_jobs(&mut h, K::NlCorrect, ext!(Own, Gf<5>, 1 2 1), Gf::<5>::all()); }
    if t {
        grid_jobs(&mut h, K::NlCorrect, ext!(Own, Gf<5>, 2 1 1), Gf::<5>::all());
        grid_jobs(&mut h, K::NlCorrect, ext!(Own, Gf<3>, 2 2 1), Gf::<3>::all());
        grid_jobs(&mut h, K::NlCorrect, ext!(Own, Gf<3>, 1 3 1), Gf::<3>::all());
        grid_jobs(&mut h, K::NlCorrect, ext!(Own, Gf<3>, 3 1 1), Gf::<3>::all());
    }
    #[cfg(feature = "alloc")]
    {
        dev_job(&mut h, K::NlCorrect, ext_built!(Gf<3>, 3 2 1), Base::Zero, Gf::<3>::all(), 3);
        dev_job(&mut h, K::NlCorrect, ext_built!(Gf<3>, 2 3 1), Base::Ident, Gf::<3>::all(), 3);
        dev_job(&mut h, K::NlCorrect, ext_built!(f32, 4 3 2), Base::Ident, f32::all(), 1);
        dev_job(&mut h, K::NlCorrect, ext_built!(f64, 1 1 1), Base::Dense(0), f64::all(), 2);
    }
    const KS: &[K] = &[K::NlCorrect];
    const SETS: &[W] = &[W::H, W::R, W::P, W::Z];
    let n = if t { 5 } else { 4 };
    walk_job(&mut h, KS, ext!(Own, Gf<7>, 1 1 1), SETS, n);
    walk_job(&mut h, KS, ext!(Own, Gf<7>, 2 1 1), SETS, n);
    walk_job(&mut h, KS, ext!(Own, Gf<11>, 2 2 1), SETS, n);
    walk_job(&mut h, KS, ext!(Boxed, Gf<11>, 3 2 1), SETS, n);
    walk_job(&mut h, KS, ext!(Arr, Gf<11>, 2 3 1), SETS, n);
    walk_job(&mut h, KS, ext!(Slice, f64, 2 1 1), SETS, n);
    walk_job(&mut h, KS, ext!(Arr, f64, 3 3 1), SETS, n);
    walk_job(&mut h, KS, ext!(Boxed, f64, 4 2 1), SETS, 4);
    walk_job(&mut h, KS, ext!(Wrap, f32, 2 2 1), SETS, n);
    #[cfg(feature = "alloc")]
    walk_job(&mut h, KS, ext_built!(f64, 3 2 1), SETS, 3);
    wide!(h, K::NlCorrect, ext, 9 9 1 / 1, 1 10 1 / 1, 10 1 1 / 1, 12 2 1 / 1, 2 12 1 / 1, 3 13 1 / 1, 13 3 1 / 1, 15 1 1 / 1, 1 15 1 / 1, 16 16 1 / 5, 16 2 1 / 1, 2 16 1 / 1, 17 5 1 / 3, 5 17 1 / 3, 33 2 1 / 23, 2 33 1 / 7, 65 2 1 / 301, 2 66 1 / 301);
    h.run()
}
