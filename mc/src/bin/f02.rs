//! F02: tuned linear prediction.
use mc::explore::*;
use mc::fam::*;
use mc::gf::Gf;
use mc::num::*;
use mc::points::*;
#[allow(unused_imports)]
use mc::rig::*;
use mc::steps::*;
use mc::*;

/// A factor of one is the plain prediction.
fn unit_lambda<T: Alpha>(h: &mut Harness, mk: Mk<T>, values: Vec<T>, depth: usize) {
    h.job(format!("factor one against plain prediction, {}", mk().label()), move |ctx| {
        let (mut s, mut p) = (mk(), mk());
        let d = s.dims();
        let vs = vars_of(K::Predict, d);
        for b in [Base::Zero, Base::Dense(0)] {
            deviations(&base::<T>(b, K::Predict, d), &vs, &values, depth.min(if b == Base::Zero { 12 } else { 2 }), &mut |v| {
                let mut v = v.clone();
                v.lambda = T::one();
                ctx.step(|| format!("{} {}", s.label(), v.show(K::Tuned)));
                load(&mut *s, &v, K::Tuned.uses());
                load(&mut *p, &v, K::Tuned.uses());
                perform(&mut *s, &v, K::Tuned, 0)?;
                perform(&mut *p, &v, K::Predict, 0)?;
                ctx.state(v.fp(K::Predict.uses()));
                let Exp::To(x, pp) = model(K::Predict, &v) else { unreachable!() };
                verify(&mut *s, &v, K::Tuned, &(x, pp))?;
                let mut fp = 3;
                for w in [W::X, W::P] {
                    let (a, b) = (s.buf(w).to_vec(), p.buf(w).to_vec());
                    for i in 0..v.g(w).len() {
                        // scaling by exactly one is exact in every number type
                        ensure!(a[i] == b[i] || T::EXACT && a[i].bits() == b[i].bits(), "{w:?}[{i}]: {:?} with factor one, {:?} without", a[i], b[i]);
                        fp = mix(fp, a[i].bits());
                    }
                }
                ctx.outcome(fp);
                Ok(())
            })?;
        }
        Ok(())
    });
}

fn main() {
    let mut h = Harness::new("F02");
    let t = h.thorough;
    suite!(h, K::Tuned, reg,
        exact: (1 1 1; 4 4), (2 1 1; 4 5), (3 1 1; 3 4), (4 1 1; 3 4), (5 1 1; 3 3), (6 1 1; 2 3), (7 1 1; 2 3), (8 1 1; 2 2), (9 1 1; 2 2);
        machine: (Slice, f64, 1 1 1; -240 240 8), (Own, f64, 2 1 1; -240 240 8), (Boxed, f64, 3 1 1; -240 240 8), (Arr, f64, 4 1 1; -240 240 8), (Wrap, f64, 5 1 1; -240 240 8),
            (Slice, f64, 6 1 1; -240 240 12), (Boxed, f64, 8 1 1; -240 240 12),
            (Own, f32, 1 1 1; -26 26 2), (Slice, f32, 2 1 1; -26 26 2), (Arr, f32, 3 1 1; -26 26 2), (Boxed, f32, 4 1 1; -26 26 2), (Slice, f32, 7 1 1; -26 26 4););
    #[cfg(feature = "fixed")]
    suite!(h, K::Tuned, reg, exact: ; machine: (Wrap, I16F16, 1 1 1; -2 3 1), (Boxed, I16F16, 2 1 1; -2 3 1), (Slice, I16F16, 3 1 1; -2 3 1), (Own, I32F32, 2 1 1; -4 6 1), (Arr, I32F32, 3 1 1; -4 6 1), (Boxed, I32F32, 4 1 1; -4 6 1););
    grid_jobs(&mut h, K::Tuned, reg!(Own, Gf<7>, 1 1 1), Gf::<7>::all());
    grid_jobs(&mut h, K::Tuned, reg!(Own, Gf<3>, 2 1 1), Gf::<3>::all());
    #[cfg(feature = "alloc")]
    {
        dev_job(&mut h, K::Tuned, reg_built!(Gf<3>, 3 2 1), Base::Zero, Gf::<3>::all(), 3);
        dev_job(&mut h, K::Tuned, reg_built!(f32, 4 3 2), Base::Ident, f32::all(), 1);
        dev_job(&mut h, K::Tuned, reg_built!(f64, 1 1 1), Base::Dense(0), f64::all(), 2);
    }
    // live objects
    const KS: &[K] = &[K::Tuned, K::Predict];
    const SETS: &[W] = &[W::A, W::Q, W::P, W::X];
    let n = if t { 5 } else { 4 };
    walk_job(&mut h, KS, reg!(Own, Gf<7>, 1 1 1), SETS, n);
    walk_job(&mut h, KS, reg!(Own, Gf<7>, 2 1 1), SETS, n);
    walk_job(&mut h, KS, reg!(Own, Gf<7>, 3 1 1), SETS, n);
    walk_job(&mut h, KS, reg!(Boxed, Gf<5>, 4 1 1), SETS, n);
    walk_job(&mut h, KS, reg!(Slice, f64, 2 1 1), SETS, n);
    walk_job(&mut h, KS, reg!(Arr, f64, 3 1 1), SETS, n);
    walk_job(&mut h, KS, reg!(Wrap, f32, 2 1 1), SETS, n);
    walk_job(&mut h, KS, reg!(Slice, f64, 5 1 1), SETS, 4);
    #[cfg(feature = "alloc")]
    walk_job(&mut h, KS, reg_built!(f64, 3 1 1), SETS, 3);
    unit_lambda::<Gf<3>>(&mut h, reg!(Own, Gf<3>, 2 1 1), Gf::<3>::all(), 12);
    unit_lambda::<Gf<3>>(&mut h, reg!(Boxed, Gf<3>, 4 1 1), Gf::<3>::all(), 2);
    unit_lambda::<f64>(&mut h, reg!(Slice, f64, 3 1 1), f64::few(), 2);
    unit_lambda::<f32>(&mut h, reg!(Arr, f32, 2 1 1), f32::few(), 2);
    wide!(h, K::Tuned, reg, 10 1 1 / 1, 11 1 1 / 1, 12 1 1 / 1, 13 1 1 / 1, 14 1 1 / 1, 15 1 1 / 1, 16 1 1 / 1, 17 1 1 / 1, 20 1 1 / 3, 24 1 1 / 5, 32 1 1 / 23, 33 1 1 / 23, 65 1 1 / 301);
    h.run()
}
