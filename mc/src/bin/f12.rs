//! F12: independent measurements may be fused in any order, at once, or component by component.
#![allow(unused_imports)]
use mc::explore::*;
use mc::fam::*;
use mc::gf::Gf;
use mc::num::*;
use mc::points::*;
use mc::rig::*;
use mc::steps::*;
use mc::*;

type Est<T> = (Vec<T>, Vec<T>);
type Ref<R> = (Mx<R>, Mx<R>);
/// A measurement: some rows of the whole.
#[derive(Clone)]
struct Meas<T> { h: Vec<T>, z: Vec<T>, r: Vec<T>, m: usize }
fn rows<T: Sc>(all: &Meas<T>, n: usize, from: usize, m: usize) -> Meas<T> {
    let mut r = vec![T::zero(); m * m];
    for i in 0..m {
        for j in 0..m {
            r[i * m + j] = all.r[(from + i) * all.m + from + j];
        }
    }
    Meas { h: all.h[from * n..(from + m) * n].to_vec(), z: all.z[from..from + m].to_vec(), r, m }
}
/// The objects: one per measurement size; linear or extended.
struct Kit<T: Sc> { n: usize, by: Vec<(usize, Box<dyn Sys<T>>)>, linear: bool }
impl<T: Sc> Kit<T> {
    fn fuse(&mut self, e: &Est<T>, m: &Meas<T>, route: u8) -> Result<Est<T>, Viol> {
        let n = self.n;
        let s = &mut self.by.iter_mut().find(|s| s.0 == m.m).expect("no object of that size").1;
        s.put(W::X, &e.0);
        s.put(W::P, &e.1);
        s.put(W::H, &m.h);
        s.put(W::Z, &m.z);
        s.put(W::R, &m.r);
        if self.linear {
            s.op(Op::Correct, route);
        } else {
            let h = m.h.clone();
            let mut f = |x: &[T], y: &mut [T]| {
                for i in 0..m.m {
                    let mut a = T::zero();
                    for j in 0..n {
                        a = a + h[i * n + j] * x[j];
                    }
                    y[i] = a;
                }
            };
            s.op(Op::NlCorrect(&mut f), route);
        }
        Ok((s.buf(W::X)[..n].to_vec(), s.buf(W::P)[..n * n].to_vec()))
    }
    /// A sequence of corrections, with the reference alongside; None when some step is not usable.
    fn path(&mut self, e: &Est<T>, ms: &[Meas<T>], route: u8) -> Result<Option<(Est<T>, Ref<T::R>)>, Viol> {
        let n = self.n;
        let mut r: Ref<T::R> = (Mx::of(n, 1, &e.0), Mx::of(n, n, &e.1));
        for m in ms {
            match update_ref(&r.0, &r.1, &Mx::of(m.m, n, &m.h), &Mx::of(m.m, 1, &m.z), &Mx::of(m.m, m.m, &m.r)) {
                Some(x) => r = x,
                None => return Ok(None),
            }
        }
        let mut e = e.clone();
        for m in ms {
            e = self.fuse(&e, m, route)?;
        }
        Ok(Some((e, r)))
    }
}
fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut o = vec![];
    for p in permutations(n - 1) {
        for i in 0..=p.len() {
            let mut q = p.clone();
            q.insert(i, n - 1);
            o.push(q);
        }
    }
    o
}
fn whole<T: Sc>(v: &Vals<T>, parts: &[usize]) -> Meas<T> {
    // noise is independent between the parts
    let m = v.d.1;
    let mut r = v.g(W::R).to_vec();
    let part = |i: usize| { let mut a = 0; for (k, p) in parts.iter().enumerate() { if i < a + p { return k; } a += p; } unreachable!() };
    for i in 0..m {
        for j in 0..m {
            if part(i) != part(j) {
                r[i * m + j] = T::zero();
            }
        }
    }
    Meas { h: v.g(W::H).to_vec(), z: v.g(W::Z).to_vec(), r, m }
}
fn fuse_all<T: Alpha>(ctx: &mut Ctx, kit: &mut Kit<T>, v: &Vals<T>, parts: &[usize], i: usize) -> Res {
    let n = v.d.0;
    let all = whole(v, parts);
    let e0: Est<T> = (v.g(W::X).to_vec(), v.g(W::P).to_vec());
    ctx.step(|| format!("x={:?} P={:?} H={:?} z={:?} R={:?} split {parts:?}", e0.0, e0.1, all.h, all.z, all.r));
    let mut ms = vec![];
    let mut at = 0;
    for p in parts {
        ms.push(rows(&all, n, at, *p));
        at += p;
    }
    let mut paths: Vec<(String, Vec<Meas<T>>)> = vec![("at once".into(), vec![all.clone()])];
    for p in permutations(parts.len()) {
        if p.len() <= 3 || p.iter().enumerate().all(|(a, b)| a == *b) || p[0] == p.len() - 1 {
            paths.push((format!("in order {p:?}"), p.iter().map(|j| ms[*j].clone()).collect()));
        }
    }
    // neighbours batched
    if parts.len() == 3 {
        paths.push(("first two at once".into(), vec![rows(&all, n, 0, parts[0] + parts[1]), ms[2].clone()]));
        paths.push(("last two at once".into(), vec![ms[0].clone(), rows(&all, n, parts[0], parts[1] + parts[2])]));
    }
    // components, where their noise is independent
    let m = all.m;
    if (0..m * m).all(|i| i / m == i % m || all.r[i] == T::zero()) {
        paths.push(("by component".into(), (0..m).map(|j| rows(&all, n, j, 1)).collect()));
        paths.push(("by component, backwards".into(), (0..m).rev().map(|j| rows(&all, n, j, 1)).collect()));
    }
    let mut first: Option<(String, Est<T>, Ref<T::R>)> = None;
    let mut o = 1;
    for (k, (name, ms)) in paths.into_iter().enumerate() {
        if ms.iter().any(|m| !kit.by.iter().any(|b| b.0 == m.m)) {
            continue;
        }
        let Some((e, r)) = kit.path(&e0, &ms, ((i + k) % 4) as u8)? else {
            ctx.skipped += 1;
            continue;
        };
        ctx.traces += 1;
        match &first {
            None => {
                for x in e.0.iter().chain(&e.1) {
                    o = mix(o, x.bits());
                }
                first = Some((name, e, r));
            }
            Some((fname, fe, fr)) => {
                for (what, a, b, ra, rb) in [("x", &fe.0, &e.0, &fr.0, &r.0), ("P", &fe.1, &e.1, &fr.1, &r.1)] {
                    for j in 0..a.len() {
                        let ok = if T::EXACT { a[j] == b[j] } else { (a[j].to_ref().sub(b[j].to_ref())).meets_within(ra.d[j].slack() + rb.d[j].slack()) };
                        ensure!(ok, "{what}[{j}] is {:?} fused {fname} and {:?} fused {name}", a[j], b[j]);
                    }
                }
            }
        }
    }
    let mut f = mix(v.fp(K::Correct.uses()), parts.len() as u64);
    f = mix(f, parts[0] as u64);
    ctx.state(f);
    ctx.outcome(o);
    Ok(())
}
trait Within { fn meets_within(self, e: f64) -> bool; }
impl<R: Ring> Within for R {
    fn meets_within(self, e: f64) -> bool {
        // |self| <= 16 e (+ the rounding of the difference itself)
        self.weight() <= 16.0 * e
    }
}
fn job<T: Alpha>(h: &mut Harness, kit: fn() -> Kit<T>, parts: &'static [usize], b: Base, values: Vec<T>, depth: usize) {
    let k0 = kit();
    let m: usize = parts.iter().sum();
    h.job(format!("{} states, measurements {parts:?}, {} {} up to {depth} deviations from {b:?} over {} values", k0.n, k0.by[0].1.label(), if k0.linear { "linear" } else { "extended" }, values.len()), move |ctx| {
        let mut kit = kit();
        let d = (kit.n, m, 1);
        let bv = base::<T>(b, K::Correct, d);
        let vs: Vec<Var> = vars_of(K::Correct, d);
        let mut i = 0;
        deviations(&bv, &vs, &values, depth, &mut |v| {
            i += 1;
            fuse_all(ctx, &mut kit, v, parts, i)
        })
    });
}
fn magnitudes<T: Alpha>(h: &mut Harness, kit: fn() -> Kit<T>, parts: &'static [usize], lo: i32, hi: i32, by: i32) {
    let m: usize = parts.iter().sum();
    h.job(format!("{} states, measurements {parts:?}, {} at magnitudes 2^{lo}..2^{hi}", kit().n, kit().by[0].1.label()), move |ctx| {
        let mut kit = kit();
        let d = (kit.n, m, 1);
        let mut i = 0;
        for seed in 0..4 {
            let mut e = lo;
            while e <= hi {
                let f = if e >= 0 { T::dy(1i64 << e, 1) } else { T::dy(1, 1i64 << -e) };
                for w in [W::P, W::H, W::Z, W::R, W::X] {
                    let mut v = Vals::<T>::dense(d, seed);
                    for c in v.v[w as usize].iter_mut() {
                        *c = *c * f;
                    }
                    i += 1;
                    fuse_all(ctx, &mut kit, &v, parts, i)?;
                    // independent components
                    for a in 0..m {
                        for b in 0..a {
                            v.set(W::R, a, b, T::zero());
                        }
                    }
                    fuse_all(ctx, &mut kit, &v, parts, i)?;
                }
                e += by;
            }
        }
        Ok(())
    });
}
macro_rules! kit {
    (lin $f:ty, $t:ty, $n:literal; $($m:literal)*) => { (|| Kit { n: $n, linear: true, by: vec![$(($m, Reg::<$f, $t, $n, $m, 1>::boxed())),*] }) as fn() -> Kit<$t> };
    (ext $f:ty, $t:ty, $n:literal; $($m:literal)*) => { (|| Kit { n: $n, linear: false, by: vec![$(($m, Ext::<$f, $t, $n, $m>::boxed())),*] }) as fn() -> Kit<$t> };
}
fn main() {
    let mut h = Harness::new("F12");
    let t = h.thorough;
    let x = t as usize;
    macro_rules! gf { ($($n:literal, $parts:expr, ($($m:literal)*), $d:literal;)*) => { $(
        job::<Gf<3>>(&mut h, kit!(lin Own, Gf<3>, $n; $($m)*), $parts, Base::Zero, Gf::<3>::all(), $d + x);
        job::<Gf<7>>(&mut h, kit!(lin Own, Gf<7>, $n; $($m)*), $parts, Base::Dense(0), Gf::<7>::all(), if $d > 3 { 2 } else { 1 } + x);
        job::<Gf<13>>(&mut h, kit!(lin Slice, Gf<13>, $n; $($m)*), $parts, Base::Dense(1), Gf::<13>::all(), 1);
        job::<Gf<3>>(&mut h, kit!(ext Own, Gf<3>, $n; $($m)*), $parts, Base::Zero, Gf::<3>::all(), if $d > 3 { $d - 1 } else { $d } + x);
        job::<f64>(&mut h, kit!(lin Own, f64, $n; $($m)*), $parts, Base::Dense(0), f64::few(), if $d > 3 { 2 } else { 1 });
        job::<f64>(&mut h, kit!(lin Boxed, f64, $n; $($m)*), $parts, Base::Ident, f64::few(), if $d > 3 { 2 } else { 1 });
        job::<f64>(&mut h, kit!(ext Slice, f64, $n; $($m)*), $parts, Base::Dense(2), f64::few(), 1 + x);
        job::<f32>(&mut h, kit!(lin Arr, f32, $n; $($m)*), $parts, Base::Dense(2), f32::few(), 1);
        magnitudes::<f64>(&mut h, kit!(lin Own, f64, $n; $($m)*), $parts, -20, 20, 1);
        magnitudes::<f32>(&mut h, kit!(lin Own, f32, $n; $($m)*), $parts, -8, 8, 1);
    )* } }
    gf!(1, &[1, 1], (1 2), 4; 2, &[1, 1], (1 2), 4; 2, &[1, 2], (1 2 3), 3; 1, &[2, 1], (1 2 3), 4; 2, &[2, 2], (1 2 4), 3; 3, &[1, 1], (1 2), 3; 3, &[2, 1], (1 2 3), 3;
        1, &[1, 1, 1], (1 2 3), 4; 2, &[1, 1, 1], (1 2 3), 3; 2, &[1, 2, 1], (1 2 3 4), 2; 3, &[1, 2, 3], (1 2 3 5 6), 2; 4, &[2, 2], (1 2 4), 2; 4, &[1, 3], (1 3 4), 2; 5, &[3, 2], (1 2 3 5), 2; 2, &[1, 1, 1, 1], (1 4), 2; 6, &[4, 2], (1 2 4 6), 2;);
    // beyond size thresholds
    macro_rules! wide { ($($n:literal, $parts:expr, ($($m:literal)*);)*) => { $(
        job::<Gf<997>>(&mut h, kit!(lin Own, Gf<997>, $n; $($m)*), $parts, Base::Dense(0), vec![Gf::<997>::new(5)], 1);
        job::<f64>(&mut h, kit!(lin Own, f64, $n; $($m)*), $parts, Base::Dense(0), vec![0.0, 2.5], 1);
        job::<f64>(&mut h, kit!(ext Boxed, f64, $n; $($m)*), $parts, Base::Dense(1), vec![2.5], 1);
    )* } }
    wide!(9, &[8, 1], (1 8 9); 8, &[4, 5], (1 4 5 9); 3, &[1, 11], (1 11 12); 12, &[2, 1], (1 2 3); 17, &[1, 1], (1 2); 2, &[9, 8], (1 8 9 17););
    #[cfg(feature = "fixed")]
    {
        job::<I32F32>(&mut h, kit!(lin Own, I32F32, 2; 1 2), &[1, 1], Base::Dense(0), I32F32::few(), 2);
        job::<I32F32>(&mut h, kit!(lin Own, I32F32, 3; 1 2 3), &[2, 1], Base::Dense(1), I32F32::few(), 1 + x);
        job::<I16F16>(&mut h, kit!(lin Own, I16F16, 2; 1 2), &[1, 1], Base::Dense(0), I16F16::few(), 1 + x);
    }
    h.run()
}
