//! Controlled scheduling: an f64 whose every arithmetic operation and comparison is a scheduling point. At a chosen
//! point an operation can be interrupted on its own thread (as by an interrupt handler) or preempted in favour of
//! another thread; the explorer enumerates every point.
use crate::num::*;
use crate::points::Alpha;
use num_traits::{FromPrimitive, One, Zero};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::ops::*;
use std::sync::{Arc, Condvar, Mutex};

#[derive(Copy, Clone, Default, Debug)]
pub struct Pf(pub f64);

const NEVER: u64 = u64::MAX;
thread_local! {
    static LEFT: Cell<u64> = const { Cell::new(NEVER) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static HOOKS: RefCell<Vec<(u64, *mut (dyn FnMut() + 'static))>> = const { RefCell::new(vec![]) };
    static BATON: RefCell<Option<(Arc<Baton>, usize, u64)>> = const { RefCell::new(None) };
}
#[inline(always)]
fn point() {
    COUNT.with(|c| c.set(c.get() + 1));
    let l = LEFT.with(|l| l.get());
    if l == NEVER {
        return;
    }
    if l > 0 {
        LEFT.with(|c| c.set(l - 1));
        return;
    }
    fire();
}
#[cold]
fn fire() {
    LEFT.with(|c| c.set(NEVER));
    if let Some((b, me, again)) = BATON.with(|b| b.borrow().clone()) {
        LEFT.with(|c| c.set(again));
        BATON.with(|b| b.borrow_mut().as_mut().unwrap().2 = NEVER);
        b.pass(me);
        return;
    }
    let hook = HOOKS.with(|h| h.borrow_mut().pop());
    if let Some((_, f)) = hook {
        // the interrupt handler can be interrupted in turn
        if let Some((at, _)) = HOOKS.with(|h| h.borrow().last().copied()) {
            LEFT.with(|c| c.set(at));
        }
        crate::explore::lib_nested(|| unsafe { (*f)() });
        HOOKS.with(|h| h.borrow_mut().clear());
        LEFT.with(|c| c.set(NEVER));
    }
}
/// How many scheduling points `f` passes.
pub fn points(f: impl FnOnce()) -> u64 {
    let c = COUNT.with(|c| c.get());
    f();
    COUNT.with(|d| d.get()) - c
}
/// Runs `f`; at its `k`-th scheduling point the first handler runs to its end, at that one's own `k`-th point the
/// second, and so on.
pub fn interrupted(hooks: Vec<(u64, &mut dyn FnMut())>, f: impl FnOnce()) {
    let v: Vec<(u64, *mut (dyn FnMut() + 'static))> = hooks.into_iter().rev().map(|(k, h)| (k, unsafe { std::mem::transmute::<&mut dyn FnMut(), *mut (dyn FnMut() + 'static)>(h) })).collect();
    let first = v.last().map_or(NEVER, |x| x.0);
    HOOKS.with(|h| *h.borrow_mut() = v);
    LEFT.with(|c| c.set(first));
    f();
    LEFT.with(|c| c.set(NEVER));
    HOOKS.with(|h| h.borrow_mut().clear());
}

/// Two threads of which only the one holding the baton runs.
pub struct Baton {
    m: Mutex<(usize, [bool; 2])>,
    c: Condvar,
}
impl Baton {
    pub fn new() -> Arc<Self> {
        Arc::new(Baton { m: Mutex::new((0, [false; 2])), c: Condvar::new() })
    }
    fn pass(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        if g.1[1 - me] {
            return;
        }
        g.0 = 1 - me;
        self.c.notify_all();
        while g.0 != me {
            g = self.c.wait(g).unwrap();
        }
    }
    fn wait(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        while g.0 != me {
            g = self.c.wait(g).unwrap();
        }
    }
    fn done(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        g.1[me] = true;
        g.0 = 1 - me;
        self.c.notify_all();
    }
    /// Waits for the other thread to finish.
    fn join(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        while !g.1[1 - me] {
            g = self.c.wait(g).unwrap();
        }
    }
    /// Runs `f` as thread `me`; it gives the baton away at its scheduling point number `at` and, once it has it
    /// back, again after `again` more.
    pub fn run(self: &Arc<Self>, me: usize, at: u64, again: u64, f: impl FnOnce()) {
        self.wait(me);
        BATON.with(|b| *b.borrow_mut() = Some((self.clone(), me, again)));
        LEFT.with(|c| c.set(at));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        LEFT.with(|c| c.set(NEVER));
        BATON.with(|b| *b.borrow_mut() = None);
        self.done(me);
        self.join(me);
        if let Err(e) = r {
            std::panic::resume_unwind(e);
        }
    }
}

macro_rules! bin {
    ($($t:ident $m:ident $ta:ident $ma:ident $o:tt;)*) => { $(
        impl $t for Pf {
            type Output = Self;
            #[inline(always)]
            fn $m(self, o: Self) -> Self {
                point();
                Pf(self.0 $o o.0)
            }
        }
        impl $ta for Pf {
            #[inline(always)]
            fn $ma(&mut self, o: Self) {
                point();
                self.0 = self.0 $o o.0;
            }
        }
    )* };
}
bin!(Add add AddAssign add_assign +; Sub sub SubAssign sub_assign -; Mul mul MulAssign mul_assign *; Div div DivAssign div_assign /;);
impl Neg for Pf {
    type Output = Self;
    #[inline(always)]
    fn neg(self) -> Self {
        point();
        Pf(-self.0)
    }
}
impl Zero for Pf {
    fn zero() -> Self {
        Pf(0.0)
    }
    fn is_zero(&self) -> bool {
        point();
        self.0 == 0.0
    }
}
impl One for Pf {
    fn one() -> Self {
        Pf(1.0)
    }
}
impl std::iter::Sum for Pf {
    fn sum<I: Iterator<Item = Self>>(it: I) -> Self {
        it.fold(Pf(0.0), |a, b| a + b)
    }
}
impl PartialEq for Pf {
    fn eq(&self, o: &Self) -> bool {
        point();
        self.0 == o.0
    }
}
impl PartialOrd for Pf {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        point();
        self.0.partial_cmp(&o.0)
    }
}
impl FromPrimitive for Pf {
    fn from_i64(n: i64) -> Option<Self> {
        Some(Pf(n as f64))
    }
    fn from_u64(n: u64) -> Option<Self> {
        Some(Pf(n as f64))
    }
    fn from_f64(f: f64) -> Option<Self> {
        Some(Pf(f))
    }
}
impl minikalman::matrix::MatrixDataType for Pf {
    fn recip(self) -> Self {
        point();
        Pf(1.0 / self.0)
    }
    fn square_root(self) -> Self {
        point();
        Pf(self.0.sqrt())
    }
}
impl Sc for Pf {
    type R = <f64 as Sc>::R;
    const NAME: &'static str = "f64 with scheduling points";
    fn to_ref(self) -> Self::R {
        self.0.to_ref()
    }
    fn agrees(self, r: Self::R) -> bool {
        self.0.agrees(r)
    }
    fn bits(self) -> u64 {
        self.0.to_bits()
    }
    fn dy(n: i64, d: i64) -> Self {
        Pf(n as f64 / d as f64)
    }
    fn garbage(k: usize) -> Self {
        Pf(f64::garbage(k))
    }
}
impl Alpha for Pf {
    fn all() -> Vec<Self> {
        f64::all().into_iter().map(Pf).collect()
    }
    fn few() -> Vec<Self> {
        f64::few().into_iter().map(Pf).collect()
    }
    const EXACT: bool = false;
}
