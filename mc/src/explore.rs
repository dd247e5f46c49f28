//! The exploration engine: named jobs, each a deterministic exhaustive enumeration, run in parallel;
//! counts what was covered, confirms a violation by replaying its job, and writes the replay file.
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    #[inline(always)]
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
}
pub type FxSet = HashSet<u64, BuildHasherDefault<Fx>>;
#[inline(always)]
pub fn mix(h: u64, x: u64) -> u64 {
    let z = (h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    (z ^ (z >> 29)).wrapping_mul(0xBF58_476D_1CE4_E5B9).rotate_left(31)
}

#[derive(Debug, Clone)]
pub struct Viol(pub String);
pub type Res = Result<(), Viol>;
pub fn viol<S: Into<String>>(s: S) -> Res {
    Err(Viol(s.into()))
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::explore::Viol(format!($($a)*))); } };
}

thread_local! {
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static BEAT: RefCell<Option<Arc<Beat>>> = const { RefCell::new(None) };
}
#[derive(Default)]
pub struct Beat {
    idx: AtomicU64,
    in_lib: AtomicBool,
    job: AtomicUsize,
}

/// Runs library code: a panic inside is the library's.
#[inline(always)]
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    IN_LIB.with(|c| c.set(true));
    let r = f();
    IN_LIB.with(|c| c.set(false));
    r
}
/// Runs a handler that interrupts library code and runs library code itself.
pub fn lib_nested<R>(f: impl FnOnce() -> R) -> R {
    let was = IN_LIB.with(|c| c.get());
    let r = f();
    IN_LIB.with(|c| c.set(was));
    r
}
/// Is library code running on this thread?
#[inline(always)]
pub fn in_lib() -> bool {
    IN_LIB.try_with(|c| c.get()).unwrap_or(false)
}
/// Runs harness code called back from library code.
#[inline(always)]
pub fn unlib<R>(f: impl FnOnce() -> R) -> R {
    let was = IN_LIB.with(|c| c.replace(false));
    let r = f();
    IN_LIB.with(|c| c.set(was));
    r
}
/// True if `f` panics; the panic is expected behaviour.
pub fn panics(f: impl FnOnce()) -> bool {
    let was = IN_LIB.with(|c| c.get());
    let r = catch_unwind(AssertUnwindSafe(f)).is_err();
    IN_LIB.with(|c| c.set(was));
    PANIC.with(|p| p.borrow_mut().take());
    r
}

/// Is `key` a listed finding of this property? Announces it, once, if so.
pub fn known(prop: &str, key: &str) -> bool {
    use std::sync::OnceLock;
    static LIST: OnceLock<Vec<String>> = OnceLock::new();
    static SAID: Mutex<Vec<String>> = Mutex::new(vec![]);
    let list = LIST.get_or_init(|| {
        let a: Vec<String> = std::env::args().collect();
        arg(&a, "--known").and_then(|f| std::fs::read_to_string(f).ok()).unwrap_or_default().lines().map(|l| l.to_string()).collect()
    });
    let head = format!("finding: property={prop} {key}");
    if !list.iter().any(|l| l.split(';').next().unwrap().trim() == head) {
        return false;
    }
    let mut said = SAID.lock().unwrap();
    if !said.contains(&head) {
        println!("KNOWN-FINDING: property={prop} {key}");
        said.push(head);
    }
    true
}

pub const CAP: usize = 3_000_000;

pub struct Ctx {
    pub thorough: bool,
    idx: u64,
    trace_at: u64,
    desc: Option<String>,
    seen: FxSet,
    outcomes: FxSet,
    capped: bool,
    pub transitions: u64,
    extra: u64,
    pub traces: u64,
    pub skipped: u64,
    pub samples: Vec<String>,
    next_sample: u64,
    beat: Arc<Beat>,
}
impl Ctx {
    fn new(thorough: bool, trace_at: u64, beat: Arc<Beat>) -> Self {
        Ctx { thorough, idx: 0, trace_at, desc: None, seen: Default::default(), outcomes: Default::default(), capped: false,
              transitions: 0, extra: 0, traces: 0, skipped: 0, samples: vec![], next_sample: 1, beat }
    }
    /// Announces the next step; the description is only built for the step being replayed and for samples.
    #[inline(always)]
    pub fn step(&mut self, describe: impl FnOnce() -> String) {
        self.idx += 1;
        self.beat.idx.store(self.idx, SeqCst);
        if self.idx == self.trace_at || self.idx == self.next_sample {
            self.note(describe());
        }
    }
    #[cold]
    fn note(&mut self, s: String) {
        if self.idx == self.trace_at {
            self.desc = Some(s.clone());
        }
        if self.idx == self.next_sample {
            if self.samples.len() < 3 {
                self.samples.push(s);
                self.next_sample = self.next_sample * 997 + 13;
            } else {
                self.next_sample = 0;
            }
        }
    }
    /// Records a visited state; true if it is new.
    #[inline(always)]
    pub fn state(&mut self, fp: u64) -> bool {
        if self.seen.len() >= CAP {
            self.capped = true;
            return !self.seen.contains(&fp);
        }
        self.seen.insert(fp)
    }
    /// Counts `n` distinct inputs decided in a tight loop, each one transition.
    pub fn bulk(&mut self, n: u64) {
        self.transitions += n;
        self.extra += n;
    }
    #[inline(always)]
    pub fn outcome(&mut self, fp: u64) {
        self.transitions += 1;
        if self.outcomes.len() < CAP {
            self.outcomes.insert(fp);
        }
    }
}

pub struct Job {
    pub name: String,
    f: Box<dyn Fn(&mut Ctx) -> Res + Send + Sync>,
}
#[derive(Default, Debug, Clone)]
struct Tot {
    states: u64,
    outcomes: u64,
    transitions: u64,
    traces: u64,
    skipped: u64,
    capped: u64,
    secs: f64,
    samples: Vec<String>,
}

pub struct Harness {
    pub prop: &'static str,
    pub thorough: bool,
    pub assumptions: Vec<String>,
    jobs: Vec<Job>,
    args: Vec<String>,
}

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Harness {
    pub fn new(prop: &'static str) -> Self {
        let args: Vec<String> = std::env::args().collect();
        let thorough = arg(&args, "--tier").as_deref() == Some("thorough");
        Harness { prop, thorough, assumptions: vec![], jobs: vec![], args }
    }
    pub fn job(&mut self, name: impl Into<String>, f: impl Fn(&mut Ctx) -> Res + Send + Sync + 'static) {
        let name = name.into();
        assert!(self.jobs.iter().all(|j| j.name != name), "duplicate job {name}");
        self.jobs.push(Job { name, f: Box::new(f) });
    }

    fn exec(j: &Job, thorough: bool, trace_at: u64, beat: Arc<Beat>) -> (Ctx, Result<Res, String>) {
        let mut ctx = Ctx::new(thorough, trace_at, beat.clone());
        IN_LIB.with(|c| c.set(false));
        PANIC.with(|p| p.borrow_mut().take());
        BEAT.with(|b| *b.borrow_mut() = Some(beat));
        let r = catch_unwind(AssertUnwindSafe(|| (j.f)(&mut ctx)));
        let r = match r {
            Ok(r) => Ok(r),
            Err(_) => {
                let was_lib = IN_LIB.with(|c| c.get());
                let msg = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                if was_lib {
                    Ok(viol(format!("the library panicked: {msg}")))
                } else {
                    Err(msg)
                }
            }
        };
        (ctx, r)
    }

    pub fn run(mut self) -> ! {
        let out = arg(&self.args, "--out");
        let replay_dir = arg(&self.args, "--replay-dir").unwrap_or_else(|| ".".into());
        let variant = arg(&self.args, "--variant").unwrap_or_default();
        if let Some(f) = arg(&self.args, "--job") {
            self.jobs.retain(|j| j.name == f);
            assert!(!self.jobs.is_empty(), "no such job");
        }
        if self.args.iter().any(|a| a == "--list") {
            for j in &self.jobs {
                println!("{}", j.name);
            }
            std::process::exit(0);
        }
        let start = Instant::now();
        let nthreads = arg(&self.args, "--threads").and_then(|v| v.parse().ok()).unwrap_or(8usize);
        let thorough = self.thorough;
        let jobs = Arc::new(std::mem::take(&mut self.jobs));
        {
            let (jobs, prop, rd, variant) = (jobs.clone(), self.prop, replay_dir.clone(), variant.clone());
            std::panic::set_hook(Box::new(move |i| {
                let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
                let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
                if m.contains("unsafe precondition") || m.contains("panic in a function that cannot unwind") {
                    // cannot be caught: the process ends here
                    let (ix, jb) = BEAT.with(|b| b.borrow().as_ref().map(|b| (b.idx.load(SeqCst), b.job.load(SeqCst))).unwrap_or_default());
                    if in_lib() {
                        let p = write_replay(&rd, prop, &variant, &jobs[jb].name, ix, &m, "");
                        println!("job {} step {ix}: {m} at {l}\nVIOLATION property={prop} replay={p}", jobs[jb].name);
                        std::process::exit(1);
                    }
                    eprintln!("harness error: job {} step {ix}: {m} at {l}", jobs[jb].name);
                    std::process::exit(3);
                }
                PANIC.with(|p| *p.borrow_mut() = Some(format!("{m} at {l}")));
            }));
        }
        let next = Arc::new(AtomicUsize::new(0));
        let stop = Arc::new(AtomicUsize::new(usize::MAX)); // lowest violating job
        let tots: Arc<Mutex<Vec<Option<Tot>>>> = Arc::new(Mutex::new(vec![None; jobs.len()]));
        let bad: Arc<Mutex<Vec<(usize, u64, String, String)>>> = Default::default();
        let errs: Arc<Mutex<Vec<String>>> = Default::default();
        let beats: Vec<Arc<Beat>> = (0..nthreads).map(|_| Arc::new(Beat::default())).collect();
        let done = Arc::new(AtomicBool::new(false));
        // watchdog: no progress inside library code means it does not terminate
        {
            let (beats, done, jobs, prop, rd, variant) = (beats.clone(), done.clone(), jobs.clone(), self.prop, replay_dir.clone(), variant.clone());
            std::thread::spawn(move || {
                let mut last: Vec<(u64, usize, u32)> = vec![(0, 0, 0); beats.len()];
                while !done.load(SeqCst) {
                    std::thread::sleep(std::time::Duration::from_secs(1));
                    for (i, b) in beats.iter().enumerate() {
                        let (ix, jb) = (b.idx.load(SeqCst), b.job.load(SeqCst));
                        if b.in_lib.load(SeqCst) && (ix, jb) == (last[i].0, last[i].1) {
                            last[i].2 += 1;
                            if last[i].2 > 90 {
                                let p = write_replay(&rd, prop, &variant, &jobs[jb].name, ix, "no progress for 90 s: the call does not return", "");
                                println!("VIOLATION property={prop} replay={p}");
                                std::process::exit(1);
                            }
                        } else {
                            last[i] = (ix, jb, 0);
                        }
                    }
                }
            });
        }
        let hs: Vec<_> = (0..nthreads)
            .map(|w| {
                let (jobs, next, stop, tots, bad, errs, beat) = (jobs.clone(), next.clone(), stop.clone(), tots.clone(), bad.clone(), errs.clone(), beats[w].clone());
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn(move || loop {
                        let k = next.fetch_add(1, SeqCst);
                        if k >= jobs.len() || k > stop.load(SeqCst) {
                            break;
                        }
                        beat.job.store(k, SeqCst);
                        beat.idx.store(0, SeqCst);
                        beat.in_lib.store(true, SeqCst);
                        let t0 = Instant::now();
                        let (ctx, r) = Harness::exec(&jobs[k], thorough, 0, beat.clone());
                        match r {
                            Ok(Ok(())) => {
                                if ctx.transitions == 0 {
                                    errs.lock().unwrap().push(format!("job {} explored nothing", jobs[k].name));
                                }
                                tots.lock().unwrap()[k] = Some(Tot {
                                    states: ctx.seen.len() as u64 + ctx.extra,
                                    outcomes: ctx.outcomes.len() as u64,
                                    transitions: ctx.transitions,
                                    traces: ctx.traces.max(1),
                                    skipped: ctx.skipped,
                                    capped: ctx.capped as u64,
                                    secs: t0.elapsed().as_secs_f64(),
                                    samples: ctx.samples,
                                });
                            }
                            Ok(Err(v)) => {
                                stop.fetch_min(k, SeqCst);
                                // confirm by replaying: the same step must fail again
                                let (c2, r2) = Harness::exec(&jobs[k], thorough, ctx.idx, beat.clone());
                                match r2 {
                                    Ok(Err(v2)) if c2.idx == ctx.idx => bad.lock().unwrap().push((k, ctx.idx, v2.0, c2.desc.unwrap_or_default())),
                                    _ => {
                                        // Not reproducible from the start of the job: the library's answer depends on
                                        // something outside the objects of this job.
                                        bad.lock().unwrap().push((k, ctx.idx, format!("{} (only when run after other work in the same process)", v.0), String::new()));
                                    }
                                }
                            }
                            Err(m) => errs.lock().unwrap().push(format!("job {}: {m}", jobs[k].name)),
                        }
                        beat.in_lib.store(false, SeqCst);
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            h.join().unwrap();
        }
        done.store(true, SeqCst);
        let wall = start.elapsed().as_secs_f64();
        let mut bad = bad.lock().unwrap().clone();
        bad.sort();
        let errs = errs.lock().unwrap().clone();
        let tots = tots.lock().unwrap().clone();
        let mut sum = Tot::default();
        let mut lines = vec![];
        let mut samples = vec![];
        for (j, t) in jobs.iter().zip(&tots) {
            if let Some(t) = t {
                sum.states += t.states;
                sum.outcomes += t.outcomes;
                sum.transitions += t.transitions;
                sum.traces += t.traces;
                sum.skipped += t.skipped;
                sum.capped += t.capped;
                lines.push(format!("{{\"job\":{},\"states\":{},\"transitions\":{},\"traces\":{},\"outcomes\":{},\"skipped\":{},\"state_count_capped\":{},\"s\":{:.2}}}",
                    js(&j.name), t.states, t.transitions, t.traces, t.outcomes, t.skipped, t.capped == 1, t.secs));
                if let Some(s) = t.samples.last() {
                    samples.push(format!("{}: {}", j.name, s));
                }
                if std::env::var("MC_VERBOSE").is_ok() {
                    println!("{:60} states={} transitions={} traces={} outcomes={} skipped={} {:.2}s", j.name, t.states, t.transitions, t.traces, t.outcomes, t.skipped, t.secs);
                }
            }
        }
        if let Some(o) = out {
            let n = samples.len();
            let pick: Vec<String> = (0..n.min(6)).map(|i| js(&samples[i * n / n.min(6)])).collect();
            let body = format!("{{\"variant\":{},\"states\":{},\"transitions\":{},\"traces\":{},\"outcomes\":{},\"skipped\":{},\"wall_s\":{:.2},\"jobs\":[{}],\"samples\":[{}],\"assumptions\":[{}]}}\n",
                js(&variant), sum.states, sum.transitions, sum.traces, sum.outcomes, sum.skipped, wall, lines.join(","), pick.join(","),
                self.assumptions.iter().map(|a| js(a)).collect::<Vec<_>>().join(","));
            std::fs::write(o, body).unwrap();
        }
        println!("{} [{}] jobs={} states={} transitions={} traces={} outcomes={} skipped={} {:.1}s", self.prop, variant, jobs.len(), sum.states, sum.transitions, sum.traces, sum.outcomes, sum.skipped, wall);
        if let Some((k, idx, msg, desc)) = bad.first() {
            let p = write_replay(&replay_dir, self.prop, &variant, &jobs[*k].name, *idx, msg, desc);
            println!("job {} step {}: {}\n  at: {}", jobs[*k].name, idx, msg, desc);
            println!("VIOLATION property={} replay={}", self.prop, p);
            std::process::exit(1);
        }
        if !errs.is_empty() {
            for e in errs.iter().take(5) {
                eprintln!("harness error: {e}");
            }
            std::process::exit(3);
        }
        std::process::exit(0)
    }
}

fn write_replay(dir: &str, prop: &str, variant: &str, job: &str, idx: u64, msg: &str, desc: &str) -> String {
    let p = format!("{dir}/{prop}.json");
    let _ = std::fs::create_dir_all(dir);
    let s = format!("{{\"property\":{},\"variant\":{},\"job\":{},\"step\":{},\"violation\":{},\"input\":{}}}\n", js(prop), js(variant), js(job), idx, js(msg), js(desc));
    let _ = std::fs::write(&p, s);
    p
}
