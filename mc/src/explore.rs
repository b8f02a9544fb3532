//! Stateless, deviation-bounded explorer.
//!
//! An execution is a function of the sequence of answers given to `Ctx::choose`/`choose_free`. All
//! executions which answer `choose` with a non-default value at most `bound` times (and
//! `choose_free` in any way whatsoever) are run exactly once each, level by level.

use crate::alloc;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex, OnceLock};
use std::time::{Duration, Instant};

pub struct Scenario {
    pub name: String,
    pub bound: u32,
    pub poison: bool,
    pub run: Box<dyn Fn(&mut Ctx) + Send + Sync>,
}

impl Scenario {
    pub fn new(name: impl Into<String>, bound: u32, run: impl Fn(&mut Ctx) + Send + Sync + 'static) -> Self {
        Self { name: name.into(), bound, poison: false, run: Box::new(run) }
    }
}

pub struct Spec {
    pub property: String,
    pub tier: String,
    pub profile: String,
    pub scenarios: Vec<Scenario>,
    pub wall_cap: Duration,
    pub cpu_limit: Duration,
    pub mem_limit: isize,
    pub replay_dir: String,
    pub stop_at_first: bool,
    /// Findings which are known: scenario and message
    pub known: Vec<(String, String)>,
}

pub struct Failure(pub String);

#[derive(Clone, Copy)]
struct Pick {
    chosen: u32,
    n: u32,
    cost: bool,
}

pub struct Ctx<'a> {
    prefix: &'a [u32],
    trace: Vec<Pick>,
    hash: u64,
    states: Vec<u64>,
    pub transitions: u64,
    pub extra_execs: u64,
    pub verbose: bool,
    pub log: Vec<String>,
    diverged: bool,
}

fn mix(h: u64, v: u64) -> u64 {
    let mut z = (h ^ v).wrapping_add(0x9E37_79B9_7F4A_7C15).wrapping_add(h << 6);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl<'a> Ctx<'a> {
    fn pick(&mut self, n: usize, cost: bool) -> usize {
        assert!(n > 0);
        let pos = self.trace.len();
        let mut chosen = self.prefix.get(pos).copied().unwrap_or(0);
        if chosen as usize >= n {
            self.diverged = true;
            chosen = 0;
        }
        self.trace.push(Pick { chosen, n: n as u32, cost });
        self.hash = mix(self.hash, chosen as u64 + 1);
        chosen as usize
    }

    /// Picks one of `n` alternatives, where anything but 0 counts as a deviation.
    pub fn choose(&mut self, n: usize) -> usize {
        self.pick(n, true)
    }

    /// Picks one of `n` alternatives at no cost.
    pub fn choose_free(&mut self, n: usize) -> usize {
        self.pick(n, false)
    }

    pub fn choose_of<T: Clone>(&mut self, v: &[T]) -> T {
        let i = self.choose_free(v.len());
        v[i].clone()
    }

    /// Folds an observation into the history digest.
    pub fn observe(&mut self, v: u64) {
        self.hash = mix(self.hash, v);
    }

    pub fn observe_bytes(&mut self, b: &[u8]) {
        let mut h = 0xcbf2_9ce4_8422_2325u64 ^ b.len() as u64;
        for c in b.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            h = mix(h, u64::from_le_bytes(w));
        }
        self.observe(h);
    }

    /// Registers the current history as a visited state.
    pub fn state(&mut self) {
        self.states.push(self.hash);
    }

    pub fn state_of(&mut self, h: u64) {
        self.states.push(mix(h, 0x5357_4154));
    }

    /// Leaves nothing of `f` in the record of this execution (for results which are kept).
    pub fn unrecorded<T>(&mut self, f: impl FnOnce(&mut Ctx) -> T) -> T {
        let (h, n) = (self.hash, self.states.len());
        let r = f(self);
        self.hash = h;
        self.states.truncate(n);
        r
    }

    pub fn step(&mut self) {
        self.transitions += 1;
    }

    pub fn heartbeat(&self) {
        SLOT.with(|s| {
            if let Some(i) = s.get() {
                slots()[i].start_cpu.store(own_cpu_ns(), Relaxed);
            }
        });
    }

    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose && self.log.len() < 4000 {
            let s = f();
            self.log.push(s);
        }
    }
}

pub fn fail(msg: impl Into<String>) -> ! {
    let m = alloc::harness(|| msg.into());
    std::panic::panic_any(Failure(m))
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { $crate::explore::fail($crate::alloc::harness(|| format!($($a)*))) } }
}

// ---------------------------------------------------------------------------------------------

struct Slot {
    active: AtomicBool,
    scen: AtomicUsize,
    start_cpu: AtomicU64,
    clock: AtomicUsize,
    prefix: Mutex<Vec<u32>>,
}

fn slots() -> &'static Vec<Slot> {
    static S: OnceLock<Vec<Slot>> = OnceLock::new();
    S.get_or_init(|| {
        (0..64)
            .map(|_| Slot {
                active: AtomicBool::new(false),
                scen: AtomicUsize::new(0),
                start_cpu: AtomicU64::new(0),
                clock: AtomicUsize::new(0),
                prefix: Mutex::new(Vec::with_capacity(4096)),
            })
            .collect()
    })
}

thread_local! {
    static SLOT: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) };
    static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, clk: *mut i32) -> i32;
    fn clock_gettime(clk: i32, ts: *mut Timespec) -> i32;
    fn signal(sig: i32, h: usize) -> usize;
    fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32;
    fn _exit(c: i32) -> !;
}

fn cpu_ns(clk: i32) -> u64 {
    let mut ts = Timespec { sec: 0, nsec: 0 };
    unsafe {
        if clock_gettime(clk, &mut ts) != 0 {
            return 0;
        }
    }
    ts.sec as u64 * 1_000_000_000 + ts.nsec as u64
}

fn own_cpu_ns() -> u64 {
    cpu_ns(3) // CLOCK_THREAD_CPUTIME_ID
}

struct Meta {
    property: String,
    tier: String,
    profile: String,
    replay_dir: String,
    names: Vec<String>,
}

static META: OnceLock<Meta> = OnceLock::new();
static FINISHED: AtomicBool = AtomicBool::new(false);

fn write_replay(scen: usize, prefix: &[u32], msg: &str, extra: &str) -> String {
    let m = META.get().unwrap();
    let _ = std::fs::create_dir_all(&m.replay_dir);
    let path = format!("{}/{}-{}-{}-{}.replay", m.replay_dir, m.property, m.tier, m.profile, scen);
    let c: Vec<String> = prefix.iter().map(|v| v.to_string()).collect();
    let text = format!(
        "property {}\ntier {}\nprofile {}\nscenario {} {}\nchoices {}\nmessage {}\n{}",
        m.property, m.tier, m.profile, scen, m.names[scen], c.join(","), msg.replace('\n', " | "), extra
    );
    let _ = std::fs::write(&path, text);
    path
}

/// Reports a violation from a context in which the execution cannot be unwound.
fn emergency_slot(i: usize, msg: &str) -> ! {
    let s = &slots()[i];
    let scen = s.scen.load(Relaxed);
    let prefix = s.prefix.try_lock().map(|p| p.clone()).unwrap_or_default();
    let m = META.get().unwrap();
    let path = write_replay(scen, &prefix, msg, "");
    println!("scenario: {}\nfailure: {}", m.names[scen], msg);
    println!("VIOLATION property={} replay={}", m.property, path);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    crate::report::emergency_evidence(&m.property, &m.tier, &m.names[scen], msg);
    unsafe { _exit(1) }
}

pub fn emergency(msg: &str) {
    if let Some(i) = SLOT.with(|s| s.get()) {
        emergency_slot(i, msg);
    }
}

/// The layout of glibc's `struct sigaction` on Linux.
#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

static OLD_SEGV: AtomicUsize = AtomicUsize::new(0);

/// Segmentation faults: the runtime recognises stack overflows, and aborts. Everything else is
/// reported here.
extern "C" fn on_segv(sig: i32, info: usize, context: usize) {
    let old = OLD_SEGV.load(SeqCst);
    if old > 1 {
        let old: extern "C" fn(i32, usize, usize) = unsafe { std::mem::transmute(old) };
        old(sig, info, context);
    }
    if let Some(i) = SLOT.with(|s| s.get()) {
        if slots()[i].active.load(Relaxed) {
            alloc::harness(|| emergency_slot(i, "segmentation fault"));
        }
    }
    unsafe { _exit(3) }
}

fn install_segv() {
    unsafe {
        let mut old = SigAction { handler: 0, mask: [0; 16], flags: 0, restorer: 0 };
        if sigaction(11, std::ptr::null(), &mut old) != 0 {
            return;
        }
        if old.flags & 4 != 0 {
            OLD_SEGV.store(old.handler, SeqCst);
        }
        // SA_SIGINFO | SA_ONSTACK
        let new = SigAction { handler: on_segv as extern "C" fn(i32, usize, usize) as usize, mask: [0; 16], flags: 4 | 0x0800_0000, restorer: 0 };
        sigaction(11, &new, std::ptr::null_mut());
    }
}

extern "C" fn on_signal(sig: i32) {
    unsafe {
        signal(sig, 0);
    }
    if let Some(i) = SLOT.with(|s| s.get()) {
        if slots()[i].active.load(Relaxed) {
            alloc::harness(|| emergency_slot(i, &format!("process aborted (signal {})", sig)));
        }
    }
    unsafe { _exit(3) }
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let in_exec = SLOT.with(|s| s.get()).is_some();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        if in_exec {
            alloc::harness(|| PANIC_MSG.with(|p| *p.borrow_mut() = format!("panic at {}: {}", loc, msg)));
        } else {
            eprintln!("harness panic at {}: {}", loc, msg);
        }
    }));
}

#[derive(Clone)]
struct Item {
    scen: u32,
    devs: u32,
    prefix: Vec<u32>,
}

struct Queue {
    levels: Vec<Vec<Item>>,
    level: usize,
    active: usize,
    stop: bool,
}

#[derive(Default)]
pub struct Summary {
    pub executions: u64,
    pub transitions: u64,
    pub states: u64,
    pub scenarios: usize,
    pub completed_bound: i64,
    pub max_bound: u32,
    pub capped: bool,
    pub divergences: u64,
    pub rechecked: u64,
    pub per_level: Vec<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<(String, String, String)>, // scenario, message, replay path
    pub known: Vec<(String, String)>,              // scenario, message: listed in KNOWN_FINDINGS.txt
    pub wall_s: f64,
    pub max_exec_ms: f64,
}

pub enum Outcome {
    Ok,
    Fail(String),
}

pub struct RunResult {
    pub outcome: Outcome,
    trace: Vec<Pick>,
    pub states: Vec<u64>,
    pub transitions: u64,
    pub extra_execs: u64,
    pub log: Vec<String>,
    hash: u64,
    diverged: bool,
}

fn run_one(spec: &Spec, slot: usize, scen: usize, prefix: &[u32], verbose: bool) -> RunResult {
    let s = &slots()[slot];
    {
        let mut p = s.prefix.lock().unwrap();
        p.clear();
        p.extend_from_slice(prefix);
    }
    s.scen.store(scen, Relaxed);
    s.start_cpu.store(own_cpu_ns(), Relaxed);
    let sc = &spec.scenarios[scen];
    alloc::begin(spec.mem_limit, sc.poison);
    uflow::verif::net::reset();
    uflow::verif::rand::reset(1);
    uflow::verif::time::set(Duration::from_secs(1000));
    let mut ctx = Ctx {
        prefix,
        trace: Vec::with_capacity(prefix.len() + 64),
        hash: mix(0x1234_5678, scen as u64),
        states: Vec::new(),
        transitions: 0,
        extra_execs: 0,
        verbose,
        log: Vec::new(),
        diverged: false,
    };
    s.active.store(true, SeqCst);
    let r = catch_unwind(AssertUnwindSafe(|| (sc.run)(&mut ctx)));
    s.active.store(false, SeqCst);
    alloc::begin(isize::MAX, false);
    let outcome = match r {
        Ok(()) => Outcome::Ok,
        Err(p) => match p.downcast::<Failure>() {
            Ok(f) => Outcome::Fail(f.0),
            Err(_) => Outcome::Fail(PANIC_MSG.with(|p| p.borrow().clone())),
        },
    };
    RunResult {
        outcome,
        trace: ctx.trace,
        states: ctx.states,
        transitions: ctx.transitions,
        extra_execs: ctx.extra_execs,
        log: ctx.log,
        hash: ctx.hash,
        diverged: ctx.diverged,
    }
}

#[derive(Default, Clone, Copy)]
struct IdHash(u64);
impl std::hash::Hasher for IdHash {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {}
    fn write_u64(&mut self, v: u64) {
        self.0 = v;
    }
}
#[derive(Default, Clone)]
struct IdBuild;
impl std::hash::BuildHasher for IdBuild {
    type Hasher = IdHash;
    fn build_hasher(&self) -> IdHash {
        IdHash(0)
    }
}

const STATE_CAP: usize = 40_000_000;

pub fn setup(spec: &Spec) {
    let _ = META.set(Meta {
        property: spec.property.clone(),
        tier: spec.tier.clone(),
        profile: spec.profile.clone(),
        replay_dir: spec.replay_dir.clone(),
        names: spec.scenarios.iter().map(|s| s.name.clone()).collect(),
    });
    install_panic_hook();
    install_segv();
    unsafe {
        for sig in [6, 4, 7, 8] {
            signal(sig, on_signal as extern "C" fn(i32) as usize);
        }
    }
}

pub fn replay(spec: &Spec, scen: usize, prefix: &[u32]) -> RunResult {
    setup(spec);
    SLOT.with(|s| s.set(Some(0)));
    let mut clk = 0i32;
    unsafe {
        pthread_getcpuclockid(pthread_self(), &mut clk);
    }
    slots()[0].clock.store(clk as u32 as usize, Relaxed);
    let limit = spec.cpu_limit;
    std::thread::spawn(move || watchdog(limit));
    run_one(spec, 0, scen, prefix, true)
}

fn watchdog(limit: Duration) {
    loop {
        std::thread::sleep(Duration::from_millis(200));
        if FINISHED.load(Relaxed) {
            return;
        }
        for (i, s) in slots().iter().enumerate() {
            if s.active.load(SeqCst) {
                let start = s.start_cpu.load(Relaxed);
                let now = cpu_ns(s.clock.load(Relaxed) as u32 as i32);
                if s.active.load(SeqCst) && s.start_cpu.load(Relaxed) == start && now > start
                    && now - start > limit.as_nanos() as u64
                {
                    emergency_slot(i, &format!("no return after {} s of CPU time (hang)", limit.as_secs()));
                }
            }
        }
    }
}

pub fn explore(spec: &Spec) -> Summary {
    setup(spec);
    let t0 = Instant::now();
    let max_bound = spec.scenarios.iter().map(|s| s.bound).max().unwrap_or(0);
    let mut levels: Vec<Vec<Item>> = (0..=max_bound as usize).map(|_| Vec::new()).collect();
    for (i, _) in spec.scenarios.iter().enumerate().rev() {
        levels[0].push(Item { scen: i as u32, devs: 0, prefix: vec![] });
    }
    let queue = Mutex::new(Queue { levels, level: 0, active: 0, stop: false });
    let cv = Condvar::new();
    let sum = Mutex::new(Summary {
        scenarios: spec.scenarios.len(),
        max_bound,
        completed_bound: -1,
        per_level: vec![0; max_bound as usize + 1],
        ..Default::default()
    });
    let sets: Vec<Mutex<HashSet<u64, IdBuild>>> = (0..64).map(|_| Mutex::new(HashSet::with_hasher(IdBuild))).collect();
    let nstates = AtomicU64::new(0);
    let threads = std::env::var("MC_THREADS").ok().and_then(|v| v.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16)
    });
    let limit = spec.cpu_limit;
    std::thread::spawn(move || watchdog(limit));

    std::thread::scope(|scope| {
        for w in 0..threads {
            let (queue, cv, sum, sets, nstates) = (&queue, &cv, &sum, &sets, &nstates);
            let body = move || {
                SLOT.with(|s| s.set(Some(w)));
                let mut clk = 0i32;
                unsafe {
                    pthread_getcpuclockid(pthread_self(), &mut clk);
                }
                slots()[w].clock.store(clk as u32 as usize, Relaxed);
                let mut out: Vec<Item> = Vec::new();
                loop {
                    // Take a batch
                    let batch: Vec<Item>;
                    {
                        let mut q = queue.lock().unwrap();
                        loop {
                            if q.stop {
                                return;
                            }
                            let level = q.level;
                            if !q.levels[level].is_empty() {
                                let n = q.levels[level].len();
                                let k = (n / (4 * threads)).clamp(1, 64);
                                batch = q.levels[level].split_off(n - k);
                                q.active += 1;
                                break;
                            }
                            if q.active == 0 {
                                sum.lock().unwrap().completed_bound = level as i64;
                                if level + 1 < q.levels.len() {
                                    q.level += 1;
                                    continue;
                                }
                                q.stop = true;
                                cv.notify_all();
                                return;
                            }
                            q = cv.wait(q).unwrap();
                        }
                    }
                    let (mut ex, mut tr, mut dv, mut xe, mut rc) = (0u64, 0u64, 0u64, 0u64, 0u64);
                    let mut max_ms = 0f64;
                    let mut level_counts: Vec<(usize, u64)> = Vec::new();
                    let mut stop = false;
                    for item in batch {
                        let e0 = own_cpu_ns();
                        let verbose = item.devs == 0 && item.prefix.is_empty() && item.scen < 2;
                        let r = run_one(spec, w, item.scen as usize, &item.prefix, verbose);
                        max_ms = max_ms.max((own_cpu_ns() - e0) as f64 / 1e6);
                        ex += 1;
                        xe += r.extra_execs;
                        tr += r.transitions;
                        dv += r.diverged as u64;
                        if item.prefix.is_empty() && matches!(r.outcome, Outcome::Ok) {
                            // Self-check: the same choices must give the same execution
                            let r2 = run_one(spec, w, item.scen as usize, &item.prefix, false);
                            let same = r2.trace.len() == r.trace.len()
                                && r2.trace.iter().zip(r.trace.iter()).all(|(a, b)| a.n == b.n && a.chosen == b.chosen && a.cost == b.cost)
                                && r2.hash == r.hash
                                && r2.states == r.states;
                            rc += 1;
                            dv += !same as u64;
                        }
                        level_counts.push((item.devs as usize, 1));
                        let mut added = 0;
                        if nstates.load(Relaxed) < STATE_CAP as u64 {
                            for h in r.states.iter() {
                                if sets[(h >> 58) as usize].lock().unwrap().insert(*h) {
                                    added += 1;
                                }
                            }
                        }
                        nstates.fetch_add(added, Relaxed);
                        if verbose {
                            let mut s = sum.lock().unwrap();
                            let mut l = r.log.clone();
                            l.truncate(40);
                            s.samples.push(format!("{}: {}", spec.scenarios[item.scen as usize].name, l.join("; ")));
                        }
                        if let Outcome::Fail(msg) = &r.outcome {
                            let name = &spec.scenarios[item.scen as usize].name;
                            if spec.known.iter().any(|k| k.0 == *name && msg.starts_with(&k.1)) {
                                sum.lock().unwrap().known.push((name.clone(), msg.clone()));
                                continue;
                            }
                            // Confirm by running the same execution again, with a log
                            let r2 = run_one(spec, w, item.scen as usize, &item.prefix, true);
                            let again = matches!(&r2.outcome, Outcome::Fail(m) if m == msg);
                            let full: Vec<u32> = r.trace.iter().map(|p| p.chosen).collect();
                            let mut extra = format!("reproduced {}\ntrace {:?}\n", again, full);
                            for l in r2.log.iter() {
                                extra.push_str(l);
                                extra.push('\n');
                            }
                            let path = write_replay(item.scen as usize, &item.prefix, msg, &extra);
                            let mut s = sum.lock().unwrap();
                            s.violations.push((spec.scenarios[item.scen as usize].name.clone(), msg.clone(), path));
                            if spec.stop_at_first || s.violations.len() > 50 {
                                stop = true;
                                break;
                            }
                            continue;
                        }
                        // Expand
                        let bound = spec.scenarios[item.scen as usize].bound;
                        for pos in item.prefix.len()..r.trace.len() {
                            let p = r.trace[pos];
                            if p.n < 2 {
                                continue;
                            }
                            let devs = item.devs + p.cost as u32;
                            if devs > bound {
                                continue;
                            }
                            for alt in 1..p.n {
                                let mut prefix = Vec::with_capacity(pos + 1);
                                prefix.extend(r.trace[..pos].iter().map(|p| p.chosen));
                                prefix.push(alt);
                                out.push(Item { scen: item.scen, devs, prefix });
                            }
                        }
                    }
                    {
                        let mut s = sum.lock().unwrap();
                        s.executions += ex + xe;
                        s.transitions += tr;
                        s.divergences += dv;
                        s.rechecked += rc;
                        s.max_exec_ms = s.max_exec_ms.max(max_ms);
                        for (l, n) in level_counts {
                            s.per_level[l] += n;
                        }
                    }
                    let mut q = queue.lock().unwrap();
                    for it in out.drain(..) {
                        let d = it.devs as usize;
                        q.levels[d].push(it);
                    }
                    q.active -= 1;
                    if stop {
                        q.stop = true;
                    }
                    if t0.elapsed() > spec.wall_cap {
                        if !q.stop && (q.levels.iter().any(|l| !l.is_empty())) {
                            sum.lock().unwrap().capped = true;
                        }
                        q.stop = true;
                    }
                    cv.notify_all();
                }
            };
            std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(scope, body).unwrap();
        }
    });
    FINISHED.store(true, Relaxed);
    let mut s = sum.into_inner().unwrap();
    s.states = nstates.load(Relaxed);
    s.wall_s = t0.elapsed().as_secs_f64();
    s
}
