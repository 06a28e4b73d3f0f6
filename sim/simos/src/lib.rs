//! simos: a deterministic "operating system" underneath the real std / rayon threads.
//!
//! The executable defines the libc symbols through which std and rayon reach the kernel for
//! everything nondeterministic (thread creation and join, futexes, yields, sleeps, clocks and
//! entropy).  While a simulation is active exactly one thread - the baton holder - runs; every
//! other thread is parked on its private baton word.  All scheduling decisions are taken here,
//! from a seeded policy or from a recorded script, so one (policy, seed) is one exactly
//! repeatable interleaving of unmodified std/rayon code.
//!
//! Preemption points inside user code come from LLVM's trace-pc-guard instrumentation of the
//! harness and library crates (this crate itself is not instrumented).
#![allow(clippy::missing_safety_doc)]

use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::*};

pub const MAXT: usize = 1024;
const NONE: u32 = u32::MAX;

static ACTIVE: AtomicBool = AtomicBool::new(false);
/// Number of preemption points passed so far in this simulation.
static POINTS: AtomicU64 = AtomicU64::new(0);
/// The point at which the slow path must be entered next.
static NEXT: AtomicU64 = AtomicU64::new(u64::MAX);
/// Preemption disabled while > 0 (harness-internal critical sections).
static NOPREEMPT: AtomicU32 = AtomicU32::new(0);

/// Set while the baton holder executes simulator code: instrumented code called from here (the
/// harness's allocator, for one) is not part of the simulated program.
static BUSY: AtomicBool = AtomicBool::new(false);
struct Busy;
impl Busy { fn enter() -> Busy { BUSY.store(true, SeqCst); Busy } }
impl Drop for Busy { fn drop(&mut self) { BUSY.store(false, SeqCst); } }

static BATON: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];

thread_local! {
    static TID: Cell<u32> = const { Cell::new(NONE) };
}

#[derive(Clone, Debug, PartialEq)]
enum St {
    Runnable,
    Futex { addr: usize, mask: u32, deadline: Option<u64> },
    Sleep { until: u64 },
    Join(u32),
    Finished,
}

struct Th {
    st: St,
    pthread: libc::pthread_t,
    prio: u64,
    stalled_until: u64, // decision number
    timed_out: bool,
    spurious: bool,
}

#[derive(Clone, Debug)]
pub enum Policy {
    /// Run each thread until it blocks or yields; then the next one in rotation.
    Sequential,
    /// At each preemption opportunity (mean distance `gap` points) choose uniformly.
    Random { gap: u64 },
    /// PCT: random priorities, `changes` priority change points within the first `len` points.
    Pct { changes: u32, len: u64 },
    /// Random, but one thread out of `every` is starved for long stretches.
    Starve { gap: u64, every: u32 },
    /// Only the listed deviations from the sequential default.
    Script(Vec<(u64, u32)>),
}

#[derive(Clone, Debug)]
pub struct Config {
    pub seed: u64,
    pub policy: Policy,
    /// 1/spurious chance that a futex wait returns spuriously (0 = never).
    pub spurious: u64,
    pub clock_base_s: u64,
    pub clock_step_ns: u64,
    /// How the simulated clocks misbehave (see `Sim::read_clock`): 0 = not at all.
    pub clock_mode: u64,
    pub entropy_seed: u64,
    /// Limit on scheduling decisions: beyond it the run is declared hung.
    pub max_decisions: u64,
}
impl Default for Config {
    fn default() -> Self {
        Config { seed: 0, policy: Policy::Sequential, spurious: 0, clock_base_s: 1_600_000_000, clock_step_ns: 1000, clock_mode: 0, entropy_seed: 0, max_decisions: 20_000_000 }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub points: u64,
    pub decisions: u64,
    pub os_calls: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub spurious: u64,
    pub threads: u64,
    pub sim_ns: u64,
    pub entropy_calls: u64,
    pub clock_calls: u64,
    pub clock_jumps: u64,
    pub clock_stalls: u64,
    pub futex_waits: u64,
    pub futex_wakes: u64,
    pub stalls: u64,
    pub hash: u64,
}

struct Sim {
    cfg: Config,
    rng: u64,
    ths: Vec<Th>,
    cur: u32,
    now_ns: u64,
    stats: Stats,
    devs: Vec<(u64, u32)>,
    script: BTreeMap<u64, u32>,
    pct_points: Vec<u64>,
    ent: u64,
    skew_ns: i64,
    clk: u64,
}

static mut SIM: *mut Sim = std::ptr::null_mut();
/// Called when the simulation cannot go on (deadlock or decision budget): must not return.
static mut FATAL: Option<fn(&str) -> !> = None;

#[allow(static_mut_refs)]
fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}

fn sm(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Sim {
    fn rnd(&mut self, n: u64) -> u64 {
        if n <= 1 { return 0; }
        sm(&mut self.rng) % n
    }
    fn mix(&mut self, v: u64) {
        self.stats.hash = (self.stats.hash ^ v).wrapping_mul(0x100000001b3).rotate_left(23);
    }
    fn runnable(&self) -> Vec<u32> {
        (0..self.ths.len() as u32).filter(|&i| self.ths[i as usize].st == St::Runnable).collect()
    }
    fn arm_next(&mut self) {
        let p = POINTS.load(Relaxed);
        let nx = match &self.cfg.policy {
            Policy::Sequential => u64::MAX,
            Policy::Random { gap } | Policy::Starve { gap, .. } => {
                let g = (*gap).max(1);
                // geometric-ish distance: between 1 and 4*gap, biased to short
                let a = 1 + sm(&mut self.rng) % (2 * g);
                if sm(&mut self.rng) % 8 == 0 { p + 1 + a * 4 } else { p + a }
            }
            Policy::Pct { .. } => self.pct_points.iter().copied().filter(|&x| x > p).min().unwrap_or(u64::MAX),
            Policy::Script(_) => self.script.range(p + 1..).next().map(|(k, _)| *k).unwrap_or(u64::MAX),
        };
        NEXT.store(nx, Relaxed);
    }
    /// The default choice: the current thread if it can go on, else the next in rotation.
    fn default_choice(&self, run: &[u32], me: u32, rotate: bool) -> u32 {
        if !rotate && run.contains(&me) { return me; }
        *run.iter().find(|&&t| t > me).unwrap_or(&run[0])
    }
    fn choose(&mut self, me: u32, rotate: bool, preempt: bool) -> u32 {
        let run = self.runnable();
        let dflt = self.default_choice(&run, me, rotate);
        let p = POINTS.load(Relaxed);
        let c = match self.cfg.policy.clone() {
            Policy::Sequential => dflt,
            Policy::Random { .. } => run[self.rnd(run.len() as u64) as usize],
            Policy::Starve { every, .. } => {
                let d = self.stats.decisions;
                let ok: Vec<u32> = run.iter().copied().filter(|&t| self.ths[t as usize].stalled_until <= d).collect();
                let ok = if ok.is_empty() { run.clone() } else { ok };
                let t = ok[self.rnd(ok.len() as u64) as usize];
                if self.rnd(every.max(1) as u64) == 0 {
                    let v = run[self.rnd(run.len() as u64) as usize];
                    self.ths[v as usize].stalled_until = d + 20 + self.rnd(400);
                    self.stats.stalls += 1;
                }
                t
            }
            Policy::Pct { .. } => {
                if preempt || rotate {
                    // a yield or a change point lowers the current thread below all others
                    let low = self.ths.iter().map(|t| t.prio).min().unwrap_or(1).saturating_sub(1);
                    self.ths[me as usize].prio = low;
                }
                let mut best = run[0];
                for &t in &run { if self.ths[t as usize].prio > self.ths[best as usize].prio { best = t; } }
                best
            }
            Policy::Script(_) => match self.script.get(&p) {
                Some(&t) if run.contains(&t) => t,
                _ => dflt,
            },
        };
        if c != dflt { self.devs.push((p, c)); }
        c
    }
    /// Time passes at operating-system calls only, never at preemptions, so that a recorded
    /// schedule replayed as a script sees exactly the same clock.
    fn tick(&mut self, preempt: bool) {
        self.stats.decisions += 1;
        if !preempt {
            self.stats.os_calls += 1;
            self.now_ns += self.cfg.clock_step_ns;
        }
        if self.stats.decisions > self.cfg.max_decisions { fatal("hang: scheduling budget exhausted"); }
    }
    /// A clock is read. What the reading shows depends on its number and the clock's own seed
    /// only, so a schedule replayed as a script sees the same readings. Modes: 0 a steady clock;
    /// 1 a slow machine (milliseconds pass between readings); 2 stalls (a third of the readings
    /// come seconds to hours after the previous one); 3 the wall clock is set forwards or back at
    /// a third of the readings; 4 stalls and steps together; 5 a coarse clock of 10 ms ticks.
    fn read_clock(&mut self, wall: bool) -> i128 {
        self.stats.clock_calls += 1;
        let r = sm(&mut self.clk);
        let (r1, r2) = (sm(&mut self.clk), sm(&mut self.clk));
        self.now_ns += 100;
        match self.cfg.clock_mode {
            1 => self.now_ns += 1_000_000 + r1 % 50_000_000,
            2 | 4 if r % 3 == 0 => { self.now_ns += [3, 70, 4_000][r2 as usize % 3] * 1_000_000_000 + r1 % 1_000_000_000; self.stats.clock_stalls += 1; }
            3 | 4 if r % 3 == 1 => {
                let d = ([1, 90, 90_000][r2 as usize % 3] * 1_000_000_000 + r1 % 1_000_000_000) as i64;
                self.skew_ns += if r2 & 64 == 0 { -d } else { d };
                self.stats.clock_jumps += 1;
            }
            _ => {}
        }
        let t = if wall { self.cfg.clock_base_s as i128 * 1_000_000_000 + self.now_ns as i128 + self.skew_ns as i128 } else { MONO_BASE as i128 + self.now_ns as i128 };
        if self.cfg.clock_mode == 5 { t - t.rem_euclid(10_000_000) } else { t }
    }
    fn expire(&mut self) {
        let now = self.now_ns;
        for t in self.ths.iter_mut() {
            match t.st {
                St::Futex { deadline: Some(d), .. } if d <= now => { t.st = St::Runnable; t.timed_out = true; }
                St::Sleep { until } if until <= now => { t.st = St::Runnable; }
                _ => {}
            }
        }
    }
}

fn fatal(msg: &str) -> ! {
    ACTIVE.store(false, SeqCst);
    unsafe {
        if let Some(f) = FATAL { f(msg) }
        libc::abort()
    }
}

unsafe fn raw_futex(addr: *const AtomicU32, op: i32, val: u32) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") 202i64 => r, in("rdi") addr, in("rsi") op as i64, in("rdx") val as i64,
        in("r10") 0i64, in("r8") 0i64, in("r9") 0i64, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn raw_syscall(n: i64, a: [i64; 6]) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
        in("r10") a[3], in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn ret_errno(r: i64) -> i64 {
    if (-4095..0).contains(&r) { *libc::__errno_location() = -r as i32; -1 } else { r }
}

fn wait_baton(me: u32) {
    let b = &BATON[me as usize];
    while b.swap(0, SeqCst) == 0 {
        unsafe { raw_futex(b, 128, 0); }
    }
}
fn give_baton(to: u32) {
    let b = &BATON[to as usize];
    b.store(1, SeqCst);
    unsafe { raw_futex(b, 129, 1); }
}

fn hand_over(me: u32, to: u32, wait: bool) {
    let s = sim();
    s.mix(((POINTS.load(Relaxed)) << 10) ^ to as u64);
    if to == me { return; }
    s.stats.switches += 1;
    s.cur = to;
    give_baton(to);
    if wait { wait_baton(me); }
}

/// Let the policy decide who runs next; `me` stays runnable.
fn decide(me: u32, rotate: bool, preempt: bool) {
    let s = sim();
    s.tick(preempt);
    s.expire();
    let c = s.choose(me, rotate, preempt);
    if preempt && c != me { s.stats.preemptions += 1; }
    s.arm_next();
    hand_over(me, c, true);
}

/// `me` is no longer runnable (blocked or finished): somebody else must go on.
fn block(me: u32, wait: bool) {
    let s = sim();
    s.tick(false);
    loop {
        s.expire();
        if s.ths.iter().any(|t| t.st == St::Runnable) { break; }
        // nobody can run: jump the clock to the next deadline
        let d = s.ths.iter().filter_map(|t| match t.st {
            St::Futex { deadline: Some(d), .. } => Some(d),
            St::Sleep { until } => Some(until),
            _ => None,
        }).min();
        match d {
            Some(d) => { if d > s.now_ns { s.now_ns = d; } }
            None => fatal("deadlock: every thread is blocked"),
        }
    }
    let c = s.choose(me, true, false);
    s.arm_next();
    hand_over(me, c, wait);
}

#[inline]
fn me() -> u32 { TID.with(|t| t.get()) }
#[inline]
fn in_sim() -> bool { ACTIVE.load(Relaxed) && me() != NONE }

/// A preemption opportunity.
#[inline(always)]
pub fn point() {
    if ACTIVE.load(Relaxed) && me() != NONE && !BUSY.load(Relaxed) {
        let p = POINTS.load(Relaxed) + 1;
        POINTS.store(p, Relaxed);
        if p >= NEXT.load(Relaxed) { point_slow(); }
    }
}
#[cold]
#[inline(never)]
fn point_slow() {
    let m = me();
    let _b = Busy::enter();
    if NOPREEMPT.load(Relaxed) > 0 {
        // not now: for scripts the point is simply lost (recording never records it)
        sim().arm_next();
        return;
    }
    decide(m, false, true);
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    if ACTIVE.load(Relaxed) {
        unsafe { EDGES[(*guard as usize) & (EDGE_MAX - 1)] = 1; }
        point();
    }
}
const EDGE_MAX: usize = 1 << 18;
static mut EDGES: [u8; EDGE_MAX] = [0; EDGE_MAX];
static mut EDGE_N: u32 = 0;
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut start: *mut u32, stop: *mut u32) {
    unsafe {
        while start < stop {
            if *start == 0 { EDGE_N += 1; *start = EDGE_N; }
            start = start.add(1);
        }
    }
}
/// Code edges reached so far: (reached ids).
#[allow(static_mut_refs)]
pub fn edges_reached() -> Vec<u32> {
    unsafe { EDGES.iter().enumerate().filter(|(_, e)| **e != 0).map(|(i, _)| i as u32).collect() }
}
pub fn edges_total() -> u32 { unsafe { EDGE_N } }

/// Run `f` without being preempted (harness bookkeeping shared between simulated threads).
pub fn critical<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G { fn drop(&mut self) { NOPREEMPT.fetch_sub(1, Relaxed); } }
    NOPREEMPT.fetch_add(1, Relaxed);
    let _g = G;
    f()
}

/// Start simulating: the calling thread becomes thread 0 and holds the baton.
pub fn start(cfg: Config, fatal: fn(&str) -> !) {
    unsafe {
        assert!(SIM.is_null());
        FATAL = Some(fatal);
        let mut rng = cfg.seed ^ 0x51_6d_6f_73;
        let script: BTreeMap<u64, u32> = match &cfg.policy { Policy::Script(v) => v.iter().copied().collect(), _ => Default::default() };
        let mut pct_points = vec![];
        if let Policy::Pct { changes, len } = cfg.policy {
            for _ in 0..changes { pct_points.push(1 + sm(&mut rng) % len.max(1)); }
            pct_points.sort_unstable();
        }
        let prio = (1 << 32) + (sm(&mut rng) & 0xffff_ffff);
        let ent = cfg.entropy_seed;
        let clk = cfg.entropy_seed ^ 0xc10c;
        let s = Sim {
            rng, ths: vec![Th { st: St::Runnable, pthread: libc::pthread_self(), prio, stalled_until: 0, timed_out: false, spurious: false }],
            cur: 0, now_ns: 0, stats: Stats { threads: 1, ..Default::default() }, devs: vec![], script, pct_points, ent, skew_ns: 0, clk, cfg,
        };
        SIM = Box::into_raw(Box::new(s));
        TID.with(|t| t.set(0));
        POINTS.store(0, Relaxed);
        sim().arm_next();
        ACTIVE.store(true, SeqCst);
    }
}

/// Stop simulating (the caller must be the baton holder; the process is expected to exit soon).
pub fn stop() -> (Stats, Vec<(u64, u32)>) {
    ACTIVE.store(false, SeqCst);
    let s = sim();
    s.stats.points = POINTS.load(Relaxed);
    s.stats.sim_ns = s.now_ns;
    (s.stats.clone(), s.devs.clone())
}
pub fn active() -> bool { ACTIVE.load(Relaxed) }
pub fn snapshot() -> Option<(Stats, Vec<(u64, u32)>)> {
    unsafe { if SIM.is_null() { return None; } }
    let s = sim();
    s.stats.points = POINTS.load(Relaxed);
    s.stats.sim_ns = s.now_ns;
    Some((s.stats.clone(), s.devs.clone()))
}
/// Advance simulated time (discrete-event worlds drive the clock with this).
pub fn advance_to(ns: u64) { if ACTIVE.load(Relaxed) { let s = sim(); if ns > s.now_ns { s.now_ns = ns; } } }
pub fn now_ns() -> u64 { if ACTIVE.load(Relaxed) { sim().now_ns } else { 0 } }
pub fn set_clock_base(s: u64) { if ACTIVE.load(Relaxed) { sim().cfg.clock_base_s = s; } }
pub fn set_entropy(seed: u64) { if ACTIVE.load(Relaxed) { sim().ent = seed; } }

// ---------------------------------------------------------------- interposed libc symbols

#[no_mangle]
pub unsafe extern "C" fn syscall(n: libc::c_long, a1: i64, a2: i64, a3: i64, a4: i64, a5: i64, a6: i64) -> libc::c_long {
    if in_sim() {
        if n == libc::SYS_futex {
            let _b = Busy::enter();
            return sim_futex(a1 as usize, a2 as i32, a3 as u32, a4 as *const libc::timespec, a6 as u32);
        }
        if n == libc::SYS_getrandom {
            fill_entropy(a1 as *mut u8, a2 as usize);
            return a2;
        }
        if n == libc::SYS_gettid { return 100 + me() as i64 + (WORLD.load(Relaxed) % 997) as i64; }
    }
    ret_errno(raw_syscall(n, [a1, a2, a3, a4, a5, a6]))
}

unsafe fn sim_futex(addr: usize, op: i32, val: u32, ts: *const libc::timespec, mask: u32) -> i64 {
    let m = me();
    let s = sim();
    POINTS.fetch_add(1, Relaxed);
    match op & 0x7f {
        0 | 9 => {
            s.stats.futex_waits += 1;
            if (*(addr as *const AtomicU32)).load(SeqCst) != val {
                *libc::__errno_location() = libc::EAGAIN;
                return -1;
            }
            let key = POINTS.load(Relaxed) | 1 << 62;
            let spur = match s.cfg.policy {
                Policy::Script(_) => s.script.contains_key(&key),
                _ => s.cfg.spurious > 0 && !s.ths[m as usize].spurious && { let n = s.cfg.spurious; s.rnd(n) == 0 },
            };
            if spur {
                s.devs.push((key, m));
                s.stats.spurious += 1;
                s.ths[m as usize].spurious = true; // never twice in a row: no livelock by construction
                decide(m, true, false);
                return 0;
            }
            s.ths[m as usize].spurious = false;
            let deadline = if ts.is_null() { None } else {
                let t = (*ts).tv_sec as i128 * 1_000_000_000 + (*ts).tv_nsec as i128;
                let now = s.now_ns as i128;
                if op & 0x7f == 0 { Some((now + t) as u64) } else {
                    let base = if op & 256 != 0 { s.cfg.clock_base_s as i128 * 1_000_000_000 + s.skew_ns as i128 } else { MONO_BASE as i128 };
                    Some((t - base).max(0) as u64)
                }
            };
            let mask = if op & 0x7f == 9 { mask } else { !0 };
            s.ths[m as usize].timed_out = false;
            s.ths[m as usize].st = St::Futex { addr, mask, deadline };
            block(m, true);
            let s = sim();
            if s.ths[m as usize].timed_out {
                s.ths[m as usize].timed_out = false;
                *libc::__errno_location() = libc::ETIMEDOUT;
                return -1;
            }
            0
        }
        1 | 10 => {
            s.stats.futex_wakes += 1;
            let mask = if op & 0x7f == 10 { mask } else { !0 };
            let mut n = 0i64;
            let mut w: Vec<u32> = (0..s.ths.len() as u32).filter(|&i| matches!(s.ths[i as usize].st, St::Futex { addr: a, mask: k, .. } if a == addr && k & mask != 0)).collect();
            while n < val as i64 && !w.is_empty() {
                let k = match s.cfg.policy { Policy::Random { .. } | Policy::Starve { .. } => s.rnd(w.len() as u64) as usize, _ => 0 };
                if k != 0 { let p = POINTS.load(Relaxed); s.devs.push((p | 1 << 63, w[k])); }
                let k = match (&s.cfg.policy, s.script.get(&(POINTS.load(Relaxed) | 1 << 63))) {
                    (Policy::Script(_), Some(t)) => w.iter().position(|x| x == t).unwrap_or(0),
                    _ => k,
                };
                let t = w.remove(k);
                s.ths[t as usize].st = St::Runnable;
                n += 1;
            }
            decide(m, false, false);
            n
        }
        _ => ret_errno(raw_syscall(libc::SYS_futex, [addr as i64, op as i64, val as i64, ts as i64, 0, mask as i64])),
    }
}

const MONO_BASE: u64 = 1_000_000_000_000;

unsafe fn fill_entropy(p: *mut u8, n: usize) {
    let s = sim();
    s.stats.entropy_calls += 1;
    for i in 0..n { *p.add(i) = sm(&mut s.ent) as u8; }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: usize, flags: libc::c_uint) -> isize {
    if in_sim() { let _b = Busy::enter(); fill_entropy(buf as *mut u8, len); return len as isize; }
    ret_errno(raw_syscall(libc::SYS_getrandom, [buf as i64, len as i64, flags as i64, 0, 0, 0])) as isize
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut libc::c_void, len: usize) -> i32 {
    if getrandom(buf, len, 0) == len as isize { 0 } else { -1 }
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if in_sim() {
        let _b = Busy::enter();
        POINTS.fetch_add(1, Relaxed);
        decide(me(), true, false);
        return 0;
    }
    ret_errno(raw_syscall(libc::SYS_sched_yield, [0; 6])) as i32
}

unsafe fn sim_sleep(ns: u64) {
    let _b = Busy::enter();
    let m = me();
    POINTS.fetch_add(1, Relaxed);
    let s = sim();
    s.ths[m as usize].st = St::Sleep { until: s.now_ns + ns };
    block(m, true);
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if in_sim() { sim_sleep((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64); return 0; }
    ret_errno(raw_syscall(libc::SYS_nanosleep, [req as i64, rem as i64, 0, 0, 0, 0])) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, flags: i32, req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if in_sim() {
        let t = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        let s = sim();
        if flags & libc::TIMER_ABSTIME != 0 { sim_sleep(t.saturating_sub(MONO_BASE + s.now_ns)); } else { sim_sleep(t); }
        return 0;
    }
    -(raw_syscall(libc::SYS_clock_nanosleep, [clk as i64, flags as i64, req as i64, rem as i64, 0, 0]) as i32)
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut libc::timespec) -> i32 {
    if in_sim() {
        let t = sim().read_clock(clk == libc::CLOCK_REALTIME || clk == 5);
        (*ts).tv_sec = t.div_euclid(1_000_000_000) as i64;
        (*ts).tv_nsec = t.rem_euclid(1_000_000_000) as i64;
        return 0;
    }
    ret_errno(raw_syscall(libc::SYS_clock_gettime, [clk as i64, ts as i64, 0, 0, 0, 0])) as i32
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _tz: *mut libc::c_void) -> i32 {
    let mut ts: libc::timespec = std::mem::zeroed();
    let r = clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    (*tv).tv_sec = ts.tv_sec;
    (*tv).tv_usec = ts.tv_nsec / 1000;
    r
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut i64) -> i64 {
    let mut ts: libc::timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !t.is_null() { *t = ts.tv_sec; }
    ts.tv_sec
}
/// The simulated machine always has this many processors.
static NCPU: AtomicU32 = AtomicU32::new(4);
pub fn set_ncpu(n: u32) { NCPU.store(n.clamp(1, 64), Relaxed); }
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, len: usize, set: *mut libc::cpu_set_t) -> i32 {
    if ACTIVE.load(Relaxed) {
        std::ptr::write_bytes(set as *mut u8, 0, len);
        for i in 0..NCPU.load(Relaxed) as usize { libc::CPU_SET(i, &mut *set); }
        return 0;
    }
    let r = raw_syscall(libc::SYS_sched_getaffinity, [pid as i64, len as i64, set as i64, 0, 0, 0]);
    if r < 0 { return ret_errno(r) as i32; }
    let r = r as usize;
    if r < len { std::ptr::write_bytes((set as *mut u8).add(r), 0, len - r); }
    0
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if ACTIVE.load(Relaxed) { return 4242 + (WORLD.load(Relaxed) % 30_011) as i32; }
    raw_syscall(libc::SYS_getpid, [0; 6]) as i32
}

// ---------------------------------------------------------------- surroundings of the process
/// What the process finds around it: 0 is a plain machine, every other number another one, with
/// another process id, host name and environment variables. Files are private to the process.
static WORLD: AtomicU64 = AtomicU64::new(0);
pub static ENV_READS: AtomicU64 = AtomicU64::new(0);
pub static FILE_CALLS: AtomicU64 = AtomicU64::new(0);
pub fn set_world(w: u64) { WORLD.store(w, Relaxed); }
/// The directory that holds the files of the simulated process with this (real) pid.
pub fn files_of(pid: i32) -> String { format!("/tmp/gssim-files-{pid}") }

extern "C" { static environ: *const *const libc::c_char; }
static VALUES: [&std::ffi::CStr; 8] = [c"1", c"0", c"", c"true", c"4", c"/var/empty", c"debug", c"-1"];
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *const libc::c_char {
    let n = std::ffi::CStr::from_ptr(name).to_bytes();
    let w = WORLD.load(Relaxed);
    if w != 0 && in_sim() {
        ENV_READS.fetch_add(1, Relaxed);
        let own = [&b"RUST"[..], b"RAYON", b"GSSIM", b"DETERMINISTIC"].iter().any(|p| n.starts_with(p));
        let mut h = w;
        for c in n { h = (h ^ *c as u64).wrapping_mul(0x100_0000_01b3); }
        let h = sm(&mut h);
        if !own && h % 4 != 0 { return VALUES[(h >> 8) as usize % 8].as_ptr(); }
    }
    let mut e = environ;
    if e.is_null() { return std::ptr::null(); }
    while !(*e).is_null() {
        let p = *e;
        if libc::strncmp(p, name, n.len()) == 0 && *p.add(n.len()) == b'=' as libc::c_char { return p.add(n.len() + 1); }
        e = e.add(1);
    }
    std::ptr::null()
}
#[no_mangle]
pub unsafe extern "C" fn gethostname(buf: *mut libc::c_char, len: usize) -> i32 {
    let h = format!("host-{}\0", WORLD.load(Relaxed) % 997);
    let k = h.len().min(len);
    std::ptr::copy_nonoverlapping(h.as_ptr() as *const libc::c_char, buf, k);
    0
}
/// Where the simulated machine keeps the file of this name (None: not redirected).
unsafe fn redirect(path: *const libc::c_char, create: bool) -> Option<[u8; 512]> {
    if !in_sim() || path.is_null() { return None; }
    let p = std::ffi::CStr::from_ptr(path).to_bytes();
    if [&b"/proc"[..], b"/sys", b"/dev"].iter().any(|q| p.starts_with(q)) { return None; }
    FILE_CALLS.fetch_add(1, Relaxed);
    let mut out = [0u8; 512];
    let root = files_of(raw_syscall(libc::SYS_getpid, [0; 6]) as i32);
    out[..root.len()].copy_from_slice(root.as_bytes());
    if create { raw_syscall(libc::SYS_mkdirat, [libc::AT_FDCWD as i64, out.as_ptr() as i64, 0o700, 0, 0, 0]); }
    let mut k = root.len();
    out[k] = b'/';
    k += 1;
    for c in p.iter().rev().take(200).rev() { out[k] = if *c == b'/' { b'%' } else { *c }; k += 1; }
    Some(out)
}
unsafe fn do_open(dir: i32, path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    let r = redirect(path, flags & libc::O_CREAT != 0);
    let (d, p) = match &r { Some(q) => (libc::AT_FDCWD, q.as_ptr() as *const libc::c_char), None => (dir, path) };
    ret_errno(raw_syscall(libc::SYS_openat, [d as i64, p as i64, flags as i64, mode as i64, 0, 0])) as i32
}
#[no_mangle]
#[allow(invalid_runtime_symbol_definitions)]
pub unsafe extern "C" fn open(path: *const libc::c_char, flags: i32, mode: u32) -> i32 { do_open(libc::AT_FDCWD, path, flags, mode) }
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: i32, mode: u32) -> i32 { do_open(libc::AT_FDCWD, path, flags, mode) }
#[no_mangle]
pub unsafe extern "C" fn openat(dir: i32, path: *const libc::c_char, flags: i32, mode: u32) -> i32 { do_open(dir, path, flags, mode) }
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: i32, path: *const libc::c_char, flags: i32, mode: u32) -> i32 { do_open(dir, path, flags, mode) }
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const libc::c_char, mode: u32) -> i32 {
    if redirect(path, true).is_some() { return 0; } // all files of the simulated machine lie in one directory
    ret_errno(raw_syscall(libc::SYS_mkdirat, [libc::AT_FDCWD as i64, path as i64, mode as i64, 0, 0, 0])) as i32
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const libc::c_char, b: *const libc::c_char) -> i32 {
    let (ra, rb) = (redirect(a, false), redirect(b, false));
    let (a, b) = (ra.as_ref().map(|q| q.as_ptr() as *const _).unwrap_or(a), rb.as_ref().map(|q| q.as_ptr() as *const _).unwrap_or(b));
    ret_errno(raw_syscall(libc::SYS_rename, [a as i64, b as i64, 0, 0, 0, 0])) as i32
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const libc::c_char) -> i32 {
    let r = redirect(path, false);
    let p = r.as_ref().map(|q| q.as_ptr() as *const _).unwrap_or(path);
    ret_errno(raw_syscall(libc::SYS_unlinkat, [libc::AT_FDCWD as i64, p as i64, 0, 0, 0, 0])) as i32
}

type StartFn = extern "C" fn(*mut libc::c_void) -> *mut libc::c_void;
type CreateFn = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, StartFn, *mut libc::c_void) -> i32;
type JoinFn = unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> i32;

unsafe fn real(name: &'static [u8]) -> *mut libc::c_void {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const _);
    assert!(!p.is_null());
    p
}

struct Boot { f: StartFn, arg: *mut libc::c_void, tid: u32 }

static KEY: AtomicU32 = AtomicU32::new(NONE);

unsafe extern "C" fn key_dtor(v: *mut libc::c_void) {
    let round = (v as usize) & 7;
    if round < 4 {
        // let other destructors (TLS values of std and rayon) run first, still under the baton
        libc::pthread_setspecific(KEY.load(SeqCst), (v as usize + 1) as *const _);
    } else {
        thread_finished();
    }
}

fn thread_finished() {
    if !in_sim() { return; }
    let m = me();
    // the next thread to run leaves the simulator code on our behalf
    std::mem::forget(Busy::enter());
    POINTS.fetch_add(1, Relaxed);
    let s = sim();
    s.ths[m as usize].st = St::Finished;
    for t in s.ths.iter_mut() { if t.st == St::Join(m) { t.st = St::Runnable; } }
    TID.with(|t| t.set(NONE));
    block(m, false);
}

extern "C" fn trampoline(b: *mut libc::c_void) -> *mut libc::c_void {
    let b = unsafe { Box::from_raw(b as *mut Boot) };
    TID.with(|t| t.set(b.tid));
    unsafe { libc::pthread_setspecific(KEY.load(SeqCst), 1 as *const _); }
    wait_baton(b.tid);
    let (f, arg) = (b.f, b.arg);
    drop(b);
    BUSY.store(false, SeqCst);
    f(arg)
}

/// Chance that thread creation fails (EAGAIN), as a fault: n-th creations listed here fail.
static mut FAIL_CREATE: Vec<u64> = Vec::new();
static CREATES: AtomicU64 = AtomicU64::new(0);
#[allow(static_mut_refs)]
pub fn fail_thread_creates(v: Vec<u64>) { unsafe { FAIL_CREATE = v; CREATES.store(0, SeqCst); } }

#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, f: StartFn, arg: *mut libc::c_void) -> i32 {
    static REAL: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    let r: CreateFn = std::mem::transmute(*REAL.get_or_init(|| real(b"pthread_create\0") as usize));
    if !in_sim() { return r(t, attr, f, arg); }
    if KEY.load(SeqCst) == NONE {
        let mut k: libc::pthread_key_t = 0;
        assert_eq!(libc::pthread_key_create(&mut k, Some(key_dtor)), 0);
        KEY.store(k, SeqCst);
    }
    let _b = Busy::enter();
    let n = CREATES.fetch_add(1, SeqCst);
    if FAIL_CREATE.contains(&n) { return libc::EAGAIN; }
    let s = sim();
    let tid = s.ths.len() as u32;
    if tid as usize >= MAXT { return libc::EAGAIN; }
    let prio = (1 << 32) + (sm(&mut s.rng) & 0xffff_ffff);
    s.ths.push(Th { st: St::Runnable, pthread: 0, prio, stalled_until: 0, timed_out: false, spurious: false });
    s.stats.threads += 1;
    let b = Box::into_raw(Box::new(Boot { f, arg, tid }));
    let rc = r(t, attr, trampoline, b as *mut _);
    if rc != 0 {
        drop(Box::from_raw(b));
        s.ths.pop();
        return rc;
    }
    sim().ths[tid as usize].pthread = *t;
    POINTS.fetch_add(1, Relaxed);
    decide(me(), false, false);
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, ret: *mut *mut libc::c_void) -> i32 {
    static REAL: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    let r: JoinFn = std::mem::transmute(*REAL.get_or_init(|| real(b"pthread_join\0") as usize));
    if in_sim() {
        let _b = Busy::enter();
        let m = me();
        let s = sim();
        // newest first: pthread_t values may be reused by later threads
        if let Some(i) = (0..s.ths.len()).rev().find(|&i| s.ths[i].pthread == t) {
            POINTS.fetch_add(1, Relaxed);
            if s.ths[i].st != St::Finished {
                s.ths[m as usize].st = St::Join(i as u32);
                block(m, true);
            }
        }
    }
    r(t, ret)
}

// ---------------------------------------------------------------- the allocator
// It lives here because allocations made by uninstrumented code - std frees nodes of a tree keyed
// by stack addresses when a thread ends - must not be preemption points.
use std::alloc::{GlobalAlloc, Layout, System};
/// Largest single allocation the simulated machine grants while armed (bytes).
static CAP: AtomicU64 = AtomicU64::new(u64::MAX);
static OVERSIZE: std::sync::atomic::AtomicPtr<AtomicU64> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
pub fn arm_alloc_cap(bytes: u64) { CAP.store(bytes, SeqCst); }
pub fn disarm_alloc_cap() { CAP.store(u64::MAX, SeqCst); }
/// Where the size of a refused allocation is noted.
pub fn report_oversize(to: &'static AtomicU64) { OVERSIZE.store(to as *const AtomicU64 as *mut AtomicU64, SeqCst); }
#[cold]
fn refuse(n: usize) -> *mut u8 {
    let p = OVERSIZE.load(SeqCst);
    if !p.is_null() { unsafe { (*p).store(n as u64, SeqCst); } }
    std::ptr::null_mut()
}
struct CapAlloc;
unsafe impl GlobalAlloc for CapAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if l.size() as u64 > CAP.load(Relaxed) { return refuse(l.size()); } System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { if l.size() as u64 > CAP.load(Relaxed) { return refuse(l.size()); } System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { if n as u64 > CAP.load(Relaxed) { return refuse(n); } System.realloc(p, l, n) }
}
#[global_allocator]
static ALLOC: CapAlloc = CapAlloc;
