//! Process layer: every simulated run executes in its own forked child, so it starts from the
//! same process state and is a pure function of its plan; crashes, aborts, oversized allocations
//! and hangs of the child are observed by the parent and become outcomes like any other.
use crate::util::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{Read as _, Write as _};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::time::Instant;

// ------------------------------------------------------------------ shared memory and allocator
#[repr(C)]
pub struct Shared {
    pub oversize: AtomicU64,
    pub found: AtomicU64, // smallest violating index so far + 1 (0 = none)
    pub stop: AtomicBool,
    pub next: AtomicU64,
    pub edges: [u8; 1 << 18],
}
static mut SHARED: *mut Shared = std::ptr::null_mut();
pub fn shared() -> &'static mut Shared { unsafe { &mut *SHARED } }
fn map_shared() -> *mut Shared {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        p as *mut Shared
    }
}
pub use simos::{arm_alloc_cap, disarm_alloc_cap};
fn share(m: *mut Shared) { unsafe { SHARED = m; simos::report_oversize(&(*m).oversize); } }

// ------------------------------------------------------------------ schedules
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Sched {
    pub kind: String,
    pub seed: u64,
    pub gap: u64,
    pub spurious: u64,
    pub threads: u64,
    pub clock: u64,
    pub devs: Vec<(u64, u64)>,
}
impl Sched {
    pub fn gen(p: &mut Prng) -> Sched {
        let threads = match p.below(10) { 0 => 1, 1..=3 => 2, 4..=5 => 3, 6..=7 => 4, 8 => p.range(5, 8), _ => p.range(9, 16) };
        let kind = ["seq", "rand", "pct", "starve"][p.weighted(&[1, 5, 2, 2])];
        let gap = *p.pick(&[1, 3, 10, 30, 100, 300, 1000, 5000]);
        Sched { kind: kind.into(), seed: p.next() >> 12, gap, spurious: if p.chance(1, 3) { p.range(2, 20) } else { 0 }, threads, clock: p.below(4) + 4 * [0, 0, 0, 1, 2, 2, 3, 3, 4, 5][p.below(10) as usize], devs: vec![] }
    }
    pub fn sequential() -> Sched { Sched { kind: "seq".into(), threads: 1, ..Default::default() } }
    pub fn start(&self) {
        let policy = match self.kind.as_str() {
            "rand" => simos::Policy::Random { gap: self.gap.max(1) },
            "pct" => simos::Policy::Pct { changes: 3 + (self.seed % 5) as u32, len: self.gap.max(1) * 40 },
            "starve" => simos::Policy::Starve { gap: self.gap.max(1), every: 6 },
            "script" => simos::Policy::Script(self.devs.iter().map(|(a, b)| (*a, *b as u32)).collect()),
            _ => simos::Policy::Sequential,
        };
        let threads = self.threads.clamp(1, 32);
        simos::set_ncpu(threads as u32);
        std::env::set_var("RAYON_NUM_THREADS", threads.to_string());
        // every run but the plain ones finds itself on another machine
        simos::set_world(if self.seed & 3 == 0 { 0 } else { self.seed });
        // keep even the densest policies within a bounded number of decisions per run
        simos::start(simos::Config {
            seed: self.seed, policy, spurious: self.spurious,
            clock_base_s: [1_600_000_000, 0, 4_000_000_000, 1_234_567][self.clock as usize % 4],
            clock_step_ns: if self.clock / 4 == 1 { 1_000_000 } else { 1000 }, clock_mode: self.clock / 4, entropy_seed: mix64(self.seed ^ self.clock), max_decisions: 60_000_000,
        }, fatal);
    }
}
fn fatal(m: &str) -> ! {
    let class = if m.starts_with("deadlock") { "deadlock" } else { "hang" };
    finish_child(Err(Viol { class: class.into(), msg: m.into() }))
}

// ------------------------------------------------------------------ outcome of a run
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Outcome {
    pub class: String, // empty = held
    pub msg: String,
    pub counters: BTreeMap<String, u64>,
    pub log_hash: u64,
    pub log_n: u64,
    pub sched_hash: u64,
    pub points: u64,
    pub decisions: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub spurious: u64,
    pub stalls: u64,
    pub threads: u64,
    pub sim_ns: u64,
    pub devs: Vec<(u64, u64)>,
    pub trace: Vec<String>,
    pub sample: Option<Value>,
    pub known: Vec<(String, String)>,
    pub nontrivial: bool,
}
impl Outcome { pub fn bad(&self) -> bool { !self.class.is_empty() } }

static mut OUT_FD: i32 = -1;
fn finish_child(r: Res) -> ! {
    let st = if simos::active() { Some(simos::stop()) } else { simos::snapshot() };
    disarm_alloc_cap();
    let c = ctx();
    let mut o = Outcome { counters: c.counters.clone(), log_hash: c.log_hash, log_n: c.log_n, trace: c.trace.clone(), sample: c.sample.clone(), known: c.known.clone(), nontrivial: c.nontrivial, ..Default::default() };
    if let Err(v) = r { o.class = v.class; o.msg = v.msg; }
    for (k, v) in [("environment_reads", &simos::ENV_READS), ("file_calls_redirected", &simos::FILE_CALLS)] { let v = v.load(SeqCst); if v > 0 { *o.counters.entry(k.into()).or_default() += v; } }
    if let Some((s, d)) = st {
        o.sched_hash = s.hash; o.points = s.points; o.decisions = s.decisions; o.switches = s.switches; o.preemptions = s.preemptions;
        for (k, v) in [("fault.clock_step", s.clock_jumps), ("fault.clock_stall", s.clock_stalls), ("clock_readings", s.clock_calls)] { if v > 0 { *o.counters.entry(k.into()).or_default() += v; } }
        o.spurious = s.spurious; o.stalls = s.stalls; o.threads = s.threads; o.sim_ns = s.sim_ns;
        if o.bad() || c.want_trace { o.devs = d.iter().take(200_000).map(|(a, b)| (*a, *b as u64)).collect(); }
    }
    unsafe {
        if !SHARED.is_null() { for e in simos::edges_reached() { shared().edges[e as usize] = 1; } }
        let b = serde_json::to_vec(&o).unwrap();
        let mut off = 0;
        while off < b.len() {
            let n = libc::write(OUT_FD, b[off..].as_ptr() as *const _, b.len() - off);
            if n <= 0 { break; }
            off += n as usize;
        }
        libc::_exit(0)
    }
}

/// Start simulating under the plan's schedule (each scenario calls this exactly once, after
/// computing what it needs from fresh processes).
pub fn begin(plan: &Value) {
    let sched: Sched = serde_json::from_value(plan["sched"].clone()).unwrap_or_default();
    sched.start();
}

/// Remove the files a simulated process left behind.
fn tidy(pid: i32) {
    let d = simos::files_of(pid);
    if std::path::Path::new(&d).is_dir() { let _ = std::fs::remove_dir_all(&d); }
}
pub type Exec = fn(&Value) -> Res;
pub struct Running { pid: i32, fd: i32, start: Instant, buf: Vec<u8> }

/// Fork a child that executes the plan.
pub fn spawn(exec: Exec, plan: &Value, trace: bool) -> Running {
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        shared().oversize.store(0, SeqCst);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = libc::rlimit { rlim_cur: 60, rlim_max: 62 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            OUT_FD = fds[1];
            let dn = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
            if dn >= 0 && std::env::var("GSSIM_DEBUG").is_err() { libc::dup2(dn, 2); libc::dup2(dn, 1); }
            reset_ctx(trace);
            install_hook();
            let r = match catch(|| exec(plan)) {
                Ok(r) => r,
                Err(Caught::Injected) => viol("panic", "injected failure escaped the scenario"),
                Err(Caught::Panic(m)) => viol("panic", m),
            };
            finish_child(r)
        }
        libc::close(fds[1]);
        Running { pid, fd: fds[0], start: Instant::now(), buf: vec![] }
    }
}
impl Running {
    /// Wait for the child (at most `limit_s` of real time, a backstop only).
    pub fn wait(mut self, limit_s: f64) -> Outcome {
        unsafe {
            loop {
                let left = limit_s - self.start.elapsed().as_secs_f64();
                if left <= 0.0 {
                    libc::kill(self.pid, libc::SIGKILL);
                    libc::close(self.fd);
                    let mut st = 0;
                    libc::waitpid(self.pid, &mut st, 0);
                    tidy(self.pid);
                    return Outcome { class: "hang".into(), msg: "no progress within the real-time backstop".into(), ..Default::default() };
                }
                let mut p = libc::pollfd { fd: self.fd, events: libc::POLLIN, revents: 0 };
                let r = libc::poll(&mut p, 1, ((left * 1000.0) as i32).clamp(1, 1000));
                if r > 0 {
                    let mut b = [0u8; 65536];
                    let n = libc::read(self.fd, b.as_mut_ptr() as *mut _, b.len());
                    if n <= 0 { break; }
                    self.buf.extend_from_slice(&b[..n as usize]);
                }
            }
            libc::close(self.fd);
            let mut st = 0;
            libc::waitpid(self.pid, &mut st, 0);
            tidy(self.pid);
            if libc::WIFSIGNALED(st) || self.buf.is_empty() {
                let sig = if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { 0 };
                let os = shared().oversize.load(SeqCst);
                if os > 0 && sig == libc::SIGABRT { return Outcome { class: "abort-oversize-alloc".into(), msg: format!("the process aborted on an allocation of {os} bytes"), ..Default::default() }; }
                if sig == libc::SIGXCPU { return Outcome { class: "hang".into(), msg: "cpu limit".into(), ..Default::default() }; }
                return Outcome { class: format!("crash-signal-{sig}"), msg: format!("the process died (signal {sig})"), ..Default::default() };
            }
        }
        match serde_json::from_slice(&self.buf) { Ok(o) => o, Err(e) => Outcome { class: "crash-garbled".into(), msg: e.to_string(), ..Default::default() } }
    }
}
pub fn run_once(exec: Exec, plan: &Value, trace: bool) -> Outcome { spawn(exec, plan, trace).wait(90.0) }

/// Run `f` in a forked child that shares nothing with us afterwards, and return the bytes it
/// produced (used for "the same call in a fresh process"). Must be called outside a simulation.
pub fn in_fresh_process(sched: &Sched, f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, String> {
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            sched.start();
            let r = catch(f);
            simos::stop();
            let b = match r { Ok(mut v) => { v.insert(0, 1); v } Err(Caught::Injected) => b"\0injected".to_vec(), Err(Caught::Panic(m)) => format!("\0{m}").into_bytes() };
            let mut off = 0;
            while off < b.len() { let n = libc::write(fds[1], b[off..].as_ptr() as *const _, b.len() - off); if n <= 0 { break; } off += n as usize; }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut out = vec![];
        let mut b = [0u8; 65536];
        loop { let n = libc::read(fds[0], b.as_mut_ptr() as *mut _, b.len()); if n <= 0 { break; } out.extend_from_slice(&b[..n as usize]); }
        libc::close(fds[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        tidy(pid);
        if libc::WIFSIGNALED(st) { return Err(format!("died of signal {}", libc::WTERMSIG(st))); }
        if out.is_empty() { return Err("no output".into()); }
        if out[0] == 0 { return Err(String::from_utf8_lossy(&out[1..]).into_owned()); }
        out.remove(0);
        Ok(out)
    }
}

// ------------------------------------------------------------------ known findings
#[derive(Clone, Debug)]
pub struct Known { pub property: String, pub class: String, pub text: String }
pub fn load_known(path: &str) -> Vec<Known> {
    let Ok(s) = std::fs::read_to_string(path) else { return vec![] };
    s.lines().filter_map(|l| {
        let l = l.trim();
        let rest = l.strip_prefix("finding: ")?;
        let mut it = rest.splitn(3, ' ');
        let p = it.next()?.strip_prefix("property=")?;
        let c = it.next()?.strip_prefix("class=")?;
        Some(Known { property: p.into(), class: c.into(), text: it.next()?.into() })
    }).collect()
}

// ------------------------------------------------------------------ batch
#[derive(Default)]
pub struct Batch {
    pub runs: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub scheds: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub per_scen: BTreeMap<String, u64>,
    pub sim_ns: u64,
    pub points: u64,
    pub decisions: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub spurious: u64,
    pub stalls: u64,
    pub threads: u64,
    pub samples: Vec<Value>,
    pub known: BTreeMap<String, (u64, String)>,
    pub viols: Vec<(u64, Value, Outcome)>,
    pub digest: u64,
    pub hashes: BTreeMap<u64, u64>,
    pub wall: f64,
    pub timed_out: bool,
}
#[derive(Serialize, Deserialize)]
struct Line { i: u64, ph: u64, scen: String, o: Outcome, plan: Option<Value> }

pub struct Job<'a> { pub prop: &'a str, pub tier: &'a str, pub seed: u64, pub runs: u64, pub budget_s: f64, pub workers: usize, pub gen: fn(&str, &str, u64, u64) -> Value, pub exec: Exec, pub known: &'a [Known] }

pub fn batch(j: &Job) -> Batch {
    let t0 = Instant::now();
    unsafe { if SHARED.is_null() { share(map_shared()); } }
    shared().found.store(0, SeqCst);
    shared().stop.store(false, SeqCst);
    shared().next.store(0, SeqCst);
    let mut fds = vec![];
    let mut pids = vec![];
    for w in 0..j.workers {
        unsafe {
            let mut p = [0i32; 2];
            assert_eq!(libc::pipe(p.as_mut_ptr()), 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::close(p[0]);
                for f in &fds { libc::close(*f); }
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                worker(j, w, p[1], t0);
                libc::_exit(0);
            }
            libc::close(p[1]);
            fds.push(p[0]);
            pids.push(pid);
        }
    }
    let mut b = Batch::default();
    let mut bufs: Vec<Vec<u8>> = vec![vec![]; j.workers];
    let mut open = j.workers;
    let mut hashes: BTreeMap<u64, u64> = BTreeMap::new();
    while open > 0 {
        let mut pf: Vec<libc::pollfd> = fds.iter().map(|f| libc::pollfd { fd: *f, events: libc::POLLIN, revents: 0 }).collect();
        unsafe { libc::poll(pf.as_mut_ptr(), pf.len() as u64, 500); }
        for w in 0..j.workers {
            if pf[w].fd < 0 || pf[w].revents == 0 { continue; }
            let mut t = [0u8; 1 << 16];
            let n = unsafe { libc::read(fds[w], t.as_mut_ptr() as *mut _, t.len()) };
            if n <= 0 { unsafe { libc::close(fds[w]); } fds[w] = -1; open -= 1; continue; }
            bufs[w].extend_from_slice(&t[..n as usize]);
            while let Some(k) = bufs[w].iter().position(|c| *c == b'\n') {
                let line: Vec<u8> = bufs[w].drain(..=k).collect();
                let l: Line = serde_json::from_slice(&line).expect("worker line");
                b.runs += 1;
                let o = &l.o;
                *b.per_scen.entry(l.scen.clone()).or_insert(0) += 1;
                if o.nontrivial { b.nontrivial += 1; b.distinct.insert(l.ph ^ o.sched_hash.rotate_left(17)); }
                b.scheds.insert(o.sched_hash);
                for (k, v) in &o.counters { *b.counters.entry(k.clone()).or_insert(0) += v; }
                b.sim_ns += o.sim_ns; b.points += o.points; b.decisions += o.decisions; b.switches += o.switches; b.preemptions += o.preemptions;
                b.spurious += o.spurious; b.stalls += o.stalls; b.threads += o.threads;
                if b.samples.len() < 6 { if let Some(s) = &o.sample { if o.nontrivial { b.samples.push(json!({"index": l.i, "scenario": l.scen, "case": s})); } } }
                for (c, m) in &o.known {
                    let e = b.known.entry(c.clone()).or_insert((0, m.clone()));
                    e.0 += 1;
                }
                hashes.insert(l.i, o.log_hash ^ o.sched_hash ^ fnv(0, o.class.as_bytes()));
                if o.bad() || o.known.iter().any(|(c, _)| !j.known.iter().any(|k| k.property == j.prop && &k.class == c)) {
                    b.viols.push((l.i, l.plan.clone().unwrap_or(Value::Null), l.o.clone()));
                }
            }
        }
    }
    for p in pids { unsafe { let mut st = 0; libc::waitpid(p, &mut st, 0); } }
    b.viols.sort_by_key(|v| v.0);
    b.digest = hashes.iter().fold(FNV0, |h, (i, v)| fnv(fnv(h, &i.to_le_bytes()), &v.to_le_bytes()));
    b.hashes = hashes;
    b.wall = t0.elapsed().as_secs_f64();
    b.timed_out = shared().stop.load(SeqCst);
    b
}
fn pin(w: usize) {
    unsafe {
        let mut s: libc::cpu_set_t = std::mem::zeroed();
        let n = libc::sysconf(libc::_SC_NPROCESSORS_CONF).max(1) as usize;
        libc::CPU_SET(w % n, &mut s);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &s); // best effort: only speed depends on it
    }
}
fn worker(j: &Job, w: usize, fd: i32, t0: Instant) {
    pin(w);
    // a private oversize flag per worker, shared with its children only; edges stay global
    let global = unsafe { SHARED };
    let mine = map_shared();
    share(mine);
    loop {
        // indices are handed out in order, so everything below the first violation gets explored
        let i = unsafe { (*global).next.fetch_add(1, SeqCst) };
        if i >= j.runs { break; }
        let f = unsafe { (*global).found.load(SeqCst) };
        if f != 0 && i + 1 > f { break; }
        if t0.elapsed().as_secs_f64() > j.budget_s { unsafe { (*global).stop.store(true, SeqCst); } break; }
        let plan = (j.gen)(j.prop, j.tier, j.seed, i);
        let o = run_once(j.exec, &plan, false);
        let unknown = o.known.iter().any(|(c, _)| !j.known.iter().any(|k| k.property == j.prop && &k.class == c));
        if o.bad() || unknown {
            unsafe {
                let mut cur = (*global).found.load(SeqCst);
                while cur == 0 || cur > i + 1 {
                    match (*global).found.compare_exchange(cur, i + 1, SeqCst, SeqCst) { Ok(_) => break, Err(c) => cur = c }
                }
            }
        }
        let ph = fnv(FNV0, plan.to_string().as_bytes());
        let l = Line { i, ph, scen: plan["scen"].as_str().unwrap_or("").into(), plan: if o.bad() || unknown { Some(plan) } else { None }, o };
        let mut s = serde_json::to_vec(&l).unwrap();
        s.push(b'\n');
        let mut off = 0;
        while off < s.len() { let n = unsafe { libc::write(fd, s[off..].as_ptr() as *const _, s.len() - off) }; if n <= 0 { return; } off += n as usize; }
    }
    unsafe { for k in 0..(1 << 18) { if (*mine).edges[k] != 0 { (*global).edges[k] = 1; } } }
}
pub fn edges() -> (usize, u32) { (shared().edges.iter().filter(|e| **e != 0).count(), simos::edges_total()) }
pub fn ensure_shared() { unsafe { if SHARED.is_null() { share(map_shared()); } } }

// ------------------------------------------------------------------ minimisation
fn class_of(o: &Outcome, want: &str) -> bool { o.class == want || (o.class.is_empty() && o.known.iter().any(|(c, _)| c == want)) }

pub struct Shrunk { pub plan: Value, pub tried: u64, pub accepted: u64 }

fn paths(v: &Value, pre: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(pre.clone());
    match v {
        Value::Object(m) => for (k, x) in m { pre.push(k.clone()); paths(x, pre, out); pre.pop(); },
        Value::Array(a) => for (k, x) in a.iter().enumerate() { pre.push(k.to_string()); paths(x, pre, out); pre.pop(); },
        _ => {}
    }
}
fn at<'a>(v: &'a mut Value, p: &[String]) -> Option<&'a mut Value> {
    let mut c = v;
    for k in p {
        c = match c { Value::Object(m) => m.get_mut(k)?, Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?, _ => return None };
    }
    Some(c)
}
fn candidates(plan: &Value) -> Vec<Value> {
    let mut out = vec![];
    // schedule first: simplest policies
    if plan["sched"]["kind"] != "seq" { let mut c = plan.clone(); c["sched"] = json!({"kind": "seq", "threads": plan["sched"]["threads"]}); out.push(c); }
    if plan["sched"]["spurious"].as_u64().unwrap_or(0) > 0 { let mut c = plan.clone(); c["sched"]["spurious"] = json!(0); out.push(c); }
    let mut ps = vec![];
    let body = plan["body"].clone();
    paths(&body, &mut vec![], &mut ps);
    // arrays: remove halves, quarters, single elements
    let mut removals = vec![];
    let mut scal = vec![];
    for p in &ps {
        let mut b = body.clone();
        let Some(v) = at(&mut b, p) else { continue };
        match v {
            Value::Array(a) if !a.is_empty() => {
                let n = a.len();
                let mut sizes = vec![n, n / 2, n / 4, 1];
                sizes.dedup();
                for s in sizes.into_iter().filter(|s| *s > 0) {
                    let mut k = 0;
                    while k < n {
                        removals.push((s * 1000 / n.max(1), p.clone(), k, (k + s).min(n)));
                        k += s;
                        if removals.len() > 4000 { break; }
                    }
                }
            }
            Value::Number(x) => if let Some(u) = x.as_u64() {
                if u > 0 { scal.push((p.clone(), json!(0))); }
                if u > 2 { scal.push((p.clone(), json!(2))); }
                if u > 16 { scal.push((p.clone(), json!(u / 2))); }
                if u > 1 { scal.push((p.clone(), json!(u - 1))); }
            },
            Value::Bool(true) => scal.push((p.clone(), json!(false))),
            Value::Object(_) => {}
            _ => {}
        }
        if !p.is_empty() { let mut b2 = body.clone(); if let Some(v) = at(&mut b2, p) { if v.is_u64() && p.last().map(|s| s.ends_with("_opt")).unwrap_or(false) { scal.push((p.clone(), Value::Null)); } } }
    }
    removals.sort_by_key(|r| std::cmp::Reverse(r.0));
    for (_, p, a, z) in removals {
        let mut c = plan.clone();
        if let Some(Value::Array(v)) = at(&mut c["body"], &p) { v.drain(a..z); }
        out.push(c);
    }
    let th = plan["sched"]["threads"].as_u64().unwrap_or(1);
    if th > 1 { for t in [1, 2, th - 1] { if t < th { let mut c = plan.clone(); c["sched"]["threads"] = json!(t); out.push(c); } } }
    for (p, x) in scal { let mut c = plan.clone(); if let Some(v) = at(&mut c["body"], &p) { *v = x; } out.push(c); }
    out
}
pub fn shrink(exec: Exec, plan: &Value, class: &str, budget_s: f64) -> Shrunk {
    let t0 = Instant::now();
    let par = 8;
    let mut cur = plan.clone();
    let (mut tried, mut accepted) = (0u64, 0u64);
    let mut from = 0usize;
    'outer: while t0.elapsed().as_secs_f64() < budget_s {
        let cs = candidates(&cur);
        let n = cs.len();
        if n == 0 { break; }
        let mut k = 0;
        // continue round-robin from where the last success was
        while k < n {
            if t0.elapsed().as_secs_f64() > budget_s { break 'outer; }
            let idx: Vec<usize> = (k..(k + par).min(n)).map(|q| (q + from) % n).collect();
            let rs: Vec<Running> = idx.iter().map(|q| spawn(exec, &cs[*q], false)).collect();
            let os: Vec<Outcome> = rs.into_iter().map(|r| r.wait(20.0)).collect();
            tried += os.len() as u64;
            if let Some(h) = os.iter().position(|o| class_of(o, class)) {
                cur = cs[idx[h]].clone();
                accepted += 1;
                from = idx[h].saturating_sub(1);
                continue 'outer;
            }
            k += par;
        }
        break;
    }
    // schedule: express as a script of deviations from the sequential default and ddmin it
    if cur["sched"]["kind"] != "seq" && cur["sched"]["kind"] != "script" && t0.elapsed().as_secs_f64() < budget_s * 1.5 {
        let o = run_once(exec, &cur, true);
        if class_of(&o, class) && o.devs.len() < 200_000 {
            let mut c = cur.clone();
            let s = cur["sched"].clone();
            c["sched"] = json!({"kind": "script", "seed": s["seed"], "threads": s["threads"], "clock": s["clock"], "devs": o.devs});
            if class_of(&run_once(exec, &c, false), class) {
                tried += 2;
                let mut devs = o.devs.clone();
                let mut chunk = devs.len().max(1);
                while chunk >= 1 && t0.elapsed().as_secs_f64() < budget_s * 2.0 {
                    let mut i = 0;
                    let mut any = false;
                    while i < devs.len() && t0.elapsed().as_secs_f64() < budget_s * 2.0 {
                        let mut d = devs.clone();
                        d.drain(i..(i + chunk).min(d.len()));
                        c["sched"]["devs"] = json!(d);
                        tried += 1;
                        if class_of(&run_once(exec, &c, false), class) { devs = d; any = true; accepted += 1; } else { i += chunk; }
                    }
                    if chunk == 1 && !any { break; }
                    chunk = if chunk == 1 { 1 } else { chunk / 2 };
                }
                c["sched"]["devs"] = json!(devs);
                cur = c;
            }
        }
    }
    Shrunk { plan: cur, tried, accepted }
}

// ------------------------------------------------------------------ the check command
pub struct Meta { pub level: &'static str, pub rule: String, pub assumptions: Vec<String>, pub real: Vec<&'static str>, pub stub: Vec<&'static str> }

pub fn check(j: &Job, meta: &Meta, root: &str) -> i32 {
    let t0 = Instant::now();
    println!("gssim: property={} tier={} seed={} runs={} workers={}", j.prop, j.tier, j.seed, j.runs, j.workers);
    let b = batch(j);
    let mut code = 0;
    let mut reported: BTreeSet<String> = BTreeSet::new();
    for k in j.known.iter().filter(|k| k.property == j.prop) {
        if b.known.contains_key(&k.class) { println!("KNOWN-FINDING: property={} {}", j.prop, k.text); }
    }
    let mut nviol = 0;
    for (i, plan, o) in b.viols.iter() {
        let class = if o.bad() { o.class.clone() } else {
            o.known.iter().find(|(c, _)| !j.known.iter().any(|k| k.property == j.prop && &k.class == c)).map(|x| x.0.clone()).unwrap_or_default()
        };
        if j.known.iter().any(|k| k.property == j.prop && k.class == class) { println!("KNOWN-FINDING: property={} {}", j.prop, class); continue; }
        nviol += 1;
        if !reported.insert(class.clone()) || reported.len() > 1 { continue; }
        println!("run {i}: {} - {}", class, if o.bad() { o.msg.clone() } else { o.known.iter().find(|x| x.0 == class).map(|x| x.1.clone()).unwrap_or_default() });
        let s = shrink(j.exec, plan, &class, if j.tier == "quick" { 25.0 } else { 90.0 });
        let o1 = run_once(j.exec, &s.plan, true);
        let o2 = run_once(j.exec, &s.plan, true);
        let repro = class_of(&o1, &class) && class_of(&o2, &class) && o1.log_hash == o2.log_hash && o1.sched_hash == o2.sched_hash;
        let (fplan, fo) = if repro { (s.plan.clone(), o1) } else { (plan.clone(), run_once(j.exec, plan, true)) };
        let path = format!("{root}/evidence/replay-{}-{}.json", j.prop, i);
        let rep = json!({"property": j.prop, "class": class, "seed": j.seed, "index": i, "original_plan": plan, "plan": fplan,
            "message": if fo.bad() { fo.msg.clone() } else { fo.known.iter().find(|x| x.0 == class).map(|x| x.1.clone()).unwrap_or_default() },
            "log_hash": fo.log_hash, "sched_hash": fo.sched_hash, "trace": fo.trace, "shrink": {"tried": s.tried, "accepted": s.accepted, "reproduced": repro}});
        std::fs::create_dir_all(format!("{root}/evidence")).ok();
        std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
        println!("minimised to {} bytes of plan ({} candidates tried): {}", fplan.to_string().len(), s.tried, rep["message"].as_str().unwrap_or(""));
        println!("VIOLATION property={} replay={}", j.prop, path);
        code = 1;
    }
    let wall = t0.elapsed().as_secs_f64();
    let (e, et) = edges();
    let mut faults: BTreeMap<String, u64> = b.counters.iter().filter(|(k, _)| k.starts_with("fault.")).map(|(k, v)| (k[6..].to_string(), *v)).collect();
    for (k, v) in [("thread_preempted", b.preemptions), ("spurious_wakeup", b.spurious), ("thread_stalled", b.stalls)] { if v > 0 { faults.insert(k.into(), v); } }
    let probes: BTreeMap<_, _> = b.counters.iter().filter(|(k, _)| !k.starts_with("fault.")).collect();
    let ev = json!({
        "property": j.prop, "tier": j.tier, "seed": j.seed, "level": meta.level, "wall_s": wall, "violations": nviol,
        "assumptions": meta.assumptions,
        "coverage": {
            "evaluations": b.runs, "distinct_nontrivial": b.distinct.len(), "rule": meta.rule, "samples": b.samples,
            "runs_planned": j.runs, "stopped_by_time_budget": b.timed_out,
            "runs_per_hour": (b.runs as f64 / b.wall * 3600.0) as u64, "seeds_per_run": 1,
            "simulated_seconds": b.sim_ns as f64 / 1e9,
            "scenarios": b.per_scen,
            "faults_injected": faults, "events_and_probes": probes,
            "scheduling": {"distinct_interleavings": b.scheds.len(), "interleaving_measure": "hash of the sequence (preemption point number, thread chosen) over the whole run",
                "preemption_points": b.points, "decisions": b.decisions, "context_switches": b.switches, "threads": b.threads},
            "code_edges_reached": e, "code_edges_instrumented": et,
            "real_components": meta.real, "stub_components": meta.stub,
            "known_findings_seen": b.known.iter().map(|(k, v)| (k.clone(), v.0)).collect::<BTreeMap<_, _>>(),
            "batch_digest": format!("{:016x}", b.digest),
        }
    });
    std::fs::create_dir_all(format!("{root}/evidence")).ok();
    std::fs::write(format!("{root}/evidence/{}.json", j.prop), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!("{}: {} runs ({} distinct non-trivial, {} interleavings) in {:.1} s, digest {:016x}{}", j.prop, b.runs, b.distinct.len(), b.scheds.len(), b.wall, b.digest, if b.timed_out { ", stopped by the time budget" } else { "" });
    std::io::stdout().flush().ok();
    code
}
pub fn read_file(p: &str) -> String { let mut s = String::new(); std::fs::File::open(p).unwrap().read_to_string(&mut s).unwrap(); s }
