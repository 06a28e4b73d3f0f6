//! PRNG, scalar specs, the coin source handed to the library, faulty streams, run context.
use ark_ff::PrimeField;
use ark_std::rand::{Error as RandError, RngCore};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Prng(pub u64);
impl Prng {
    pub fn new(seed: u64) -> Self { let mut p = Prng(seed ^ 0xa076_1d64_78bd_642f); p.next(); p }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len() as u64) as usize; &v[i] }
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let mut t = self.below(w.iter().sum());
        for (i, x) in w.iter().enumerate() { if t < *x { return i; } t -= x; }
        0
    }
    pub fn fork(&mut self) -> Prng { Prng::new(self.next()) }
}
pub fn mix64(x: u64) -> u64 { Prng::new(x).next() }
pub fn fnv(h: u64, b: &[u8]) -> u64 { b.iter().fold(h, |h, c| (h ^ *c as u64).wrapping_mul(0x100000001b3)) }
pub const FNV0: u64 = 0xcbf29ce484222325;

/// A scalar written as one small integer: n = s>>1 (small values stand for themselves, larger
/// ones for pseudo-random field elements), s&1 = negate.
pub fn sc<F: PrimeField>(s: u64) -> F {
    let n = s >> 1;
    let v = if n < 8 { F::from(n) } else if n >> 48 == 1 {
        // structured values: powers of two and their neighbours, halves, patterns of limbs
        let mut p = Prng::new(n);
        match p.below(4) {
            0 => F::from(2u64).pow([p.below(F::MODULUS_BIT_SIZE as u64)]),
            1 => F::from(2u64).pow([p.below(F::MODULUS_BIT_SIZE as u64)]) - F::one(),
            2 => F::from(2u64).inverse().unwrap() + F::from(p.below(2)),
            _ => {
                // a pattern of machine words; only the last one is cut to the modulus
                let n = (F::MODULUS_BIT_SIZE as usize).div_ceil(64);
                let mut b = vec![0u8; 8 * n];
                for c in b.chunks_mut(8) { c.copy_from_slice(&match p.below(5) { 0 | 1 => 0, 2 => p.next(), 3 => p.next() | 1 << 63, _ => u64::MAX }.to_le_bytes()); }
                let cut = 64 * n - F::MODULUS_BIT_SIZE as usize + 1;
                let top = u64::from_le_bytes(b[8 * n - 8..].try_into().unwrap()) & (u64::MAX >> cut);
                b[8 * n - 8..].copy_from_slice(&top.to_le_bytes());
                F::from_le_bytes_mod_order(&b)
            }
        }
    } else {
        let mut p = Prng::new(n);
        let mut b = [0u8; 40];
        for c in b.chunks_mut(8) { c.copy_from_slice(&p.next().to_le_bytes()); }
        F::from_le_bytes_mod_order(&b)
    };
    if s & 1 == 1 { -v } else { v }
}
/// Value styles: how often degenerate scalars appear in a run.
pub fn gen_spec(p: &mut Prng, style: u64) -> u64 {
    match style {
        0 => if p.chance(1, 24) { 1 << 49 | p.below(1 << 20) } else { 16 + p.below(1 << 40) }, // generic
        1 => match p.below(12) { 10 | 11 => 1 << 49 | p.below(1 << 20), 0..=2 => 0, 3 => 2, 4 => 3, 5 => 4 + p.below(12), 6..=7 => 16 + p.below(6), _ => 16 + p.below(1 << 40) },
        2 => if p.chance(3, 4) { 0 } else { 16 + p.below(1 << 40) },  // sparse
        3 => *p.pick(&[2, 3, 0, 4, 5]),                               // tiny
        _ => 16 + p.below(4),                                         // few distinct values and their negatives
    }
}

pub struct Injected;
/// The coins a caller hands to the library.
pub struct Coins {
    pub st: Prng,
    pub draws: u64,
    pub fail_at: Option<u64>,
    pub script: Option<Vec<u64>>,
    pub rec: Option<Vec<u64>>,
    pub yields: bool,
    /// degenerate coins: 0 none, 1 all zero, 2 half of the scalars zero, 3 all alike, 4 few distinct
    pub style: u64,
}
impl Coins {
    pub fn new(seed: u64) -> Self { Coins { st: Prng::new(seed), draws: 0, fail_at: None, script: None, rec: None, yields: true, style: 0 } }
    /// The coins of an honest prover: its seed carries a style above bit 56.
    pub fn prover(seed: u64) -> Self { let mut c = Coins::new(seed); c.style = seed >> 56; if c.style > 0 { count("fault.degenerate_coins"); } c }
    pub fn scripted(v: Vec<u64>, rest: u64) -> Self { let mut c = Coins::new(rest); c.script = Some(v); c }
    fn word(&mut self) -> u64 {
        if self.yields { simos::point(); }
        let k = self.draws;
        self.draws += 1;
        let mut w = self.st.next();
        if self.style > 0 {
            // decided per word, or per scalar (two words on one engine, four on the other)
            let id = mix64(self.st.0.wrapping_sub(0x9E3779B97F4A7C15u64.wrapping_mul(k + 1)));
            let g = mix64(id ^ match id & 3 { 0 => k, 1 => k / 2, _ => k / 4 } ^ self.style << 40);
            w = match self.style % 5 { 1 => 0, 2 if g & 1 == 1 => 0, 3 => 3, 4 => g % 3, _ => w };
        }
        if let Some(s) = &self.script { if let Some(x) = s.get(k as usize) { w = *x; } }
        if let Some(r) = &mut self.rec { r.push(w); }
        if self.fail_at == Some(k) { std::panic::panic_any(Injected); }
        w
    }
    pub fn state(&self) -> u64 { self.st.0 ^ self.draws.rotate_left(32) }
}
impl RngCore for Coins {
    fn next_u32(&mut self) -> u32 { self.word() as u32 }
    fn next_u64(&mut self) -> u64 { self.word() }
    fn fill_bytes(&mut self, d: &mut [u8]) { for c in d.chunks_mut(8) { let w = self.word().to_le_bytes(); c.copy_from_slice(&w[..c.len()]); } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), RandError> { self.fill_bytes(d); Ok(()) }
}

// ------------------------------------------------------------------ faulty streams
use ark_serialize::{Read, Write};
use ark_std::io::{Error as IoError, ErrorKind, Result as IoResult};

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct IoPlan {
    /// chunk sizes used cyclically for each call (0 = interrupted); empty = whole
    pub chunks: Vec<u64>,
    /// byte position at which the stream fails
    pub fail_at: Option<u64>,
    /// kind of the failure: 1 end of file / nothing written, else an error of some kind
    pub kind: u64,
}
impl IoPlan {
    pub fn gen(p: &mut Prng, len: u64, fail: bool) -> IoPlan {
        let mut chunks = vec![];
        if p.chance(3, 4) {
            for _ in 0..p.range(1, 6) { chunks.push(match p.below(6) { 0 => 0, 1 => 1, 2 => p.range(1, 3), 3 => p.range(1, 9), 4 => p.range(7, 17), _ => p.range(1, 64) }); }
            if chunks.iter().all(|c| *c == 0) { chunks.push(1 + p.below(8)); }
        }
        IoPlan { chunks, fail_at: if fail { Some(p.below(len.max(1))) } else { None }, kind: p.below(10) }
    }
}
#[derive(Clone, Debug, Default)]
pub struct IoCount { pub calls: u64, pub short: u64, pub intr: u64, pub errs: u64 }

pub struct FRead<'a> { pub d: &'a [u8], pub pos: usize, pub plan: IoPlan, pub k: usize, pub cnt: IoCount }
impl<'a> FRead<'a> { pub fn new(d: &'a [u8], plan: &IoPlan) -> Self { FRead { d, pos: 0, plan: plan.clone(), k: 0, cnt: IoCount::default() } } }
fn io_err(kind: u64) -> IoError { match kind { 1 => IoError::new(ErrorKind::UnexpectedEof, "eof"), 2 => IoError::new(ErrorKind::Other, "bad sector"), 3 => IoError::new(ErrorKind::Other, "no space"), 4 => IoError::new(ErrorKind::WouldBlock, "not ready"), 5 => IoError::new(ErrorKind::TimedOut, "timed out"), 6 => IoError::new(ErrorKind::BrokenPipe, "broken pipe"), 7 => IoError::new(ErrorKind::WriteZero, "wrote nothing"), 8 => IoError::new(ErrorKind::InvalidData, "bad block"), 9 => IoError::from(ErrorKind::ConnectionReset), _ => IoError::new(ErrorKind::Other, "i/o error") } }
fn intr() -> IoError { IoError::new(ErrorKind::Interrupted, "interrupted") }

impl<'a> Read for FRead<'a> {
    fn read(&mut self, buf: &mut [u8]) -> IoResult<usize> {
        simos::point();
        self.cnt.calls += 1;
        let mut n = buf.len().min(self.d.len() - self.pos);
        if !self.plan.chunks.is_empty() && !buf.is_empty() {
            let c = self.plan.chunks[self.k % self.plan.chunks.len()] as usize;
            self.k += 1;
            if c == 0 && self.plan.chunks.iter().any(|x| *x != 0) { self.cnt.intr += 1; return Err(intr()); }
            if c != 0 && c < n { n = c; self.cnt.short += 1; }
        }
        if let Some(f) = self.plan.fail_at {
            let f = f as usize;
            if self.pos >= f { self.cnt.errs += 1; return if self.plan.kind == 1 { Ok(0) } else { Err(io_err(self.plan.kind)) }; }
            n = n.min(f - self.pos);
        }
        buf[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
pub struct FWrite { pub d: Vec<u8>, pub plan: IoPlan, pub k: usize, pub cnt: IoCount }
impl FWrite { pub fn new(plan: &IoPlan) -> Self { FWrite { d: vec![], plan: plan.clone(), k: 0, cnt: IoCount::default() } } }
impl Write for FWrite {
    fn write(&mut self, buf: &[u8]) -> IoResult<usize> {
        simos::point();
        self.cnt.calls += 1;
        let mut n = buf.len();
        if !self.plan.chunks.is_empty() && n > 0 {
            let c = self.plan.chunks[self.k % self.plan.chunks.len()] as usize;
            self.k += 1;
            if c == 0 && self.plan.chunks.iter().any(|x| *x != 0) { self.cnt.intr += 1; return Err(intr()); }
            if c != 0 && c < n { n = c; self.cnt.short += 1; }
        }
        if let Some(f) = self.plan.fail_at {
            let f = f as usize;
            if self.d.len() >= f && !buf.is_empty() { self.cnt.errs += 1; return if self.plan.kind == 1 { Ok(0) } else { Err(io_err(self.plan.kind)) }; }
            n = n.min(f - self.d.len());
        }
        self.d.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> IoResult<()> { Ok(()) }
}

// ------------------------------------------------------------------ run context
#[derive(Clone, Debug)]
pub struct Viol { pub class: String, pub msg: String }
pub type Res = Result<(), Viol>;
pub fn viol<T>(class: &str, msg: impl Into<String>) -> Result<T, Viol> { Err(Viol { class: class.into(), msg: msg.into() }) }

#[derive(Default)]
pub struct Ctx {
    pub counters: BTreeMap<String, u64>,
    pub log_hash: u64,
    pub log_n: u64,
    pub trace: Vec<String>,
    pub want_trace: bool,
    pub sample: Option<Value>,
    pub known: Vec<(String, String)>,
    pub nontrivial: bool,
}
static mut CTX: Option<Ctx> = None;
#[allow(static_mut_refs)]
pub fn ctx() -> &'static mut Ctx { unsafe { CTX.get_or_insert_with(Ctx::default) } }
pub fn reset_ctx(trace: bool) { *ctx() = Ctx { log_hash: FNV0, want_trace: trace, ..Default::default() }; }
/// Count an event (fault fired, probe reached).
pub fn count(k: &str) { count_n(k, 1) }
pub fn count_n(k: &str, n: u64) { if n > 0 { simos::critical(|| *ctx().counters.entry(k.to_string()).or_insert(0) += n) } }
/// Append to the run's event log.
pub fn log(s: impl AsRef<str>) {
    simos::critical(|| {
        let c = ctx();
        c.log_hash = fnv(c.log_hash, s.as_ref().as_bytes()).rotate_left(7);
        c.log_n += 1;
        if c.want_trace && c.trace.len() < 4000 { c.trace.push(s.as_ref().to_string()); }
    })
}
pub fn nontrivial() { simos::critical(|| ctx().nontrivial = true) }
/// Report a violation that the scenario survives (used for conditions listed as known findings).
pub fn soft_viol(class: &str, msg: impl Into<String>) { let m = msg.into(); simos::critical(|| if !ctx().known.iter().any(|(c, _)| c == class) { ctx().known.push((class.to_string(), m)) }) }

// ------------------------------------------------------------------ catching panics
pub enum Caught { Injected, Panic(String) }
thread_local! { static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
static mut LAST_ANY: String = String::new();
#[allow(static_mut_refs)]
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else if i.payload().is::<Injected>() { "injected".into() } else { "panic".into() };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let s = format!("{m} @ {l}");
        if std::env::var("GSSIM_DEBUG").is_ok() { eprintln!("panic: {s}"); }
        simos::critical(|| unsafe { if m != "injected" { LAST_ANY = s.clone(); } });
        LAST.with(|c| *c.borrow_mut() = s);
    }));
}
#[allow(static_mut_refs)]
pub fn last_panic() -> String { unsafe { LAST_ANY.clone() } }
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, Caught> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            if p.is::<Injected>() { Err(Caught::Injected) } else {
                let m = if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = p.downcast_ref::<String>() { s.clone() } else { "panic".into() };
                Err(Caught::Panic(if last_panic().is_empty() { m } else { format!("{m} [{}]", last_panic()) }))
            }
        }
    }
}
pub fn hex(b: &[u8]) -> String { let mut s = String::new(); for x in b.iter().take(48) { s.push_str(&format!("{x:02x}")); } if b.len() > 48 { s.push_str(&format!("..({} bytes)", b.len())); } s }
pub fn js<T: Serialize>(t: &T) -> Value { serde_json::to_value(t).unwrap() }
pub fn sample(v: Value) { if ctx().sample.is_none() { ctx().sample = Some(v); } }
