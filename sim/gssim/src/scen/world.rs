//! A small deployment in one process: an authority that generates and distributes the reference
//! string, provers that commit, store their commitments on a disk and prove equations over them,
//! verifiers that receive everything as bytes. A discrete-event network loses, duplicates, delays,
//! reorders, corrupts, truncates, misroutes and splices messages; provers and verifiers crash
//! (also in the middle of a library call) and restart with what their disk kept.
//! Handlers of different nodes that are due at the same instant run concurrently.
use super::honest::carry;
use super::*;
use groth_sahai::prover::*;
use groth_sahai::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, BinaryHeap};

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct WEq { pub eq: EqP, pub xs: Vec<u64>, pub ys: Vec<u64> }
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct ProvP { pub gx: Vec<u64>, pub gy: Vec<u64>, pub sx: Vec<u64>, pub sy: Vec<u64>, pub asm: u64, pub eqs: Vec<WEq>, pub order: Vec<u64>, pub coins: u64 }
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Fault { pub n: u64, pub kind: u64, pub a: u64, pub b: u64 }
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Crash { pub node: u64, pub step: u64, pub mode: u64, pub d: u64, pub down: u64 }
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct DiskF { pub node: u64, pub op: u64, pub kind: u64, pub a: u64 }
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Body { pub crs: CrsPlan, pub provers: Vec<ProvP>, pub verifiers: u64, pub faults: Vec<Fault>, pub crashes: Vec<Crash>, pub disk: Vec<DiskF>, pub seed: u64, pub jitter: u64, pub conc: bool, pub io: IoPlan }

/// How a scenario is weighted: which fault kinds dominate.
pub enum Mix { Network, Hostile, Crashes }
pub const FK: [&str; 9] = ["drop", "duplicate", "delay", "corrupt", "truncate", "misroute", "splice", "replay_old", "splice_proof"];

pub fn gen(p: &mut Prng, mix: Mix) -> (&'static str, &'static str, Value) {
    let bls = p.chance(1, 12);
    let np = if bls { 1 } else { *p.pick(&[1, 1, 2, 2, 3]) };
    let mut b = Body { crs: CrsPlan::gen(p, false), verifiers: if bls { 1 } else { p.range(1, 3) }, seed: p.next() >> 16, jitter: *p.pick(&[0, 1, 5, 30, 200]), conc: p.chance(2, 3), io: IoPlan::gen(p, 64, false), ..Default::default() };
    for _ in 0..np {
        let hi = if bls { 2 } else { *p.pick(&[1, 2, 3, 4, 6]) };
        let st = p.below(5);
        let pool = |p: &mut Prng| (0..p.range(1, hi)).map(|_| gen_spec(p, st)).collect::<Vec<_>>();
        let (gx, gy, sx, sy) = (pool(p), pool(p), pool(p), pool(p));
        let asm = p.below(16);
        let ne = if bls { p.range(1, 2) } else { p.range(1, 5) };
        let mut eqs: Vec<WEq> = vec![];
        for _ in 0..ne {
            if !eqs.is_empty() && p.chance(1, 3) {
                // an earlier equation once more, over almost the same commitments or with almost the same coefficients
                let mut w: WEq = p.pick(&eqs).clone();
                let kind = w.eq.kind;
                let (xl, yl) = (if kind < 2 { gx.len() } else { sx.len() }, if kind % 2 == 0 { gy.len() } else { sy.len() });
                let xsing = asm >> (if kind < 2 { 0 } else { 2 }) & 1 == 1;
                let ysing = asm >> (if kind % 2 == 0 { 1 } else { 3 }) & 1 == 1;
                if w.xs.is_empty() && xsing { w.xs = (0..xl as u64).collect(); }
                if w.ys.is_empty() && ysing { w.ys = (0..yl as u64).collect(); }
                let mut resel = |p: &mut Prng, s: &mut Vec<u64>, l: usize| if !s.is_empty() {
                    let first = if s.len() > 1 && p.chance(2, 3) { 1 } else { 0 };
                    for k in first..s.len() { if p.chance(1, 2) { s[k] = p.below(l as u64); } }
                };
                match p.below(6) {
                    0 | 1 => resel(p, &mut w.xs, xl),
                    2 | 3 => resel(p, &mut w.ys, yl),
                    4 => { let i = p.below(w.eq.g.len() as u64) as usize; if !w.eq.g[i].is_empty() { let j = p.below(w.eq.g[i].len() as u64) as usize; w.eq.g[i][j] = gen_spec(p, 0); } }
                    _ => { resel(p, &mut w.xs, xl); resel(p, &mut w.ys, yl); }
                }
                eqs.push(w);
                continue;
            }
            let kind = p.below(4);
            let (xl, yl) = (if kind < 2 { gx.len() } else { sx.len() }, if kind % 2 == 0 { gy.len() } else { sy.len() });
            let mut sel = |l: usize, single: bool| if single && p.chance(1, 2) { (0..p.range(1, l as u64 + 1)).map(|_| p.below(l as u64)).collect::<Vec<_>>() } else { vec![] };
            let xs = sel(xl, asm >> (if kind < 2 { 0 } else { 2 }) & 1 == 1);
            let ys = sel(yl, asm >> (if kind % 2 == 0 { 1 } else { 3 }) & 1 == 1);
            let m = if xs.is_empty() { xl } else { xs.len() };
            let n = if ys.is_empty() { yl } else { ys.len() };
            eqs.push(WEq { eq: EqP::gen(p, kind, m, n), xs, ys });
        }
        let no = if bls { ne } else if p.chance(1, 40) { ne + p.range(16, 40) } else { ne + p.below(3) };
        let mut order: Vec<u64> = (0..ne).collect();
        for _ in ne..no { order.push(p.below(ne)); }
        if p.chance(1, 2) { for i in (1..order.len()).rev() { let j = p.below(i as u64 + 1) as usize; order.swap(i, j); } }
        b.provers.push(ProvP { gx, gy, sx, sy, asm, eqs, order, coins: p.next() >> 16 });
    }
    let total: u64 = b.provers.iter().map(|x| x.order.len() as u64).sum::<u64>() * b.verifiers * 2 + 8;
    let w: [u64; 9] = match mix { Mix::Network => [6, 4, 6, 1, 1, 1, 0, 2, 0], Mix::Hostile => [1, 1, 2, 5, 2, 3, 6, 3, 6], Mix::Crashes => [3, 2, 3, 1, 1, 0, 0, 1, 0] };
    let nf = if bls { p.below(4) } else { match mix { Mix::Hostile => p.range(2, 14), _ => p.below(9) } };
    for _ in 0..nf { b.faults.push(Fault { n: p.below(total), kind: p.weighted(&w) as u64, a: p.next() >> 40, b: p.next() >> 40 }); }
    let nc = match mix { Mix::Crashes => p.range(1, 4), Mix::Network => p.below(3), Mix::Hostile => p.below(2) };
    for _ in 0..nc { b.crashes.push(Crash { node: p.below(np as u64 + b.verifiers), step: p.below(10), mode: p.below(4), d: p.below(24), down: p.below(300) }); }
    if !matches!(mix, Mix::Hostile) { for _ in 0..p.below(4) { b.disk.push(DiskF { node: p.below(np as u64), op: p.below(4), kind: p.below(5), a: p.next() >> 40 }); } }
    ("world", if bls { "bls" } else { "toy" }, js(&b))
}

// ------------------------------------------------------------------ messages
#[derive(Clone, Debug)]
enum Body1 { Crs(Vec<u8>, u64), CrsReq, Proof { prover: usize, k: usize, xc: Vec<u8>, yc: Vec<u8>, pf: Vec<u8>, pristine: bool }, Ack { prover: usize, k: usize, verdict: bool } }
#[derive(Clone, Debug)]
struct Msg { src: usize, dst: usize, b: Body1 }
#[derive(Clone, Debug)]
enum Ev { Boot(u64), Deliver(Msg), Timer(u64, u64), Down }
struct QE { at: u64, seq: u64, node: usize, ev: Ev }
impl PartialEq for QE { fn eq(&self, o: &Self) -> bool { (self.at, self.seq) == (o.at, o.seq) } }
impl Eq for QE {}
impl PartialOrd for QE { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for QE { fn cmp(&self, o: &Self) -> std::cmp::Ordering { (o.at, o.seq).cmp(&(self.at, self.seq)) } }
enum Out { Send(Msg), Timer(u64, u64), Crash(u64) }

/// What every node may look at: the public statements and the harness's own knowledge.
struct Env<E: Eng> { prop: String, key: Key<E>, stmts: Vec<Vec<Eqn<E>>>, np: usize, nv: usize, io: IoPlan }
impl<E: Eng> Env<E> {
    fn owns(&self, class: &str) -> bool {
        match self.prop.as_str() {
            "C01" => ["honest-rejected", "liveness", "panic", "transport"].contains(&class),
            "C02" => ["unsound"].contains(&class),
            "C03" => ["verdict-differs"].contains(&class),
            "C11" => ["honest-rejected", "liveness", "panic", "commitments-changed", "restart-differs", "torn-file-decoded", "transport"].contains(&class),
            "C12" => ["verify-panics", "verdict-differs", "honest-rejected"].contains(&class),
            _ => true,
        }
    }
    fn v(&self, class: &str, msg: String) -> Res { if self.owns(class) { viol(class, msg) } else { log(format!("other: {class}: {msg}")); count(&format!("other.{class}")); Ok(()) } }
}

// ------------------------------------------------------------------ the disk of one prover
#[derive(Default)]
struct Disk { durable: BTreeMap<String, Vec<u8>>, tmp: Option<Vec<u8>>, ops: u64, faults: Vec<DiskF> }
impl Disk {
    fn fault(&mut self) -> Option<DiskF> { let o = self.ops; self.ops += 1; self.faults.iter().find(|f| f.op == o).cloned() }
    /// write to a temporary file, sync, rename; false = the write failed and left only debris
    fn save(&mut self, name: &str, data: &[u8]) -> bool {
        let f = self.fault();
        match f.as_ref().map(|f| (f.kind, f.a)) {
            Some((0, a)) => { count("fault.disk_full"); self.tmp = Some(data[..(a as usize) % (data.len() + 1)].to_vec()); return false; }
            Some((1, a)) => { count("fault.write_error"); self.tmp = Some(data[..(a as usize) % (data.len() + 1)].to_vec()); return false; }
            _ => {}
        }
        self.durable.insert(name.into(), data.to_vec());
        self.tmp = None;
        if let Some((2, a)) = f.as_ref().map(|f| (f.kind, f.a)) {
            count("fault.bit_rot");
            let d = self.durable.get_mut(name).unwrap();
            let l = d.len() as u64;
            if l > 0 { d[(a % l) as usize] ^= 1 << (a / l % 8); }
        }
        true
    }
    /// power loss while saving: the temporary file keeps some prefix
    fn torn(&mut self, data: &[u8], a: u64) { count("fault.torn_write"); self.tmp = Some(data[..(a as usize) % (data.len() + 1)].to_vec()); }
}

// ------------------------------------------------------------------ provers
struct Pools<E: Eng> { gx: Vec<Commit1<E>>, gy: Vec<Commit2<E>>, sx: Vec<Commit1<E>>, sy: Vec<Commit2<E>> }
impl<E: Eng> Pools<E> {
    fn bytes(&self, c: Compress) -> Vec<u8> { let mut v = ser(&self.gx, c); v.extend(ser(&self.gy, c)); v.extend(ser(&self.sx, c)); v.extend(ser(&self.sy, c)); v }
    fn load(b: &[u8], c: Compress, io: &IoPlan) -> Result<Self, SerializationError> {
        let mut r = FRead::new(b, io);
        macro_rules! next { () => { CanonicalDeserialize::deserialize_with_mode(&mut r, c, Validate::Yes)? } }
        Ok(Pools { gx: next!(), gy: next!(), sx: next!(), sy: next!() })
    }
}
use ark_serialize::{CanonicalDeserialize, Compress, SerializationError, Validate};
pub fn list1<E: Eng>(v: &[Commit1<E>], sel: &[u64]) -> Commit1<E> {
    let idx: Vec<usize> = if sel.is_empty() { (0..v.len()).collect() } else { sel.iter().map(|i| *i as usize % v.len()).collect() };
    let mut a = v[idx[0]].clone();
    for i in &idx[1..] { let mut o = v[*i].clone(); a.append(&mut o); }
    a
}
pub fn list2<E: Eng>(v: &[Commit2<E>], sel: &[u64]) -> Commit2<E> {
    let idx: Vec<usize> = if sel.is_empty() { (0..v.len()).collect() } else { sel.iter().map(|i| *i as usize % v.len()).collect() };
    let mut a = v[idx[0]].clone();
    for i in &idx[1..] { let mut o = v[*i].clone(); a.append(&mut o); }
    a
}
fn pick<T: Clone>(v: &[T], sel: &[u64]) -> Vec<T> { if sel.is_empty() { v.to_vec() } else { sel.iter().map(|i| v[*i as usize % v.len()].clone()).collect() } }

struct Prover<E: Eng> {
    id: usize, plan: ProvP, up: bool, boot: u64, crs: Option<CRS<E>>, pools: Option<Pools<E>>, coins: Coins, disk: Disk,
    saved: Option<Vec<u8>>, acked: BTreeSet<(usize, usize)>, steps: u64, crashes: Vec<Crash>, sent: BTreeMap<usize, (Vec<u8>, Vec<u8>, Vec<u8>)>, epoch: u64,
    used: bool, comp: Compress,
}
/// Values of the pools (singles get their own part when asm says so).
impl<E: Eng> Prover<E> {
    fn vals(&self) -> [Vec<F<E>>; 4] { [vars::<E>(&self.plan.gx), vars::<E>(&self.plan.gy), vars::<E>(&self.plan.sx), vars::<E>(&self.plan.sy)] }
    fn crash_now(&self, mode: u64) -> Option<Crash> { self.crashes.iter().find(|c| c.step == self.steps && c.mode % 4 == mode).cloned() }
    fn die(&mut self, c: &Crash, what: &str, out: &mut Vec<Out>) {
        log(format!("prover {} crashes {what}", self.id));
        count(&format!("fault.crash_{what}"));
        self.up = false;
        self.crs = None;
        self.pools = None;
        self.sent.clear();
        self.crashes.retain(|x| !(x.step == c.step && x.mode == c.mode));
        out.push(Out::Crash(1 + c.down % 500));
    }
    /// Run a library call that may be cut short by a crash in the middle.
    fn op<R>(&mut self, out: &mut Vec<Out>, f: impl FnOnce(&mut Self) -> R) -> Result<Option<R>, Viol> {
        self.steps += 1;
        if let Some(c) = self.crash_now(0) { self.die(&c, "before_call", out); return Ok(None); }
        let mid = self.crash_now(1);
        if let Some(c) = &mid { self.coins.fail_at = Some(self.coins.draws + c.d); }
        let r = catch(|| f(&mut *self));
        self.coins.fail_at = None;
        match r {
            Ok(r) => {
                if let Some(c) = self.crash_now(2) { self.die(&c, "after_call", out); return Ok(None); }
                Ok(Some(r))
            }
            Err(Caught::Injected) => { let c = mid.unwrap(); self.die(&c, "inside_call", out); Ok(None) }
            Err(Caught::Panic(m)) => viol("panic", format!("prover {}: {m}", self.id)),
        }
    }
    fn commit_all(&mut self) -> Pools<E> {
        let crs = self.crs.clone().unwrap();
        let v = self.vals();
        let asm = self.plan.asm;
        macro_rules! pool { ($V:ident, $kind:expr, $i:expr) => {{
            let x = $V::<E>::new($kind, &v[$i]);
            if asm >> $i & 1 == 1 { (0..x.len()).map(|k| x.commit_one(k, &crs, &mut self.coins)).collect() } else { vec![x.commit(&crs, &mut self.coins)] }
        }} }
        Pools { gx: pool!(XV, 0, 0), gy: pool!(YV, 0, 1), sx: pool!(XV, 3, 2), sy: pool!(YV, 3, 3) }
    }
    fn frame(b: &[u8]) -> Vec<u8> { let mut v = fnv(FNV0, b).to_le_bytes().to_vec(); v.extend_from_slice(b); v }

    fn on(&mut self, ev: Ev, env: &Env<E>) -> Result<Vec<Out>, Viol> {
        let mut out = vec![];
        match ev {
            Ev::Boot(b) => {
                if b != self.boot || self.up { return Ok(out); }
                self.up = true;
                self.coins = Coins::new(mix64(self.plan.coins ^ (self.boot << 1)));
                if let Some(t) = self.disk.tmp.take() {
                    // debris of a torn write: a strict prefix must never decode
                    let full = self.saved.clone().unwrap_or_default();
                    if t.len() < full.len() && t.len() > 8 {
                        count("probe.torn_file_read");
                        if Pools::<E>::load(&t[8..], self.comp, &env.io).is_ok() { env.v("torn-file-decoded", format!("prover {}: {} of {} bytes decoded without an error", self.id, t.len() - 8, full.len() - 8))?; }
                    }
                }
                log(format!("prover {} boots ({})", self.id, self.boot));
                out.push(Out::Send(Msg { src: 1 + self.id, dst: 0, b: Body1::CrsReq }));
                out.push(Out::Timer(40, self.boot));
            }
            Ev::Down => {}
            _ if !self.up => {}
            Ev::Timer(_, boot) => {
                if boot != self.boot { return Ok(out); }
                if self.crs.is_none() { out.push(Out::Send(Msg { src: 1 + self.id, dst: 0, b: Body1::CrsReq })); } else { self.work(env, &mut out)?; }
                if self.up && self.acked.len() < self.plan.order.len() * env.nv { out.push(Out::Timer(60, self.boot)); }
            }
            Ev::Deliver(m) => match m.b {
                Body1::Crs(b, dg) => {
                    if self.crs.is_some() || fnv(FNV0, &b) != dg { return Ok(out); }
                    self.crs = Some(match CRS::<E>::deserialize_with_mode(FRead::new(&b, &env.io), Compress::Yes, Validate::Yes) { Ok(c) => c, Err(e) => { env.v("transport", format!("an authentic reference string failed to decode: {e:?}"))?; return Ok(out); } });
                    self.work(env, &mut out)?;
                }
                Body1::Ack { prover, k, verdict } if prover == self.id => {
                    if verdict { self.acked.insert((k, m.src)); }
                }
                _ => {}
            },
        }
        Ok(out)
    }
    fn work(&mut self, env: &Env<E>, out: &mut Vec<Out>) -> Res {
        if self.pools.is_none() {
            // stored commitments first
            if let Some(f) = self.disk.durable.get("commitments").cloned() {
                let intact = f.len() >= 8 && f[..8] == fnv(FNV0, &f[8..]).to_le_bytes();
                if intact {
                    match Pools::<E>::load(&f[8..], self.comp, &env.io) {
                        Ok(p) => {
                            count("probe.commitments_reloaded");
                            if Some(Self::frame(&p.bytes(self.comp))) != self.saved { env.v("restart-differs", format!("prover {}: reloaded commitments differ from the stored ones", self.id))?; }
                            self.pools = Some(p);
                        }
                        Err(e) => env.v("restart-differs", format!("prover {}: intact stored commitments do not decode: {e:?}", self.id))?,
                    }
                } else { self.disk.durable.remove("commitments"); self.acked.clear(); count("probe.bit_rot_detected"); }
            }
        }
        if self.pools.is_none() {
            let Some(p) = self.op(out, |s| s.commit_all())? else { return Ok(()) };
            let fr = Self::frame(&p.bytes(self.comp));
            self.epoch += 1;
            if let Some(c) = self.crash_now(3) { self.saved = Some(fr.clone()); self.disk.torn(&fr, c.d * 7919 + c.down); self.die(&c, "while_saving", out); return Ok(()); }
            self.saved = Some(fr.clone());
            if !self.disk.save("commitments", &fr) { return Ok(()); } // try again at the next timer
            log(format!("prover {} committed {:016x}", self.id, fnv(FNV0, &fr)));
            self.pools = Some(p);
            self.sent.clear();
        }
        for k in 0..self.plan.order.len() {
            let missing: Vec<usize> = (0..env.nv).filter(|v| !self.acked.contains(&(k, 1 + env.np + v))).collect();
            if missing.is_empty() { continue; }
            if !self.sent.contains_key(&k) {
                let e = self.plan.order[k] as usize % self.plan.eqs.len().max(1);
                let Some(w) = self.plan.eqs.get(e).cloned() else { continue };
                let v = self.vals();
                let kd = (w.eq.kind % 4) as u8;
                let (xd, yd) = (pick(if kd < 2 { &v[0] } else { &v[2] }, &w.xs), pick(if kd % 2 == 0 { &v[1] } else { &v[3] }, &w.ys));
                let stmt = &env.stmts[self.id][e];
                let (xv, yv) = (XV::<E>::new(kd, &xd), YV::<E>::new(kd, &yd));
                let r = self.op(out, |s| {
                    let p = s.pools.as_ref().unwrap();
                    let single = |i: u64| s.plan.asm >> i & 1 == 1;
                    let xc = list1(if kd < 2 { &p.gx } else { &p.sx }, if single(if kd < 2 { 0 } else { 2 }) { &w.xs } else { &[] });
                    let yc = list2(if kd % 2 == 0 { &p.gy } else { &p.sy }, if single(if kd % 2 == 0 { 1 } else { 3 }) { &w.ys } else { &[] });
                    let (x0, y0) = (xc.clone(), yc.clone());
                    let crs = s.crs.clone().unwrap();
                    let pf = stmt.prove(&xv, &yv, &xc, &yc, &crs, &mut s.coins);
                    let same = x0 == xc && y0 == yc && Some(Self::frame(&s.pools.as_ref().unwrap().bytes(s.comp))) == s.saved;
                    (serc(&xc), serc(&yc), serc(&pf), same)
                })?;
                let Some((xc, yc, pf, same)) = r else { return Ok(()) };
                count("proofs");
                if self.used { count("probe.commitments_used_again"); }
                self.used = true;
                if !same { env.v("commitments-changed", format!("prover {}: proving equation {e} altered the commitments it used", self.id))?; }
                log(format!("prover {} proves {} (eq {e}) {:016x}", self.id, KINDS[kd as usize], fnv(FNV0, &pf)));
                self.sent.insert(k, (xc, yc, pf));
            } else { count("fault.retransmission"); }
            let (xc, yc, pf) = self.sent[&k].clone();
            for v in missing { out.push(Out::Send(Msg { src: 1 + self.id, dst: 1 + env.np + v, b: Body1::Proof { prover: self.id, k, xc: xc.clone(), yc: yc.clone(), pf: pf.clone(), pristine: true } })); }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ verifiers and the authority
struct Verifier<E: Eng> { id: usize, node: usize, up: bool, boot: u64, crs: Option<CRS<E>>, steps: u64, crashes: Vec<Crash> }
impl<E: Eng> Verifier<E> {
    fn on(&mut self, ev: Ev, env: &Env<E>, orders: &[Vec<usize>]) -> Result<Vec<Out>, Viol> {
        let mut out = vec![];
        match ev {
            Ev::Boot(b) => {
                if b != self.boot || self.up { return Ok(out); }
                self.up = true;
                out.push(Out::Send(Msg { src: self.node, dst: 0, b: Body1::CrsReq }));
                out.push(Out::Timer(45, self.boot));
            }
            Ev::Timer(_, boot) => if self.up && boot == self.boot && self.crs.is_none() { out.push(Out::Send(Msg { src: self.node, dst: 0, b: Body1::CrsReq })); out.push(Out::Timer(45, self.boot)); },
            Ev::Deliver(m) if self.up => match m.b {
                Body1::Crs(b, dg) => if self.crs.is_none() && fnv(FNV0, &b) == dg {
                    self.crs = match CRS::<E>::deserialize_with_mode(FRead::new(&b, &env.io), Compress::Yes, Validate::Yes) { Ok(c) => Some(c), Err(e) => { env.v("transport", format!("an authentic reference string failed to decode: {e:?}"))?; None } };
                },
                Body1::Proof { prover, k, xc, yc, pf, pristine } => {
                    let Some(crs) = &self.crs else { return Ok(out) };
                    self.steps += 1;
                    if let Some(c) = self.crashes.iter().find(|c| c.step == self.steps).cloned() {
                        count("fault.verifier_crash");
                        log(format!("verifier {} crashes", self.id));
                        self.up = false;
                        self.crs = None;
                        self.crashes.retain(|x| x.step != c.step);
                        out.push(Out::Crash(1 + c.down % 500));
                        return Ok(out);
                    }
                    let Some(stmt) = orders.get(prover).and_then(|o| o.get(k)).and_then(|e| env.stmts[prover].get(*e)) else { return Ok(out) };
                    let dec = (|| -> Result<CProof<E>, SerializationError> {
                        Ok(CProof { xcoms: Commit1::deserialize_with_mode(FRead::new(&xc, &env.io), Compress::Yes, Validate::Yes)?, ycoms: Commit2::deserialize_with_mode(FRead::new(&yc, &env.io), Compress::Yes, Validate::Yes)?, equ_proofs: vec![EquProof::deserialize_with_mode(FRead::new(&pf, &env.io), Compress::Yes, Validate::Yes)?] })
                    })();
                    let p = match dec { Ok(p) => p, Err(e) => { count("undecodable_messages"); if pristine { env.v("transport", format!("a pristine proof failed to decode: {e:?}"))?; } return Ok(out); } };
                    let verdict = match catch(|| stmt.verify(&p, crs)) { Ok(v) => v, Err(Caught::Panic(m)) => { env.v("verify-panics", format!("verifier {}: {m}", self.id))?; return Ok(out); } Err(_) => unreachable!() };
                    let want = stmt.ref_verify(&p, crs);
                    log(format!("verifier {} on ({prover},{k}){}: {verdict}", self.id, if pristine { "" } else { " altered" }));
                    count(if verdict { "verdicts_accept" } else { "verdicts_reject" });
                    if !pristine { count("altered_proofs_decoded"); if want { count("probe.altered_but_valid"); } }
                    if pristine && !verdict { env.v("honest-rejected", format!("verifier {} rejected the honest proof {k} of prover {prover} ({}, delivered unaltered)", self.id, KINDS[stmt.kind() as usize]))?; }
                    if verdict != want { env.v("verdict-differs", format!("verifier {}: verify says {verdict}, the verification equation says {want} ({}; {})", self.id, KINDS[stmt.kind() as usize], if pristine { "unaltered" } else { "altered in transit" }))?; }
                    if verdict { if let Some(td) = &env.key.td { if !stmt.extracted_holds(&p.xcoms.coms, &p.ycoms.coms, crs, td) { env.v("unsound", format!("verifier {} accepted proof {k} of prover {prover} although the committed values do not satisfy the statement", self.id))?; } } }
                    out.push(Out::Send(Msg { src: self.node, dst: 1 + prover, b: Body1::Ack { prover, k, verdict } }));
                }
                _ => {}
            },
            _ => {}
        }
        Ok(out)
    }
}
enum Node<E: Eng> { Auth(Vec<u8>), P(Box<Prover<E>>), V(Verifier<E>) }

pub fn exec<E: Eng>(plan: &Value) -> Res {
    let mut b: Body = serde_json::from_value(plan["body"].clone()).unwrap();
    begin(plan);
    if b.crs.kind > 1 { b.crs.kind = 0; }
    b.provers.truncate(4);
    let (np, nv) = (b.provers.len(), b.verifiers.clamp(1, 4) as usize);
    // the reference string, from the authority's coins
    let key = make_crs::<E>(&b.crs);
    let mut stmts = vec![];
    let mut orders = vec![];
    for pr in &b.provers {
        let mut s = vec![];
        for w in &pr.eqs {
            let kd = w.eq.kind % 4;
            let single = |i: u64| pr.asm >> i & 1 == 1;
            let (xi, yi) = (if kd < 2 { 0 } else { 2 }, if kd % 2 == 0 { 1 } else { 3 });
            let x = pick(&vars::<E>(if kd < 2 { &pr.gx } else { &pr.sx }), if single(xi) { &w.xs } else { &[] });
            let y = pick(&vars::<E>(if kd % 2 == 0 { &pr.gy } else { &pr.sy }), if single(yi) { &w.ys } else { &[] });
            let mut eq = w.eq.clone();
            eq.toff = 0;
            // under a generated key of an engine without visible logarithms everything is relative to the same generators
            s.push(eq.norm::<E>(&x, &y).build());
        }
        orders.push(pr.order.iter().map(|o| *o as usize % pr.eqs.len().max(1)).collect::<Vec<_>>());
        stmts.push(s);
    }
    let env = Env { prop: plan["prop"].as_str().unwrap_or("").to_string(), key: key.clone(), stmts, np, nv, io: { let mut i = b.io.clone(); i.fail_at = None; i } };
    let crs_bytes = { let c: CRS<E> = carry(&key.crs, 0, &env.io)?; serc(&c) };
    let mut nodes: Vec<Node<E>> = vec![Node::Auth(crs_bytes)];
    for (i, pr) in b.provers.iter().enumerate() {
        let mut pr = pr.clone();
        // selections only where the pool is stored as singles
        for w in pr.eqs.iter_mut() {
            let kd = w.eq.kind % 4;
            if pr.asm >> (if kd < 2 { 0 } else { 2 }) & 1 == 0 { w.xs.clear(); }
            if pr.asm >> (if kd % 2 == 0 { 1 } else { 3 }) & 1 == 0 { w.ys.clear(); }
        }
        if pr.eqs.is_empty() { pr.order.clear(); }
        nodes.push(Node::P(Box::new(Prover { id: i, up: false, boot: 0, crs: None, pools: None, coins: Coins::new(0), disk: Disk { faults: b.disk.iter().filter(|d| d.node as usize == i).cloned().collect(), ..Default::default() }, saved: None, acked: Default::default(), steps: 0,
            crashes: b.crashes.iter().filter(|c| c.node as usize == i).cloned().collect(), sent: Default::default(), epoch: 0, used: false, comp: comp(pr.coins & 1 == 0), plan: pr })));
    }
    for v in 0..nv { nodes.push(Node::V(Verifier { id: v, node: 1 + np + v, up: false, boot: 0, crs: None, steps: 0, crashes: b.crashes.iter().filter(|c| c.node as usize == np + v).cloned().collect() })); }
    sample(json!({"provers": b.provers.iter().map(|p| json!({"pools": [p.gx.len(), p.gy.len(), p.sx.len(), p.sy.len()], "equations": p.eqs.iter().map(|e| KINDS[(e.eq.kind % 4) as usize]).collect::<Vec<_>>(), "proof_order": p.order})).collect::<Vec<_>>(),
        "verifiers": nv, "faults": b.faults.iter().map(|f| json!([f.n, FK[f.kind as usize % 9]])).collect::<Vec<_>>(), "crashes": b.crashes.iter().map(|c| json!([c.node, c.step, c.mode])).collect::<Vec<_>>(), "engine": E::NAME}));

    let mut rng = Prng::new(b.seed);
    let mut q: BinaryHeap<QE> = BinaryHeap::new();
    let (mut seq, mut now, mut sent, mut events) = (0u64, 0u64, 0u64, 0u64);
    let mut old: Vec<Msg> = vec![];
    for n in 1..nodes.len() { q.push(QE { at: 1, seq, node: n, ev: Ev::Boot(0) }); seq += 1; }
    let orders = &orders;
    let env = &env;
    while !q.is_empty() {
        // everything due in this instant, at most one batch per node
        now = now.max(q.peek().unwrap().at);
        let mut due: Vec<Vec<Ev>> = (0..nodes.len()).map(|_| vec![]).collect();
        while q.peek().map(|e| e.at <= now).unwrap_or(false) {
            let e = q.pop().unwrap();
            due[e.node].push(e.ev);
            events += 1;
            if !b.conc { break; }
        }
        simos::advance_to(now * 1_000_000);
        if events > 6000 { return env.v("liveness", "the parties did not finish within 6000 events although all faults have ceased".into()); }
        let mut work: Vec<(usize, &mut Node<E>, Vec<Ev>)> = nodes.iter_mut().zip(due).enumerate().filter(|(_, (_, d))| !d.is_empty()).map(|(i, (n, d))| (i, n, d)).collect();
        let handle = |n: &mut Node<E>, d: Vec<Ev>| -> Result<Vec<Out>, Viol> {
            let mut o = vec![];
            for ev in d {
                match n {
                    Node::Auth(c) => if let Ev::Deliver(m) = ev { if let Body1::CrsReq = m.b { o.push(Out::Send(Msg { src: 0, dst: m.src, b: Body1::Crs(c.clone(), fnv(FNV0, c)) })); } },
                    Node::P(p) => o.extend(p.on(ev, env)?),
                    Node::V(v) => o.extend(v.on(ev, env, orders)?),
                }
            }
            Ok(o)
        };
        let outs: Vec<(usize, Result<Vec<Out>, Viol>)> = if work.len() > 1 && b.conc {
            count("concurrent_handlers");
            std::thread::scope(|s| {
                let hs: Vec<_> = work.into_iter().map(|(i, n, d)| (i, s.spawn(move || handle(n, d)))).collect();
                hs.into_iter().map(|(i, h)| (i, h.join().unwrap_or_else(|_| viol("panic", format!("node {i} panicked: {}", last_panic()))))).collect()
            })
        } else { work.drain(..).map(|(i, n, d)| (i, handle(n, d))).collect() };
        for (node, o) in outs {
            for o in o? {
                match o {
                    Out::Timer(d, boot) => { q.push(QE { at: now + d, seq, node, ev: Ev::Timer(now, boot) }); seq += 1; }
                    Out::Crash(d) => {
                        let boot = match &mut nodes[node] { Node::P(p) => { p.boot += 1; p.boot } Node::V(v) => { v.boot += 1; v.boot } _ => 0 };
                        q.push(QE { at: now, seq, node, ev: Ev::Down });
                        q.push(QE { at: now + d, seq: seq + 1, node, ev: Ev::Boot(boot) });
                        seq += 2;
                    }
                    Out::Send(m) => {
                        let n = sent;
                        sent += 1;
                        let mut deliveries = vec![(m.clone(), 1 + rng.below(b.jitter + 1))];
                        for f in b.faults.iter().filter(|f| f.n == n) {
                            let k = f.kind as usize % 9;
                            let before = deliveries.len();
                            let mut hit = true;
                            match k {
                                0 => deliveries.clear(),
                                1 => deliveries.push((m.clone(), 1 + f.a % 300)),
                                2 => for d in deliveries.iter_mut() { d.1 += f.a % 2000; },
                                7 => match old.get(f.a as usize % old.len().max(1)) { Some(o) => deliveries.push((o.clone(), 1 + f.b % 100)), None => hit = false },
                                _ => { let mut any = false; for d in deliveries.iter_mut() { any |= alter::<E>(&mut d.0, k, f, &old, np, nv); } hit = any; }
                            }
                            if hit && before > 0 { count(&format!("fault.{}", FK[k])); log(format!("message {n} {}->{}: {}", m.src, m.dst, FK[k])); }
                        }
                        if old.len() < 200 { old.push(m.clone()); }
                        for (m, d) in deliveries { q.push(QE { at: now + d, seq, node: m.dst.min(nodes.len() - 1), ev: Ev::Deliver(m) }); seq += 1; }
                    }
                }
            }
        }
    }
    for n in &nodes {
        if let Node::P(p) = n { if p.acked.len() < p.plan.order.len() * nv { env.v("liveness", format!("prover {}: only {} of {} proofs were ever acknowledged", p.id, p.acked.len(), p.plan.order.len() * nv))?; } else if !p.plan.order.is_empty() { nontrivial(); } }
    }
    log(format!("finished at {now} ms after {events} events, {sent} messages"));
    count_n("messages", sent);
    count_n("events", events);
    Ok(())
}

/// Alter a message in transit; true if it is no longer what was sent.
fn alter<E: Eng>(m: &mut Msg, kind: usize, f: &Fault, old: &[Msg], np: usize, nv: usize) -> bool {
    match &mut m.b {
        Body1::Crs(b, _) => { if b.is_empty() { return false; } let i = f.a as usize % b.len(); if kind == 4 { b.truncate(i); } else { b[i] ^= 1 << (f.b % 8); } true }
        Body1::Proof { prover, k, xc, yc, pf, pristine } => {
            let field: &mut Vec<u8> = match f.b % 3 { 0 => xc, 1 => yc, _ => pf };
            let donors: Vec<&Body1> = old.iter().map(|o| &o.b).filter(|o| matches!(o, Body1::Proof { prover: p2, k: k2, .. } if (p2, k2) != (prover, k))).collect();
            match kind {
                3 => {
                    // bits of length prefixes are left alone here: hostile lengths are C10's subject
                    let pre = prefixes::<E>(field, [0, 1, 2][(f.b % 3) as usize]);
                    let free: Vec<usize> = (0..field.len()).filter(|i| !pre.iter().any(|p| (*p..p + 8).contains(i))).collect();
                    if free.is_empty() { return false; }
                    let i = free[f.a as usize % free.len()];
                    field[i] ^= 1 << (f.a / 65536 % 8);
                    *pristine = false;
                }
                4 => { let i = f.a as usize % (field.len() + 1); if i == field.len() { return false; } field.truncate(i); *pristine = false; }
                5 => { m.dst = 1 + np + f.a as usize % nv; return true; }
                6 | 8 => {
                    let Some(Body1::Proof { xc: x2, yc: y2, pf: p2, k: k2, .. }) = donors.get(f.a as usize % donors.len().max(1)).copied() else { return false };
                    if kind == 6 { let d = match f.b % 3 { 0 => x2, 1 => y2, _ => p2 }; if d == field { return false; } *field = d.clone(); } else { if f.b % 2 == 0 { *pf = p2.clone(); *xc = x2.clone(); *yc = y2.clone(); } else { *k = *k2; } }
                    *pristine = false;
                }
                _ => return false,
            }
            true
        }
        Body1::Ack { verdict, .. } => if kind == 3 { // an acknowledgement lost to corruption
            if *verdict { *verdict = false; true } else { false } } else { false },
        Body1::CrsReq => false,
    }
}
/// Offsets of the length prefixes in an encoded Commit1 (0), Commit2 (1) or EquProof (2).
pub fn prefixes<E: Eng>(b: &[u8], what: u64) -> Vec<usize> {
    use ark_serialize::CanonicalSerialize;
    let s1 = 2 * A1::<E>::default().serialized_size(Compress::Yes);
    let s2 = 2 * A2::<E>::default().serialized_size(Compress::Yes);
    let sf = F::<E>::from(0u64).serialized_size(Compress::Yes);
    let mut out = vec![];
    let mut at = 0usize;
    let mut len = |at: &mut usize| -> usize {
        out.push(*at);
        let mut w = [0u8; 8];
        let k = b.len().saturating_sub(*at).min(8);
        if k > 0 { w[..k].copy_from_slice(&b[*at..*at + k]); }
        *at += 8;
        (u64::from_le_bytes(w) as usize).min(b.len())
    };
    match what { 0 => { let n = len(&mut at); at += n * s1; } 1 => { let n = len(&mut at); at += n * s2; } _ => { let n = len(&mut at); at += n * s2; let n = len(&mut at); at += n * s1 + 1; } }
    let rows = len(&mut at);
    for _ in 0..rows { if at >= b.len() { break; } let n = len(&mut at); at += n * sf; }
    out
}
