//! One library call compared with itself: the result of every call made in a simulated process -
//! after other calls, next to concurrent ones, under any schedule and pool size, on objects
//! modified in place at the same address, after failed attempts - must be, byte for byte, the
//! result of the same call in a fresh sequential process (a forked child that makes only that
//! call). Serves schedule independence, isolation and failure atomicity.
use super::honest::join_all;
use super::*;
use ark_ff::Zero;
use ark_serialize::Compress;
use groth_sahai::prover::*;
use groth_sahai::*;
use rayon::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Mutex;

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct MatP { pub elem: u64, pub side: u64, pub par: u64, pub r: u64, pub k: u64, pub c: u64, pub style: u64, pub seed: u64, pub ragged: u64 }
/// kind 0 none, 1 coins run out at a draw, 2 wrong arguments, 3 stream error
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct FailP { pub kind: u64, pub at: u64, pub how: u64 }
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct CallP { pub op: u64, pub inst: InstP, pub idx: u64, pub mat: MatP, pub fails: Vec<FailP>,
    /// not 0: the commitments used are made one by one, each in one of four versions (two bits per variable)
    pub mix: u64 }
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Body { pub calls: Vec<CallP>, pub stages: Vec<Vec<u64>>, pub in_place: bool, pub callers: u64, pub env: u64,
    /// other business of the process before each stage: this many calls with other arguments
    pub churn: u64,
    /// the last call once more, this many times
    pub rep: u64 }

pub const OPS: [&str; 12] = ["commit_x", "commit_y", "commit_x_single", "commit_y_single", "commit_and_prove", "prove", "verify", "verify_altered", "generate_crs", "matrix_product", "append", "encode_decode"];
pub enum Mix { Schedules, Histories, Failures }

fn mat_gen(p: &mut Prng, bls: bool, big: bool) -> MatP {
    let d = |p: &mut Prng| if bls { p.range(1, 3) } else if big && p.chance(1, 80) { *p.pick(&[127, 128, 129, 255, 256, 257, 400, 511, 513, 1025]) } else { match p.below(if big { 12 } else { 8 }) { 0..=4 => p.range(1, 4), 5..=7 => p.range(1, 10), 8..=9 => p.range(8, 24), 10 => *p.pick(&[31, 32, 33, 63, 64, 65]), _ => p.range(20, 70) } };
    let (mut r, mut k, mut c) = (d(p), d(p), d(p));
    while r * k * c > 40_000 { if r >= k && r >= c { r /= 2 } else if k >= c { k /= 2 } else { c /= 2 } }
    if p.chance(1, 20) { match p.below(3) { 0 => r = 0, 1 => k = 0, _ => c = 0 } }
    MatP { elem: p.below(3), side: p.below(2), par: if p.chance(3, 4) { 1 } else { 0 }, r, k, c, style: p.below(5), seed: p.next() >> 16, ragged: if p.chance(1, 6) { 1 + p.below(40) } else { 0 } }
}
pub fn gen(p: &mut Prng, mix: Mix, bigd: u64) -> (&'static str, &'static str, Value) {
    let bls = p.chance(1, 14);
    let n = if bls { p.range(1, 3) } else { p.range(2, 8) };
    let mut b = Body { env: p.below(8) + 8 * p.below(1 << 20), callers: p.below(4), in_place: p.chance(1, 2), ..Default::default() };
    for k in 0..n {
        let hid = p.chance(1, 5);
        let mut c = if k > 0 && p.chance(3, 5) && !matches!(mix, Mix::Schedules) {
            // almost the same call again
            let mut c: CallP = p.pick(&b.calls.clone()).clone();
            c.fails.clear();
            let bump = |p: &mut Prng, v: &mut Vec<u64>| if !v.is_empty() { let i = p.below(v.len() as u64) as usize; let s = p.below(4); v[i] = gen_spec(p, s); };
            match p.below(17) {
                0 => c.inst.coins = p.next() >> 16,
                1 | 12 => match p.below(4) {
                    0 => c.inst.crs = CrsPlan::gen(p, hid),
                    1 if c.inst.crs.kind > 0 => c.inst.crs.kind = 3 - c.inst.crs.kind,
                    _ => c.inst.crs.alter = if c.inst.crs.alter == 0 { 1 + p.below(1 << 20) } else { 0 },
                },
                2 => bump(p, &mut c.inst.x),
                3 => bump(p, &mut c.inst.y),
                4 => bump(p, &mut c.inst.eq.a),
                5 => bump(p, &mut c.inst.eq.b),
                6 => if !c.inst.eq.g.is_empty() { let i = p.below(c.inst.eq.g.len() as u64) as usize; let mut r = c.inst.eq.g[i].clone(); bump(p, &mut r); c.inst.eq.g[i] = r; },
                7 => c.inst.eq.kind = p.below(4),
                8 => c.op = p.below(12),
                9 => c.inst.eq.toff = if c.inst.eq.toff == 0 { 2 } else { 0 },
                10 => { if p.chance(1, 2) { let s = gen_spec(p, 0); c.inst.x.push(s); c.inst.eq.b.push(2); c.inst.eq.g.push(vec![]); } else { c.inst.x.pop(); } }
                11 | 14 | 15 => if c.mix == 0 { c.mix = 1 } else { for _ in 0..p.range(1, 3) { c.mix ^= p.range(1, 3) << (2 * p.below(1 + c.inst.x.len().max(c.inst.y.len()).min(30) as u64)); } }
                _ => {}
            }
            c
        } else {
            let op = match mix { Mix::Schedules => p.weighted(&[3, 3, 0, 0, 5, 4, 5, 2, 1, 8, 0, 0]), Mix::Histories => p.weighted(&[3, 3, 1, 1, 5, 5, 5, 3, 3, 2, 1, 1]), Mix::Failures => p.weighted(&[4, 4, 2, 2, 5, 5, 1, 1, 4, 3, 5, 4]) } as u64;
            CallP { op, inst: InstP::gen(p, !bls, bigd, hid), idx: p.below(8), mat: mat_gen(p, bls, bigd > 0), fails: vec![], mix: if p.chance(1, 3) { p.next() | 1 } else { 0 } }
        };
        if matches!(mix, Mix::Failures) && p.chance(2, 3) {
            for _ in 0..p.range(1, 3) {
                let kind = match c.op { 8 | 2 | 3 => 1, 9 | 10 => 2, 11 => 3, 6 | 7 => 0, _ => p.range(1, 2) };
                c.fails.push(FailP { kind, at: p.next() >> 40, how: p.below(40) });
            }
        }
        b.calls.push(c);
    }
    // who runs next to whom
    let mut left: Vec<u64> = (0..n).collect();
    match mix {
        Mix::Schedules => { if p.chance(1, 2) { left.extend(0..n); } }
        _ => { for _ in 0..p.below(3) { left.push(p.below(n)); } }
    }
    if p.chance(1, 2) { for i in (1..left.len()).rev() { let j = p.below(i as u64 + 1) as usize; left.swap(i, j); } }
    while !left.is_empty() {
        let w = match mix { Mix::Schedules => p.range(1, 5), _ => if p.chance(1, 2) { 1 } else { p.range(1, 4) } }.min(left.len() as u64) as usize;
        b.stages.push(left.drain(..w).collect());
    }
    if !bls && !matches!(mix, Mix::Schedules) && p.chance(1, 25) {
        b.churn = *p.pick(&[20, 70, 150, 300]);
        b.stages.truncate(4);
        b.stages.push((0..n).collect::<Vec<_>>()[..1].to_vec());
    }
    if !bls { b.rep = row(p, 16); }
    ("calls", if bls { "bls" } else { "toy" }, js(&b))
}

// ------------------------------------------------------------------ arguments of one call
pub struct Prep<E: Eng> { pub i: Inst<E>, pub xc: Option<Commit1<E>>, pub yc: Option<Commit2<E>>, pub pf: Option<CProof<E>> }
/// The coins supplied to a call: an honest prover's may be degenerate, an authority's are not.
fn coins_of(c: &CallP) -> Coins { if c.op % 12 == 8 { Coins::new(c.inst.coins) } else { Coins::prover(c.inst.coins) } }
fn needs(op: u64) -> (bool, bool) { (matches!(op, 5 | 10), matches!(op, 6 | 7 | 11)) }
fn prepare<E: Eng>(c: &CallP) -> Prep<E> {
    let i = c.inst.inst::<E>();
    let mut cc = Coins::new(mix64(c.inst.coins ^ 0x5151));
    cc.yields = true;
    let (com, prf) = needs(c.op);
    let (mut xc, mut yc, mut pf) = (None, None, None);
    let (x1, y1);
    if c.mix != 0 && (com || prf) {
        // lists of commitments that calls share in part
        let ver = |k: usize, side: u64| { let mut cc = Coins::new(mix64(c.inst.coins ^ 0x5151 ^ side ^ ((k as u64) << 20) ^ ((c.mix >> (2 * k.min(31)) & 3) << 40))); cc.yields = true; cc };
        let (mut a, mut b) = (i.xv.commit_one(0, &i.key.crs, &mut ver(0, 0)), i.yv.commit_one(0, &i.key.crs, &mut ver(0, 7)));
        for k in 1..i.xv.len() { a.append(&mut i.xv.commit_one(k, &i.key.crs, &mut ver(k, 0))); }
        for k in 1..i.yv.len() { b.append(&mut i.yv.commit_one(k, &i.key.crs, &mut ver(k, 7))); }
        count("lists_shared_in_part");
        (x1, y1) = (Some(a), Some(b));
    } else { (x1, y1) = (None, None); }
    if com {
        xc = Some(match &x1 { Some(a) => a.clone(), None => i.xv.commit(&i.key.crs, &mut cc) });
        yc = Some(match &y1 { Some(a) => a.clone(), None => i.yv.commit(&i.key.crs, &mut cc) });
    }
    if prf {
        let mut p = match (x1, y1) {
            (Some(a), Some(b)) => { let pf = i.eq.prove(&i.xv, &i.yv, &a, &b, &i.key.crs, &mut cc); CProof { xcoms: a, ycoms: b, equ_proofs: vec![pf] } }
            _ => i.eq.commit_and_prove(&i.xv, &i.yv, &i.key.crs, &mut cc),
        };
        if c.op == 7 { match c.idx % 4 { 0 => { let k = p.xcoms.coms.len(); p.xcoms.coms[c.idx as usize / 4 % k].1 = E::g1(&sc(c.inst.coins)) } 1 => { let k = p.ycoms.coms.len(); p.ycoms.coms[c.idx as usize / 4 % k].0 = E::g2(&sc(c.inst.coins)) } 2 => p.equ_proofs[0].pi[0].1 = E::g2(&sc(c.inst.coins)), _ => p.equ_proofs[0].theta[0].0 = E::g1(&sc(c.inst.coins)) } }
        pf = Some(p);
    }
    Prep { i, xc, yc, pf }
}
impl<E: Eng> Prep<E> {
    /// Everything the call can see, as bytes.
    fn bytes(&self) -> Vec<u8> {
        let mut v = serc(&self.i.key.crs);
        match &self.i.xv { XV::G(x) => v.extend(serc(x)), XV::S(x) => v.extend(serc(x)) }
        match &self.i.yv { YV::G(x) => v.extend(serc(x)), YV::S(x) => v.extend(serc(x)) }
        v.extend(self.i.eq.ser(Compress::Yes));
        if let Some(x) = &self.xc { v.extend(serc(x)); }
        if let Some(x) = &self.yc { v.extend(serc(x)); }
        if let Some(x) = &self.pf { v.extend(cproof_bytes(x)); }
        v
    }
    /// Become `o`, reusing the memory of the vectors already there (same addresses, new contents).
    fn become_(&mut self, o: Prep<E>) {
        fn v<T: Clone>(d: &mut Vec<T>, s: Vec<T>) { if d.len() == s.len() { d.clone_from_slice(&s) } else { *d = s } }
        fn m<T: Clone>(d: &mut Vec<Vec<T>>, s: Vec<Vec<T>>) { if d.len() == s.len() { for (a, b) in d.iter_mut().zip(s) { v(a, b) } } else { *d = s } }
        let i = o.i;
        v(&mut self.i.key.crs.u, i.key.crs.u);
        v(&mut self.i.key.crs.v, i.key.crs.v);
        self.i.key.crs.g1_gen = i.key.crs.g1_gen;
        self.i.key.crs.g2_gen = i.key.crs.g2_gen;
        self.i.key.crs.gt_gen = i.key.crs.gt_gen;
        self.i.key.td = i.key.td;
        self.i.key.binding = i.key.binding;
        match (&mut self.i.xv, i.xv) { (XV::G(a), XV::G(b)) => v(a, b), (XV::S(a), XV::S(b)) => v(a, b), (a, b) => *a = b }
        match (&mut self.i.yv, i.yv) { (YV::G(a), YV::G(b)) => v(a, b), (YV::S(a), YV::S(b)) => v(a, b), (a, b) => *a = b }
        macro_rules! eq { ($a:expr, $b:expr) => {{ v(&mut $a.a_consts, $b.a_consts); v(&mut $a.b_consts, $b.b_consts); m(&mut $a.gamma, $b.gamma); $a.target = $b.target; }} }
        match (&mut self.i.eq, i.eq) { (Eqn::P(a), Eqn::P(b)) => eq!(a, b), (Eqn::M1(a), Eqn::M1(b)) => eq!(a, b), (Eqn::M2(a), Eqn::M2(b)) => eq!(a, b), (Eqn::Q(a), Eqn::Q(b)) => eq!(a, b), (a, b) => *a = b }
        self.i.x = i.x; self.i.y = i.y; self.i.d = i.d; self.i.coins = i.coins;
        match (&mut self.pf, o.pf) {
            (Some(a), Some(b)) => {
                v(&mut a.xcoms.coms, b.xcoms.coms.clone());
                v(&mut a.ycoms.coms, b.ycoms.coms.clone());
                if a.xcoms != b.xcoms { a.xcoms = b.xcoms; }
                if a.ycoms != b.ycoms { a.ycoms = b.ycoms; }
                if a.equ_proofs.len() == b.equ_proofs.len() { for (x, y) in a.equ_proofs.iter_mut().zip(b.equ_proofs) { v(&mut x.pi, y.pi.clone()); v(&mut x.theta, y.theta.clone()); if *x != y { *x = y; } } } else { a.equ_proofs = b.equ_proofs }
            }
            (a, b) => *a = b,
        }
        match (&mut self.xc, o.xc) { (Some(a), Some(b)) => { v(&mut a.coms, b.coms.clone()); if *a != b { *a = b; } } (a, b) => *a = b }
        match (&mut self.yc, o.yc) { (Some(a), Some(b)) => { v(&mut a.coms, b.coms.clone()); if *a != b { *a = b; } } (a, b) => *a = b }
    }
    fn call(&self, c: &CallP, coins: &mut Coins, par: bool) -> Vec<u8> {
        let (i, k) = (&self.i, &self.i.key.crs);
        let mut out = match c.op % 12 {
            0 => serc(&i.xv.commit(k, coins)),
            1 => serc(&i.yv.commit(k, coins)),
            2 => serc(&i.xv.commit_one(c.idx as usize % i.xv.len(), k, coins)),
            3 => serc(&i.yv.commit_one(c.idx as usize % i.yv.len(), k, coins)),
            4 => cproof_bytes(&i.eq.commit_and_prove(&i.xv, &i.yv, k, coins)),
            5 => serc(&i.eq.prove(&i.xv, &i.yv, self.xc.as_ref().unwrap(), self.yc.as_ref().unwrap(), k, coins)),
            6 | 7 => vec![i.eq.verify(self.pf.as_ref().unwrap(), k) as u8],
            8 => serc(&CRS::<E>::generate_crs(coins)),
            9 => product::<E>(&c.mat, par),
            10 => {
                let (mut a, mut b) = (self.xc.clone().unwrap(), i.xv.commit_one(c.idx as usize % i.xv.len(), k, coins));
                a.append(&mut b);
                let (mut e, mut f) = (self.yc.clone().unwrap(), i.yv.commit_one(c.idx as usize % i.yv.len(), k, coins));
                e.append(&mut f);
                [serc(&a), serc(&e)].concat()
            }
            _ => {
                let p = self.pf.as_ref().unwrap();
                let (a, b) = (ser(&p.xcoms, comp(c.idx & 1 == 0)), ser(&p.equ_proofs[0], comp(c.idx & 1 == 0)));
                let (x, q): (Commit1<E>, EquProof<E>) = (de(&a, comp(c.idx & 1 == 0)).unwrap(), de(&b, comp(c.idx & 1 == 0)).unwrap());
                [a, b, serc(&x), serc(&q)].concat()
            }
        };
        out.extend(coins.state().to_le_bytes());
        out.extend(coins.draws.to_le_bytes());
        out
    }
}

// ------------------------------------------------------------------ matrices
fn fmat<E: Eng>(p: &mut Prng, r: u64, c: u64, style: u64) -> Matrix<F<E>> { (0..r).map(|_| (0..c).map(|_| sc::<F<E>>(gen_spec(p, style))).collect()).collect() }
/// The product asked for, by the library (parallel or sequential as told).
fn product<E: Eng>(m: &MatP, par: bool) -> Vec<u8> { product_outcome::<E>(m, par).unwrap_or_else(|_| b"panicked".to_vec()) }
fn operands<E: Eng>(m: &MatP) -> (Matrix<F<E>>, Matrix<F<E>>) {
    let mut p = Prng::new(m.seed);
    let (mut a, mut b) = (fmat::<E>(&mut p, m.r, m.k, m.style), fmat::<E>(&mut p, m.k, m.c, m.style));
    if m.ragged > 0 {
        let t = if m.ragged & 1 == 0 { &mut a } else { &mut b };
        if !t.is_empty() {
            let i = (m.ragged as usize / 4) % t.len();
            match m.ragged / 2 % 4 { 0 => { t[i].pop(); } 1 => { let z = F::<E>::zero(); t[i].push(z) } 2 => { t.pop(); } _ => { let r = t[i].clone(); t.push(r) } }
        }
    }
    (a, b)
}
fn product_outcome<E: Eng>(m: &MatP, par: bool) -> Result<Vec<u8>, Caught> {
    let (a, b) = operands::<E>(m);
    let e1 = |z: &F<E>| Com1::<E>(E::g1(z), E::g1(&(*z + z)));
    let e2 = |z: &F<E>| Com2::<E>(E::g2(&-*z), E::g2(z));
    macro_rules! run { ($conv:expr) => {{
        if m.side % 2 == 0 { let s: Matrix<_> = b.iter().map(|r| r.iter().map($conv).collect::<Vec<_>>()).collect(); let before = s.clone(); let r = catch(|| s.left_mul(&a, par))?; if before != s { return Ok(b"operand changed".to_vec()); } serc(&r) }
        else { let s: Matrix<_> = a.iter().map(|r| r.iter().map($conv).collect::<Vec<_>>()).collect(); let before = s.clone(); let r = catch(|| s.right_mul(&b, par))?; if before != s { return Ok(b"operand changed".to_vec()); } serc(&r) }
    }} }
    Ok(match m.elem % 3 { 0 => run!(|z| *z), 1 => run!(e1), _ => run!(e2) })
}
/// The same product by definition (well-shaped operands only).
fn naive<E: Eng>(m: &MatP) -> Option<Vec<u8>> {
    if m.ragged > 0 || m.r == 0 || m.k == 0 || m.c == 0 { return None; }
    let (a, b) = operands::<E>(m);
    let d: Matrix<F<E>> = (0..m.r as usize).map(|i| (0..m.c as usize).map(|j| (0..m.k as usize).map(|q| a[i][q] * b[q][j]).sum()).collect()).collect();
    Some(match m.elem % 3 {
        0 => serc(&d),
        1 => serc(&d.iter().map(|r| r.iter().map(|z| Com1::<E>(E::g1(z), E::g1(&(*z + z)))).collect::<Vec<_>>()).collect::<Vec<_>>()),
        _ => serc(&d.iter().map(|r| r.iter().map(|z| Com2::<E>(E::g2(&-*z), E::g2(z))).collect::<Vec<_>>()).collect::<Vec<_>>()),
    })
}

// ------------------------------------------------------------------ failures
/// Attempt the call so that it fails; nothing may remain of the attempt.
fn attempt<E: Eng>(k: usize, p: &Prep<E>, c: &CallP, f: &FailP, draws: u64, v: &dyn Fn(&str, String) -> Res) -> Res {
    let i = &p.i;
    let crs = &i.key.crs;
    let before = p.bytes();
    let mut coins = coins_of(c);
    let mut failed = true;
    match f.kind {
        1 => {
            if draws == 0 { return Ok(()); }
            coins.fail_at = Some(f.at % draws);
            match catch(|| p.call(c, &mut coins, true)) { Err(Caught::Injected) => count("fault.entropy_source_failed"), Err(Caught::Panic(m)) => return v("panic", format!("call {k}: {m}")), Ok(_) => failed = false }
        }
        3 => {
            let Some(pf) = &p.pf else { return Ok(()) };
            let cm = comp(f.how & 1 == 0);
            let full = ser(&pf.xcoms, cm);
            let io = IoPlan { chunks: vec![1 + f.how % 7], fail_at: Some(f.at % full.len() as u64), kind: f.how % 10 };
            use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
            let mut w = FWrite::new(&io);
            if pf.xcoms.serialize_with_mode(&mut w, cm).is_ok() { return v("error-swallowed", format!("call {k}: encoding into a failing stream reported success")); }
            if Commit1::<E>::deserialize_with_mode(FRead::new(&full, &io), cm, ark_serialize::Validate::Yes).is_ok() { return v("error-swallowed", format!("call {k}: decoding from a failing stream reported success")); }
            count("fault.stream_failed");
        }
        _ => match c.op % 12 {
            9 => {
                let mut m = c.mat.clone();
                m.ragged = 1 + f.at % 40;
                let (r1, r2) = (product_outcome::<E>(&m, true), product_outcome::<E>(&m, false));
                failed = r1.is_err();
                if failed { count("fault.worker_panic"); }
                if let (Ok(a), Ok(b)) = (r1, r2) { if a != b { return v("parallel-differs", format!("call {k}: products differ for {:?}", m)); } }
            }
            10 => {
                // an inconsistent list on one of the two sides
                let (mut a, mut b) = (p.xc.clone().unwrap(), p.xc.clone().unwrap());
                let (mut e, mut g) = (p.yc.clone().unwrap(), p.yc.clone().unwrap());
                let n = 1 + (f.at as usize % 3);
                for _ in 0..n { match f.how % 4 { 0 => { a.coms.pop(); } 1 => { b.coms.pop(); } 2 => { let x = a.coms.first().copied(); a.coms.extend(x); } _ => { let x = b.coms.first().copied(); b.coms.extend(x); } } }
                for _ in 0..n { match f.how % 4 { 0 => { e.coms.pop(); } 1 => { g.coms.pop(); } 2 => { let x = e.coms.first().copied(); e.coms.extend(x); } _ => { let x = g.coms.first().copied(); g.coms.extend(x); } } }
                let (a0, b0, e0, g0) = (a.clone(), b.clone(), e.clone(), g.clone());
                let (r, s) = (catch(|| a.append(&mut b)).is_err(), catch(|| e.append(&mut g)).is_err());
                failed = r || s;
                if failed { count("fault.append_refused"); }
                if r && (a != a0 || b != b0) { return v("partial-append", format!("call {k}: a refused append altered one of the lists (G1 side, lengths {}+{} before, {}+{} after)", a0.coms.len(), b0.coms.len(), a.coms.len(), b.coms.len())); }
                if s && (e != e0 || g != g0) { return v("partial-append", format!("call {k}: a refused append altered one of the lists (G2 side, lengths {}+{} before, {}+{} after)", e0.coms.len(), g0.coms.len(), e.coms.len(), g.coms.len())); }
            }
            4 | 5 => {
                // wrong numbers of values, mis-shaped statements, commitments of the wrong kind
                let (mut xv, mut yv, mut eq) = (i.xv.clone(), i.yv.clone(), i.eq.clone());
                let mut cc = Coins::new(i.coins ^ 5);
                let (mut xc, mut yc) = (i.xv.commit(crs, &mut cc), i.yv.commit(crs, &mut cc));
                match f.how % 6 {
                    0 => xv = xv.sub(&(0..xv.len() - 1).collect::<Vec<_>>()),
                    1 => yv = yv.sub(&(0..yv.len() - 1).collect::<Vec<_>>()),
                    2 => { let l = eq.gamma().len(); let r = f.at as usize % l; eq.gamma_mut()[r].pop(); }
                    3 => { let mut o = xc.clone(); xc.append(&mut o); }
                    4 => { let mut o = yc.clone(); yc.append(&mut o); }
                    _ => if f.at & 1 == 0 { xc = XV::<E>::new(if i.d.kind < 2 { 3 } else { 0 }, &i.x).commit(crs, &mut cc) } else { yc = YV::<E>::new(if i.d.kind % 2 == 0 { 3 } else { 0 }, &i.y).commit(crs, &mut cc) },
                }
                let (xc0, yc0, eq0) = (xc.clone(), yc.clone(), eq.clone());
                let r = catch(|| eq.prove(&xv, &yv, &xc, &yc, crs, &mut coins));
                failed = r.is_err();
                if failed { count("fault.arguments_refused"); }
                if xc0 != xc || yc0 != yc || eq0 != eq { return v("inputs-changed", format!("call {k}: a refused proof altered its inputs")); }
            }
            _ => {
                let bad: Vec<usize> = (0..2).collect();
                let _ = bad;
                return Ok(());
            }
        },
    }
    if failed { log(format!("call {k} ({}) fails as told", OPS[c.op as usize % 12])); }
    if p.bytes() != before { return v("inputs-changed", format!("call {k} ({}): its inputs changed by a failed attempt", OPS[c.op as usize % 12])); }
    Ok(())
}

pub fn exec<E: Eng>(plan: &Value) -> Res {
    let mut b: Body = serde_json::from_value(plan["body"].clone()).unwrap();
    let known = b.calls.len();
    if b.rep > 0 {
        // a verifier who has seen the same message many times sees another one
        for k in 0..known { if matches!(b.calls[k].op % 12, 6 | 7) { let mut c = b.calls[k].clone(); c.op = 13 - c.op % 12; c.fails.clear(); b.calls.push(c); } }
    }
    let b = b;
    let prop = plan["prop"].as_str().unwrap_or("").to_string();
    let v = |class: &str, msg: String| -> Res {
        let own = match prop.as_str() { "C04" => ["result-differs", "parallel-differs", "wrong-product", "panic"].contains(&class), "C05" => ["result-differs", "inputs-changed", "panic"].contains(&class), _ => true };
        if own { viol(class, msg) } else { log(format!("other: {class}: {msg}")); count(&format!("other.{class}")); Ok(()) }
    };
    // the same calls, each alone in a fresh sequential process
    let mut gold: Vec<Vec<u8>> = vec![];
    for (k, c) in b.calls.iter().enumerate() {
        match in_fresh_process(&Sched::sequential(), || { let p = prepare::<E>(c); let mut coins = coins_of(c); p.call(c, &mut coins, false) }) {
            Ok(g) => gold.push(g),
            Err(e) => return v("panic", format!("call {k} ({}) in a fresh process: {e}", OPS[c.op as usize % 12])),
        }
    }
    if b.calls.is_empty() { return Ok(()); }
    for (k, x) in [("DETERMINISTIC_TEST_RNG", 1), ("RUST_LOG", 2), ("GS_SEED", 4)] { if b.env & x != 0 { std::env::set_var(k, "1"); } else { std::env::remove_var(k); } }
    begin(plan);
    simos::set_world(b.env);
    if b.env > 0 { count("fault.other_surroundings"); }
    sample(json!({"engine": E::NAME, "calls": b.calls.iter().map(|c| json!([OPS[c.op as usize % 12], KINDS[c.inst.eq.kind as usize % 4], c.inst.x.len(), c.inst.y.len(), c.fails.len()])).collect::<Vec<_>>(), "stages": b.stages, "in_place": b.in_place}));
    nontrivial();
    let check = |k: usize, p: &Prep<E>| -> Res {
        let c = &b.calls[k];
        let g = &gold[k];
        let name = OPS[c.op as usize % 12];
        let draws = u64::from_le_bytes(g[g.len() - 8..].try_into().unwrap());
        for f in &c.fails { attempt(k, p, c, f, draws, &v)?; }
        let before = p.bytes();
        let mut coins = coins_of(c);
        let r = match catch(|| p.call(c, &mut coins, c.mat.par == 1)) { Ok(r) => r, Err(Caught::Panic(m)) => return v("panic", format!("call {k} ({name}): {m}")), Err(_) => unreachable!() };
        log(format!("call {k} {name}: {:016x}", fnv(FNV0, &r)));
        count(&format!("call.{name}"));
        if p.bytes() != before { v("inputs-changed", format!("call {k} ({name}) changed its inputs"))?; }
        // what is no pair of matrices may be refused by one form and not by the other
        let misshapen = c.op % 12 == 9 && c.mat.ragged > 0 && (r.starts_with(b"panicked") || g.starts_with(b"panicked"));
        if &r != g && !misshapen {
            let (n, s) = (r.len().min(g.len()).saturating_sub(16), g.len().saturating_sub(16));
            let what = if r.len() == g.len() && r[..n] == g[..s] { "consumes other randomness" } else { "returns another result" };
            v("result-differs", format!("call {k} ({name}, {} {}x{}) {what} here than in a fresh sequential process", KINDS[p.i.d.kind as usize], p.i.x.len(), p.i.y.len()))?;
        }
        if c.op % 12 == 9 { if let Some(n) = naive::<E>(&c.mat) { count("probe.product_by_definition"); if r[..r.len() - 16] != n[..] { v("wrong-product", format!("call {k}: {:?} is not the product by definition", c.mat))?; } } }
        Ok(())
    };
    let mut slot: Option<Box<Prep<E>>> = None;
    for (q, st) in b.stages.iter().enumerate() {
        let mut p = Prng::new(plan["body"]["calls"][0]["inst"]["coins"].as_u64().unwrap_or(0) ^ q as u64);
        for _ in 0..b.churn {
            // unrelated calls by other parties of a long-lived process
            let hid = p.chance(1, 4);
            let c = CallP { op: *p.pick(&[0, 1, 2, 3, 4, 6, 7, 7, 8, 10]), inst: InstP::gen(&mut p, false, 0, hid), idx: p.below(8), ..Default::default() };
            let mut coins = coins_of(&c);
            if let Err(Caught::Panic(m)) = catch(|| prepare::<E>(&c).call(&c, &mut coins, true)) { return v("panic", format!("an unrelated call ({}): {m}", OPS[c.op as usize])); }
            count("calls_of_a_long_history");
        }
        let ks: Vec<usize> = st.iter().map(|k| *k as usize % known).collect();
        if ks.len() == 1 {
            let p = prepare::<E>(&b.calls[ks[0]]);
            if b.in_place {
                match &mut slot { Some(s) => { s.become_(p); count("probe.modified_in_place"); } None => slot = Some(Box::new(p)) }
                check(ks[0], slot.as_ref().unwrap())?;
            } else { check(ks[0], &p)?; }
            continue;
        }
        count("concurrent_stages");
        match b.callers % 4 {
            0 => std::thread::scope(|sc| { let check = &check; let h: Vec<_> = ks.iter().map(|k| { let (k, b) = (*k, &b); sc.spawn(move || check(k, &prepare::<E>(&b.calls[k]))) }).collect(); join_all(h) })?,
            1 => { let preps: Vec<(usize, Prep<E>)> = ks.iter().map(|k| (*k, prepare::<E>(&b.calls[*k]))).collect(); preps.par_iter().map(|(k, p)| check(*k, p)).collect::<Vec<_>>().into_iter().collect::<Res>()? }
            2 => {
                let pool = rayon::ThreadPoolBuilder::new().num_threads(1 + ks.len() % 3).build().unwrap();
                let r = pool.install(|| ks.par_iter().map(|k| check(*k, &prepare::<E>(&b.calls[*k]))).collect::<Vec<_>>());
                drop(pool);
                r.into_iter().collect::<Res>()?
            }
            _ => {
                // one shared set of arguments used by several callers at once
                let p = prepare::<E>(&b.calls[ks[0]]);
                let busy = Mutex::new(0u64);
                count("probe.shared_arguments");
                std::thread::scope(|sc| { let (check, p, busy) = (&check, &p, &busy); let k = ks[0]; let h: Vec<_> = ks.iter().map(|_| sc.spawn(move || { *busy.lock().unwrap() += 1; check(k, p) })).collect(); join_all(h) })?
            }
        }
    }
    if b.rep > 0 {
        // again and again in the same process, by one caller or by several
        let mut k = b.stages.last().and_then(|s| s.last()).copied().unwrap_or(0) as usize % known;
        let size = |k: usize| { let i = &b.calls[k].inst; i.x.len() * i.y.len() + (b.calls[k].mat.r * b.calls[k].mat.k * b.calls[k].mat.c / 8) as usize };
        for q in 0..known { if size(k) > 60 { k = q; } }
        if size(k) > 60 { return Ok(()); }
        let row = |k: usize| -> Res {
            let p = prepare::<E>(&b.calls[k]);
            let rep = if size(k) > 12 || !b.calls[k].fails.is_empty() { b.rep.min(300) } else { b.rep.min(ROW) };
            let one = |n: u64| -> Res { for _ in 0..n { check(k, &p)?; count("calls_repeated"); } Ok(()) };
            if b.callers & 1 == 0 { one(rep) } else { std::thread::scope(|sc| { let h: Vec<_> = (0..2).map(|_| { let one = &one; sc.spawn(move || one(rep / 2)) }).collect(); join_all(h) }) }
        };
        row(k)?;
        if b.rep > 600 { for q in 0..known { if q != k && size(q) <= 12 && b.calls[q].fails.is_empty() { row(q)?; } } }
        // and then every call once more
        for q in 0..b.calls.len() { if size(q) <= 200 { check(q, &prepare::<E>(&b.calls[q]))?; } }
    }
    Ok(())
}
