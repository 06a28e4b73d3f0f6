//! Honest sessions, many at a time: provers and verifiers as concurrent caller threads (or tasks
//! of a caller-owned rayon pool) sharing the global pool, objects carried as bytes over streams
//! with short and interrupted transfers.
use crate::eng::*;
use crate::runner::*;
use crate::util::*;
use ark_ec::AffineRepr;
use groth_sahai::prover::*;
use groth_sahai::*;
use rayon::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct SessP { pub inst: InstP, pub verifiers: u64, pub carry: u64, pub asm: u64, pub cut: u64, pub io: IoPlan }
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Body { pub sess: Vec<SessP>, pub shared_crs: bool, pub callers: u64, /** 1: additionally a statement without x variables, 2: without y variables, 3: without any */ pub onesided: u64, /** the first session is held this many times more in the same process */ pub again: u64 }

pub fn gen(p: &mut Prng, big: u64) -> (&'static str, &'static str, Value) {
    let bls = p.chance(1, 10);
    let n = if bls { 1 + p.below(2) } else { *p.pick(&[1, 1, 2, 2, 3, 4]) };
    let mut b = Body { shared_crs: p.chance(1, 2), callers: p.below(4), sess: vec![], onesided: 0, again: 0 };
    for k in 0..n {
        let inst = InstP::gen(p, !bls, if k == 0 { big } else { 0 }, false);
        b.sess.push(SessP { inst, verifiers: 1 + p.below(if bls { 2 } else { 3 }), carry: p.below(4), asm: p.below(4), cut: p.below(8), io: IoPlan::gen(p, 64, false) });
    }
    if p.chance(1, 10) { b.onesided = p.range(1, 3); }
    if !bls { b.again = super::row(p, 24); }
    ("honest", if bls { "bls" } else { "toy" }, js(&b))
}

/// Commit to the variables in the way the plan asks for.
pub fn assemble1<E: Eng>(v: &XV<E>, k: &CRS<E>, c: &mut Coins, mode: u64, cut: u64) -> Commit1<E> {
    let n = v.len();
    match mode % 4 {
        1 if n > 0 => { let mut a = v.commit_one(0, k, c); for i in 1..n { let mut o = v.commit_one(i, k, c); a.append(&mut o); } a }
        2 if n > 1 => {
            let q = 1 + (cut as usize) % (n - 1);
            let mut a = v.sub(&(0..q).collect::<Vec<_>>()).commit(k, c);
            let mut o = v.sub(&(q..n).collect::<Vec<_>>()).commit(k, c);
            a.append(&mut o);
            a
        }
        3 if n > 1 => {
            // the tail is built first from singles, then the head as a batch
            let q = 1 + (cut as usize) % (n - 1);
            let mut t = v.commit_one(q, k, c);
            for i in q + 1..n { let mut o = v.commit_one(i, k, c); t.append(&mut o); }
            let mut a = v.sub(&(0..q).collect::<Vec<_>>()).commit(k, c);
            a.append(&mut t);
            a
        }
        _ => v.commit(k, c),
    }
}
pub fn assemble2<E: Eng>(v: &YV<E>, k: &CRS<E>, c: &mut Coins, mode: u64, cut: u64) -> Commit2<E> {
    let n = v.len();
    match mode % 4 {
        1 if n > 0 => { let mut a = v.commit_one(0, k, c); for i in 1..n { let mut o = v.commit_one(i, k, c); a.append(&mut o); } a }
        2 if n > 1 => {
            let q = 1 + (cut as usize) % (n - 1);
            let mut a = v.sub(&(0..q).collect::<Vec<_>>()).commit(k, c);
            let mut o = v.sub(&(q..n).collect::<Vec<_>>()).commit(k, c);
            a.append(&mut o);
            a
        }
        3 if n > 1 => {
            let q = 1 + (cut as usize) % (n - 1);
            let mut t = v.commit_one(q, k, c);
            for i in q + 1..n { let mut o = v.commit_one(i, k, c); t.append(&mut o); }
            let mut a = v.sub(&(0..q).collect::<Vec<_>>()).commit(k, c);
            a.append(&mut t);
            a
        }
        _ => v.commit(k, c),
    }
}
/// Write through a (slow, interrupting) stream and read back through another.
pub fn carry<T: ark_serialize::CanonicalSerialize + ark_serialize::CanonicalDeserialize>(t: &T, c: u64, io: &IoPlan) -> Result<T, Viol> {
    let cm = comp(c & 1 == 0);
    let mut io = io.clone();
    io.fail_at = None;
    let mut w = FWrite::new(&io);
    if let Err(e) = t.serialize_with_mode(&mut w, cm) { return viol("transport", format!("serialisation over a slow stream failed: {e:?}")); }
    let mut r = FRead::new(&w.d, &io);
    match T::deserialize_with_mode(&mut r, cm, ark_serialize::Validate::Yes) {
        Ok(x) => { count_n("fault.short_transfer", r.cnt.short + w.cnt.short); count_n("fault.interrupted_transfer", r.cnt.intr + w.cnt.intr); Ok(x) }
        Err(e) => viol("transport", format!("an honest object did not survive the transport: {e:?}")),
    }
}
pub fn carry_proof<E: Eng>(p: &CProof<E>, c: u64, io: &IoPlan) -> Result<CProof<E>, Viol> {
    Ok(CProof { xcoms: carry(&p.xcoms, c, io)?, ycoms: carry(&p.ycoms, c, io)?, equ_proofs: p.equ_proofs.iter().map(|q| carry(q, c, io)).collect::<Result<_, _>>()? })
}
pub fn carry_eq<E: Eng>(q: &Eqn<E>, c: u64, io: &IoPlan) -> Result<Eqn<E>, Viol> {
    Ok(match q { Eqn::P(q) => Eqn::P(carry(q, c, io)?), Eqn::M1(q) => Eqn::M1(carry(q, c, io)?), Eqn::M2(q) => Eqn::M2(carry(q, c, io)?), Eqn::Q(q) => Eqn::Q(carry(q, c, io)?) })
}

fn prover<E: Eng>(s: &SessP, inst: &Inst<E>, crs: &CRS<E>) -> CProof<E> {
    let mut c = inst.prover_coins();
    if s.asm % 5 == 0 { return inst.eq.commit_and_prove(&inst.xv, &inst.yv, crs, &mut c); }
    let xc = assemble1(&inst.xv, crs, &mut c, s.asm, s.cut);
    let yc = assemble2(&inst.yv, crs, &mut c, s.asm / 2 + 1, s.cut / 2);
    let p = inst.eq.prove(&inst.xv, &inst.yv, &xc, &yc, crs, &mut c);
    CProof { xcoms: xc, ycoms: yc, equ_proofs: vec![p] }
}
/// One session from start to end.
fn session<E: Eng>(k: usize, s: &SessP, inst: &Inst<E>, crs: &CRS<E>, nested: bool) -> Res {
    let p = prover(s, inst, crs);
    if p.xcoms.coms.iter().any(|z| z.0.is_zero() || z.1.is_zero()) || p.ycoms.coms.iter().any(|z| z.0.is_zero() || z.1.is_zero()) { count("probe.part_of_commitment_vanishes"); }
    log(format!("prover {k}: {} {}x{} proof {:016x}", KINDS[inst.d.kind as usize], inst.x.len(), inst.y.len(), fnv(FNV0, &cproof_bytes(&p))));
    let verify = |v: u64| -> Res {
        let ok = if (s.carry + v) % 2 == 0 { inst.eq.verify(&p, crs) } else {
            let (q, e, r) = (carry_proof(&p, s.carry + v, &s.io)?, carry_eq(&inst.eq, s.carry + v, &s.io)?, carry(crs, s.carry + v, &s.io)?);
            e.verify(&q, &r)
        };
        log(format!("verifier {k}.{v}: {ok}"));
        count("verdicts");
        if !ok { return viol("honest-rejected", format!("session {k}: an honest {} proof ({} x {} variables) was rejected by verifier {v}", KINDS[inst.d.kind as usize], inst.x.len(), inst.y.len())); }
        Ok(())
    };
    let nv = s.verifiers.clamp(1, 4);
    if nested { (0..nv).into_par_iter().map(verify).collect::<Vec<_>>().into_iter().collect() } else if nv == 1 { verify(0) } else {
        std::thread::scope(|sc| { let h: Vec<_> = (0..nv).map(|v| { let verify = &verify; sc.spawn(move || verify(v)) }).collect(); join_all(h) })
    }
}
pub fn join_all(h: Vec<std::thread::ScopedJoinHandle<Res>>) -> Res {
    let mut r = Ok(());
    for t in h {
        let x = match t.join() { Ok(x) => x, Err(p) => if p.is::<Injected>() { viol("panic", "injected failure escaped") } else { viol("panic", format!("a caller thread panicked: {}", last_panic())) } };
        if r.is_ok() { r = x; }
    }
    r
}

pub fn exec<E: Eng>(plan: &Value) -> Res {
    let b: Body = serde_json::from_value(plan["body"].clone()).unwrap();
    begin(plan);
    if b.sess.is_empty() { return Ok(()); }
    let key0 = make_crs::<E>(&b.sess[0].inst.crs);
    let insts: Vec<Inst<E>> = b.sess.iter().enumerate().map(|(k, s)| s.inst.inst_with(if b.shared_crs || k == 0 { key0.clone() } else { make_crs::<E>(&s.inst.crs) })).collect();
    sample(json!({"sessions": insts.iter().map(|i| i.describe()).collect::<Vec<_>>(), "callers": b.callers, "sched": plan["sched"]["kind"]}));
    nontrivial();
    for i in &insts { count(&format!("kind.{}", KINDS[i.d.kind as usize])); if i.x.len().max(i.y.len()) > 15 { count("probe.large_dimension"); } if i.d.g.iter().all(|r| r.iter().all(|z| z == &F::<E>::from(0u64))) { count("probe.gamma_all_zero"); } }
    let crs_of = |k: usize| if b.shared_crs { &insts[0].key.crs } else { &insts[k].key.crs };
    let r: Res = match b.callers % 4 {
        // a plain sequential caller
        0 => { for (k, s) in b.sess.iter().enumerate() { session(k, s, &insts[k], crs_of(k), false)?; } Ok(()) }
        // callers that are themselves tasks of the global pool
        1 => b.sess.par_iter().enumerate().map(|(k, s)| session(k, s, &insts[k], crs_of(k), true)).collect::<Vec<_>>().into_iter().collect(),
        // a caller-owned pool
        2 => {
            count("probe.caller_pool");
            let pool = rayon::ThreadPoolBuilder::new().num_threads(1 + (plan["sched"]["threads"].as_u64().unwrap_or(1) as usize) % 4).build().unwrap();
            let r = pool.install(|| b.sess.par_iter().enumerate().map(|(k, s)| session(k, s, &insts[k], crs_of(k), true)).collect::<Vec<_>>());
            drop(pool);
            r.into_iter().collect()
        }
        // one thread per session
        _ => std::thread::scope(|sc| { let h: Vec<_> = b.sess.iter().enumerate().map(|(k, s)| { let (i, c) = (&insts[k], crs_of(k)); sc.spawn(move || session(k, s, i, c, false)) }).collect(); join_all(h) }),
    };
    r?;
    if insts[0].x.len() * insts[0].y.len() <= 60 {
        for k in 0..b.again.min(if insts[0].x.len() * insts[0].y.len() > 12 { 300 } else { super::ROW }) {
            let i = &insts[0];
            let mut c = Coins::new(i.coins ^ mix64(k));
            let p = i.eq.commit_and_prove(&i.xv, &i.yv, crs_of(0), &mut c);
            if !i.eq.verify(&p, crs_of(0)) { return viol("honest-rejected", format!("proof {k} of a row for the same {} statement ({} x {} variables) was rejected", KINDS[i.d.kind as usize], i.x.len(), i.y.len())); }
            count("sessions_repeated");
        }
    }
    if b.again > 600 {
        // tiny statements of each kind, over and over
        for kind in 0..4 {
            let (x, y) = (vars::<E>(&b.sess[0].inst.x[..1]), vars::<E>(&b.sess[0].inst.y[..1]));
            let d = EqP { kind, a: vec![insts[0].coins], b: vec![5], g: vec![vec![7]], ..Default::default() }.norm::<E>(&x, &y);
            let (eq, xv, yv) = (d.build(), XV::<E>::new(d.kind, &x), YV::<E>::new(d.kind, &y));
            for k in 0..b.again.min(super::ROW) {
                let p = eq.commit_and_prove(&xv, &yv, crs_of(0), &mut Coins::new(insts[0].coins ^ mix64(k)));
                if !eq.verify(&p, crs_of(0)) { return viol("honest-rejected", format!("proof {k} of a row for the same {} statement (1 x 1 variables) was rejected", KINDS[kind as usize])); }
                count("sessions_repeated");
            }
        }
    }
    if b.onesided == 0 { return Ok(()); }
    one_sided::<E>(&b.sess[0], b.onesided, &key0)
}
/// A statement whose variables all lie on one side (or that has none): the other list is empty.
fn one_sided<E: Eng>(s: &SessP, which: u64, key: &Key<E>) -> Res {
    let x: Vec<F<E>> = if which & 1 == 1 { vec![] } else { vars::<E>(&s.inst.x) };
    let y: Vec<F<E>> = if which & 2 == 2 { vec![] } else { vars::<E>(&s.inst.y) };
    let d = s.inst.eq.norm::<E>(&x, &y);
    let (eq, xv, yv) = (d.build(), XV::<E>::new(d.kind, &x), YV::<E>::new(d.kind, &y));
    count("probe.one_sided_statement");
    match catch(|| eq.commit_and_prove(&xv, &yv, &key.crs, &mut Coins::new(s.inst.coins))) {
        Ok(p) => { let ok = eq.verify(&p, &key.crs); log(format!("one-sided {}: {ok}", KINDS[d.kind as usize])); if ok { Ok(()) } else { viol("honest-rejected", format!("an honest {} proof with {} x and {} y variables was rejected", KINDS[d.kind as usize], x.len(), y.len())) } }
        Err(Caught::Panic(m)) => { soft_viol("one-sided-statement", format!("a satisfied {} statement with {} x and {} y variables cannot be proven: {m}", KINDS[d.kind as usize], x.len(), y.len())); Ok(()) }
        Err(Caught::Injected) => viol("panic", "injected"),
    }
}
