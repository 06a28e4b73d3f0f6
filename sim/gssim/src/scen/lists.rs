//! Commitment lists built in every way - batches, singles, appended parts in nested order, with
//! failed attempts, storage and reloading in between - opened with the trapdoor and then used.
use super::*;
use crate::scen::honest::carry;
use ark_ec::AffineRepr;
use groth_sahai::prover::*;
use groth_sahai::*;
use serde::{Deserialize, Serialize};

/// One step of building a list over a stack of parts.
/// k: 0 batch of the next `n` values, 1 single, 2 append the top part to the one below,
/// 3 store and reload the top part, 4 failed commitment of the next values, 5 refused append,
/// 6 append an empty list (either way round), 7 clone the part and drop the original
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct StepL { pub k: u64, pub n: u64, pub a: u64 }
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Body { pub inst: InstP, pub xs: Vec<StepL>, pub ys: Vec<StepL>, pub extra: Vec<EqP>, pub io: IoPlan,
    /// the same values are committed to this many times more
    pub again: u64 }

fn steps(p: &mut Prng) -> Vec<StepL> {
    let n = p.below(14);
    (0..n).map(|_| StepL { k: p.weighted(&[5, 6, 6, 2, 2, 2, 1, 1]) as u64, n: if p.chance(1, 10) { *p.pick(&[8, 20, 70, 2000]) } else { p.range(1, 5) }, a: p.next() >> 40 }).collect()
}
pub fn gen(p: &mut Prng, big: u64) -> (&'static str, &'static str, Value) {
    let bls = p.chance(1, 12);
    let mut inst = InstP::gen(p, !bls, big, false);
    if bls { inst.crs.kind = 1; }
    // repeated, zero and identity values are wanted here
    if p.chance(1, 4) { let i = p.below(inst.x.len() as u64) as usize; let v = inst.x[i]; for z in inst.x.iter_mut() { if p.chance(1, 2) { *z = v; } } }
    let (m, n) = (inst.x.len(), inst.y.len());
    let extra = (0..if bls { 0 } else { p.below(3) }).map(|_| { let k = inst.eq.kind; EqP::gen(p, k, m, n) }).collect();
    ("lists", if bls { "bls" } else { "toy" }, js(&Body { inst, xs: steps(p), ys: steps(p), extra, io: IoPlan::gen(p, 64, false), again: if bls { 0 } else { row(p, 16) } }))
}

macro_rules! builder { ($name:ident, $V:ident, $C:ident) => {
    fn $name<E: Eng>(v: &$V<E>, st: &[StepL], crs: &CRS<E>, c: &mut Coins, io: &IoPlan) -> Result<$C<E>, Viol> {
        let total = v.len();
        let mut next = 0usize;
        let mut parts: Vec<($C<E>, usize)> = vec![];
        // each part covers consecutive values; parts lie on the stack in order
        for s in st {
            match s.k % 8 {
                0 | 1 => {
                    let n = if s.k % 8 == 1 { 1 } else { (s.n as usize).clamp(1, 2000) }.min(total - next);
                    if n == 0 { continue; }
                    let idx: Vec<usize> = (next..next + n).collect();
                    let p = if s.k % 8 == 1 { v.commit_one(next, crs, c) } else { v.sub(&idx).commit(crs, c) };
                    if p.coms.len() != n { return viol("wrong-count", format!("{} commitments to {n} values", p.coms.len())); }
                    parts.push((p, n));
                    next += n;
                }
                2 => if parts.len() > 1 {
                    let (mut o, n) = parts.pop().unwrap();
                    let l = parts.last_mut().unwrap();
                    let (before, tail) = (l.0.coms.clone(), o.coms.clone());
                    l.0.append(&mut o);
                    l.1 += n;
                    let want: Vec<_> = before.into_iter().chain(tail).collect();
                    if l.0.coms != want { return viol("append-reorders", format!("appending {} to {} commitments gave another list", n, l.1 - n)); }
                    count("appends");
                },
                3 => if let Some(l) = parts.last_mut() { l.0 = carry(&l.0, s.a, io)?; count("probe.stored_and_reloaded"); },
                4 => if next < total {
                    let n = (s.n as usize).clamp(1, 2000).min(total - next);
                    let idx: Vec<usize> = (next..next + n).collect();
                    let mut cc = Coins::new(s.a);
                    cc.fail_at = Some(s.a % (2 * n as u64));
                    match catch(|| v.sub(&idx).commit(crs, &mut cc)) { Err(Caught::Injected) => count("fault.entropy_source_failed"), Err(Caught::Panic(m)) => return viol("panic", m), Ok(_) => {} }
                },
                5 => if let Some(l) = parts.last_mut() {
                    let mut bad = l.0.clone();
                    if s.a & 1 == 0 { bad.coms.pop(); } else { let x = bad.coms[0]; bad.coms.push(x); }
                    let before = l.0.clone();
                    let bad0 = bad.clone();
                    if catch(|| l.0.append(&mut bad)).is_err() { count("fault.append_refused"); if l.0 != before || bad != bad0 { return viol("partial-append", "a refused append altered a list"); } } else { l.0 = before; }
                },
                6 => if let Some(l) = parts.last_mut() {
                    // appending moves the values over and leaves an empty list behind
                    let (mut e, mut sink) = (l.0.clone(), l.0.clone());
                    sink.append(&mut e);
                    if !e.coms.is_empty() { continue; }
                    if s.a & 1 == 0 { l.0.append(&mut e) } else { let mut o = l.0.clone(); e.append(&mut o); l.0 = e }
                    count("probe.empty_append");
                },
                _ => if let Some(l) = parts.pop() { let q = l.0.clone(); drop(l.0); parts.push((q, l.1)); },
            }
        }
        while next < total { parts.push((v.commit_one(next, crs, c), 1)); next += 1; }
        let mut it = parts.into_iter();
        let mut a = it.next().unwrap().0;
        for (mut o, _) in it { a.append(&mut o); count("appends"); }
        Ok(a)
    }
} }
builder!(build1, XV, Commit1);
builder!(build2, YV, Commit2);

pub fn exec<E: Eng>(plan: &Value) -> Res {
    let b: Body = serde_json::from_value(plan["body"].clone()).unwrap();
    begin(plan);
    let mut pl = b.inst.clone();
    if pl.crs.kind > 1 { pl.crs.kind = 1; }
    if !E::TOY { pl.crs.kind = 1; }
    pl.eq.toff = 0;
    let i = pl.inst::<E>();
    let (crs, td) = (&i.key.crs, i.key.td.unwrap());
    let mut c = i.prover_coins();
    let mut io = b.io.clone();
    io.fail_at = None;
    sample(json!({"engine": E::NAME, "kind": KINDS[i.d.kind as usize], "m": i.x.len(), "n": i.y.len(), "x_steps": b.xs.len(), "y_steps": b.ys.len()}));
    nontrivial();
    let xc = build1::<E>(&i.xv, &b.xs, crs, &mut c, &io)?;
    let yc = build2::<E>(&i.yv, &b.ys, crs, &mut c, &io)?;
    let open = |xc: &Commit1<E>, yc: &Commit2<E>, when: &str| -> Res {
        if xc.coms.len() != i.x.len() || yc.coms.len() != i.y.len() { return viol("wrong-count", format!("{when}: {} and {} commitments to {} and {} values", xc.coms.len(), yc.coms.len(), i.x.len(), i.y.len())); }
        for (k, z) in xc.coms.iter().enumerate() {
            let want = if i.d.kind < 2 { E::G1::from(E::g1(&i.x[k])) } else { crs.g1_gen.into_group() * i.x[k] };
            if open1(z, &td) != want { return viol("wrong-value", format!("{when}: commitment {k} of {} on the G1 side ({}) does not hold the value committed to", i.x.len(), if i.d.kind < 2 { "group" } else { "scalar" })); }
        }
        for (k, z) in yc.coms.iter().enumerate() {
            let want = if i.d.kind % 2 == 0 { E::G2::from(E::g2(&i.y[k])) } else { crs.g2_gen.into_group() * i.y[k] };
            if open2(z, &td) != want { return viol("wrong-value", format!("{when}: commitment {k} of {} on the G2 side ({}) does not hold the value committed to", i.y.len(), if i.d.kind % 2 == 0 { "group" } else { "scalar" })); }
        }
        count_n("commitments_opened", (i.x.len() + i.y.len()) as u64);
        Ok(())
    };
    log(format!("lists {:016x}", fnv(fnv(FNV0, &serc(&xc)), &serc(&yc))));
    open(&xc, &yc, "after assembly")?;
    // interchangeable with any other way of making them
    for (k, e) in std::iter::once(&pl.eq).chain(&b.extra).enumerate() {
        let mut e = e.clone();
        e.kind = pl.eq.kind;
        e.toff = 0;
        let eq = e.norm::<E>(&i.x, &i.y).build();
        let pf = eq.prove(&i.xv, &i.yv, &xc, &yc, crs, &mut c);
        let p = CProof { xcoms: xc.clone(), ycoms: yc.clone(), equ_proofs: vec![pf] };
        if !eq.verify(&p, crs) { return viol("assembled-rejected", format!("equation {k} ({} {}x{}): the proof over the assembled commitments is rejected", KINDS[i.d.kind as usize], i.x.len(), i.y.len())); }
        // a mixed proof: one side assembled, the other as a plain batch
        let (mx, my) = if k % 2 == 0 { (i.xv.commit(crs, &mut c), yc.clone()) } else { (xc.clone(), i.yv.commit(crs, &mut c)) };
        let pf = eq.prove(&i.xv, &i.yv, &mx, &my, crs, &mut c);
        let p = CProof { xcoms: mx, ycoms: my, equ_proofs: vec![pf] };
        if !eq.verify(&p, crs) { return viol("assembled-rejected", format!("equation {k} ({}): a proof over an assembled and a batch list is rejected", KINDS[i.d.kind as usize])); }
        count_n("proofs", 2);
    }
    open(&xc, &yc, "after proving")?;
    if i.x.len() + i.y.len() <= 24 {
        let one = b.extra.len() % 2 == 1;
        for k in 0..b.again.min(ROW) {
            // whole lists, or one value at a time
            let (xc, yc) = if one {
                let (mut x, mut y) = (i.xv.commit_one(0, crs, &mut c), i.yv.commit_one(0, crs, &mut c));
                for q in 1..i.x.len() { x.append(&mut i.xv.commit_one(q, crs, &mut c)); }
                for q in 1..i.y.len() { y.append(&mut i.yv.commit_one(q, crs, &mut c)); }
                (x, y)
            } else { (i.xv.commit(crs, &mut c), i.yv.commit(crs, &mut c)) };
            open(&xc, &yc, &format!("time {k} of a row"))?;
            count("committed_again");
        }
    }
    Ok(())
}
