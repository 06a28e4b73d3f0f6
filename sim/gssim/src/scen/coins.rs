//! The party's coins as a controlled input. Every word that the library draws is scripted, so that
//! the published elements become functions of the coins which the toy engine lets us read off as
//! discrete logarithms: blinding degrees of freedom and freshness (C14), equivocation of whole
//! messages to another witness under hiding keys (C06), validity and independence of reference
//! strings (C08) - each across histories with failed attempts in between and under any schedule.
use super::forge::gauss;
use super::honest::carry;
use super::*;
use crate::toy::{fr, limb, Fr, Toy, T1};
use ark_ff::{Field, One, Zero};
use ark_serialize::Valid;
use groth_sahai::prover::*;
use groth_sahai::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

// A scalar takes two words. How it is made of them is observed, not assumed: every word is moved
// by one, and what moves in the same direction belongs together.
const TOP: u64 = (1 << 56) - 1;
/// The words with the i-th moved by one, and in which direction.
fn flip(w: &[u64], i: usize) -> (Vec<u64>, Fr) {
    let mut v = w.to_vec();
    v[i] ^= 1;
    (v, if w[i] & 1 == 0 { Fr::one() } else { -Fr::one() })
}
/// Other low 56 bits, and by how much the word moved (the rest may be cut off by the sampler).
fn stir(w: &mut u64, p: &mut Prng) -> Fr {
    let v = (*w & !TOP) | (p.next() & TOP);
    let d = if v >= *w { Fr::from(v - *w) } else { -Fr::from(*w - v) };
    *w = v;
    d
}
/// The columns that are not zero, by direction.
fn classes(c: &[Vec<Fr>]) -> Vec<Vec<usize>> {
    let mut m: BTreeMap<Vec<Fr>, Vec<usize>> = BTreeMap::new();
    for (i, v) in c.iter().enumerate() {
        let Some(z) = v.iter().find(|z| !z.is_zero()) else { continue };
        let f = z.inverse().unwrap();
        m.entry(v.iter().map(|q| *q * f).collect()).or_default().push(i);
    }
    m.into_values().collect()
}
/// The columns whose directions are moved by at least a whole scalar's worth of words.
fn wide(c: &[Vec<Fr>]) -> Vec<Vec<Fr>> { classes(c).into_iter().filter(|k| k.len() > 1).map(|k| c[k[0]].clone()).collect() }
/// Pairs of words that act as one scalar.
fn pairs(c: &[Vec<Fr>]) -> Vec<(usize, usize)> {
    let f = Fr::from(1u128 << 64);
    classes(c).into_iter().filter_map(|k| k.iter().find_map(|l| k.iter().find(|h| c[**h].iter().zip(&c[*l]).all(|(x, y)| *x == *y * f)).map(|h| (*l, *h)))).collect()
}
/// The two words after a move by d.
fn shift(w: &mut [u64], q: (usize, usize), d: &Fr) {
    let v = limb(&(fr(w[q.0] as u128 | ((w[q.1] & TOP) as u128) << 64) + d));
    w[q.0] = v as u64;
    w[q.1] = (v >> 64) as u64;
}

pub fn rank(mut m: Vec<Vec<Fr>>) -> usize {
    let mut r = 0;
    let n = m.first().map(|x| x.len()).unwrap_or(0);
    for c in 0..n {
        let Some(k) = (r..m.len()).find(|k| !m[*k][c].is_zero()) else { continue };
        m.swap(r, k);
        let inv = m[r][c].inverse().unwrap();
        for k in r + 1..m.len() { if !m[k][c].is_zero() { let f = m[k][c] * inv; for q in c..n { let t = m[r][q]; m[k][q] -= f * t; } } }
        r += 1;
    }
    r
}
fn d1(c: &Com1<Toy>) -> [Fr; 2] { [c.0.a, c.1.a] }
fn d2(c: &Com2<Toy>) -> [Fr; 2] { [c.0.a, c.1.a] }
fn v1(c: &[Com1<Toy>]) -> Vec<Fr> { c.iter().flat_map(d1).collect() }
fn v2(c: &[Com2<Toy>]) -> Vec<Fr> { c.iter().flat_map(d2).collect() }

// ------------------------------------------------------------------ plans
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct StepP { pub op: u64, pub eq: EqP, pub fail: u64, pub idx: u64 }
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Body { pub crs: CrsPlan, pub x: Vec<u64>, pub y: Vec<u64>, pub x2: Vec<u64>, pub y2: Vec<u64>, pub steps: Vec<StepP>, pub coins: u64, pub delta: u64, pub pick: u64, pub io: IoPlan,
    /// everything is done this many times more, with the same coins, in the same process
    pub again: u64 }

pub fn gen14(p: &mut Prng) -> (&'static str, &'static str, Value) {
    let bls = p.chance(1, 16);
    let (mut m, mut n) = (p.range(1, 3), p.range(1, 3));
    if !bls && p.chance(1, 12) { if p.chance(1, 2) { m = p.range(4, 9) } else { n = p.range(4, 9) } }
    // now and then a long batch, in a single step
    let long = !bls && p.chance(1, 24);
    if long { let k = *p.pick(&[17, 33, 49, 65, 129]) + p.below(8); if p.chance(1, 2) { (m, n) = (k, 1) } else { (m, n) = (1, k) } }
    let hid = p.chance(1, 2);
    let (sx, sy) = (p.below(5), p.below(5));
    let mut b = Body { crs: CrsPlan::gen(p, hid), x: (0..m).map(|_| gen_spec(p, sx)).collect(), y: (0..n).map(|_| gen_spec(p, sy)).collect(), coins: p.next() >> 16, delta: p.next() >> 16, ..Default::default() };
    let k = if bls { p.range(1, 2) } else if long { 0 } else { p.range(1, 4) };
    if long { let kind = p.below(4); b.steps.push(StepP { op: if m.max(n) < 60 && p.chance(1, 3) { 4 } else { (n > m) as u64 }, eq: EqP::gen(p, kind, m as usize, n as usize), fail: if p.chance(1, 4) { 1 + p.below(200) } else { 0 }, idx: p.below(16) }); }
    for _ in 0..k {
        let kind = p.below(4);
        // 0 commit x (batch), 1 commit y, 2/3 single, 4 commit and prove, 5 prove with earlier commitments
        b.steps.push(StepP { op: p.weighted(&[2, 2, 1, 1, 4, 4]) as u64, eq: EqP::gen(p, kind, m as usize, n as usize), fail: if p.chance(1, 4) { 1 + p.below(48) } else { 0 }, idx: p.below(16) });
        if p.chance(1, 4) { let s = b.steps.last().unwrap().clone(); b.steps.push(s); }
    }
    if !bls && !long { b.again = row(p, 24); }
    ("coins", if bls { "bls" } else { "toy" }, js(&b))
}
pub fn gen06(p: &mut Prng) -> (&'static str, &'static str, Value) {
    let (mut m, mut n) = (p.range(1, 3), p.range(1, 3));
    if p.chance(1, 10) { if p.chance(1, 2) { m = p.range(4, 8) } else { n = p.range(4, 8) } }
    let mut b = Body { crs: CrsPlan::gen(p, true), coins: p.next() >> 16, pick: p.below(1 << 20), ..Default::default() };
    let vec_of = |p: &mut Prng, k: u64| { let s = p.below(5); (0..k).map(|_| gen_spec(p, s)).collect::<Vec<_>>() };
    b.x = vec_of(p, m); b.y = vec_of(p, n); b.x2 = vec_of(p, m); b.y2 = vec_of(p, n);
    match p.below(6) { 0 => b.x2 = b.x.clone(), 1 => b.y2 = b.y.clone(), 2 => b.x2 = vec![0; m as usize], 3 => { b.x2 = b.x.clone(); let i = p.below(m) as usize; b.x2[i] = gen_spec(p, 0); } _ => {} }
    let kind = p.below(4);
    for q in 0..*p.pick(&[1, 1, 2, 3]) {
        // equations over the same variables share the variables' kinds
        let mut s = StepP { op: if q == 0 { 4 } else { 5 }, eq: EqP::gen(p, kind, m as usize, n as usize), fail: 0, idx: p.below(64) };
        if q > 0 && p.chance(1, 4) { s.eq = b.steps[0].eq.clone(); }
        b.steps.push(s);
    }
    b.again = row(p, 24);
    ("coins", "toy", js(&b))
}
pub fn gen08(p: &mut Prng) -> (&'static str, &'static str, Value) {
    let bls = p.chance(1, 12);
    let mut b = Body { coins: p.next() >> 16, delta: p.next() >> 16, io: IoPlan::gen(p, 100, false), ..Default::default() };
    for _ in 0..if bls { p.range(1, 2) } else { p.range(1, 4) } { b.steps.push(StepP { fail: if p.chance(2, 5) { 1 + p.below(24) } else { 0 }, idx: p.below(1 << 20), ..Default::default() }); }
    if !bls { b.again = row(p, 24); }
    ("coins", if bls { "bls" } else { "toy" }, js(&b))
}

// ------------------------------------------------------------------ runs of a history
/// What one step of a history published, and which words it drew.
#[derive(Clone, Debug, Default)]
struct StepOut { coms: Vec<Fr>, proof: Vec<Fr>, from: usize, to: usize, want_coms: usize, want_proof: usize }
/// Forget a failed attempt at the same call (the coins it drew are gone).
fn attempt<R>(c: &mut Coins, fail: u64, f: impl FnOnce(&mut Coins) -> R) -> Result<bool, Viol> {
    if fail == 0 { return Ok(false); }
    c.fail_at = Some(c.draws + fail - 1);
    let r = catch(|| f(c));
    c.fail_at = None;
    match r { Err(Caught::Injected) => Ok(true), Err(Caught::Panic(m)) => viol("panic", m), Ok(_) => Ok(false) }
}
fn history(b: &Body, key: &Key<Toy>, c: &mut Coins, steps: usize) -> Result<Vec<StepOut>, Viol> {
    let (x, y) = (vars::<Toy>(&b.x), vars::<Toy>(&b.y));
    let crs = &key.crs;
    let mut out = vec![];
    let mut kept: Vec<(u8, Commit1<Toy>, Commit2<Toy>)> = vec![];
    let hid = !key.binding;
    let per = |group: bool| if hid && group { 2 } else { 1 };
    for s in b.steps.iter().take(steps) {
        let d = s.eq.norm::<Toy>(&x, &y);
        let kd = d.kind;
        let eq = d.build();
        let (xv, yv) = (XV::<Toy>::new(kd, &x), YV::<Toy>::new(kd, &y));
        let (gx, gy) = (kd < 2, kd % 2 == 0);
        let tr = if hid { [4, 2, 2, 1] } else { [3, 2, 2, 1] }[kd as usize];
        let mut o = StepOut::default();
        let (ix, iy) = (s.idx as usize % x.len(), s.idx as usize % y.len());
        macro_rules! go { ($f:expr) => {{
            if attempt(c, s.fail, |c| { $f(c); })? { count("fault.entropy_source_failed"); }
            o.from = c.draws as usize;
            let r = $f(c);
            o.to = c.draws as usize;
            r
        }} }
        match s.op % 6 {
            0 => { let r = go!(|c: &mut Coins| xv.commit(crs, c)); o.coms = v1(&r.coms); o.want_coms = x.len() * per(gx); }
            1 => { let r = go!(|c: &mut Coins| yv.commit(crs, c)); o.coms = v2(&r.coms); o.want_coms = y.len() * per(gy); }
            2 => { let r = go!(|c: &mut Coins| xv.commit_one(ix, crs, c)); o.coms = v1(&r.coms); o.want_coms = per(gx); }
            3 => { let r = go!(|c: &mut Coins| yv.commit_one(iy, crs, c)); o.coms = v2(&r.coms); o.want_coms = per(gy); }
            4 => {
                let r = go!(|c: &mut Coins| eq.commit_and_prove(&xv, &yv, crs, c));
                o.coms = [v1(&r.xcoms.coms), v2(&r.ycoms.coms)].concat();
                o.want_coms = x.len() * per(gx) + y.len() * per(gy);
                for q in &r.equ_proofs { o.proof.extend(v2(&q.pi)); o.proof.extend(v1(&q.theta)); }
                o.want_proof = tr;
                kept.push((kd, r.xcoms, r.ycoms));
            }
            _ => {
                if !kept.iter().any(|k| k.0 == kd) { let (a, b) = (xv.commit(crs, c), yv.commit(crs, c)); kept.push((kd, a, b)); }
                let (_, xc, yc) = kept.iter().rev().find(|k| k.0 == kd).unwrap().clone();
                let r = go!(|c: &mut Coins| eq.prove(&xv, &yv, &xc, &yc, crs, c));
                o.proof = [v2(&r.pi), v1(&r.theta)].concat();
                o.want_proof = tr;
            }
        }
        out.push(o);
    }
    Ok(out)
}
fn zeros(v: &[Fr]) -> bool { v.iter().all(|z| z.is_zero()) }
fn sub(a: &[Fr], b: &[Fr]) -> Vec<Fr> { a.iter().zip(b).map(|(x, y)| *x - y).collect() }

const STEPS: [&str; 6] = ["commit x", "commit y", "commit one x", "commit one y", "commit and prove", "prove"];

/// How the published elements of one step move with the coins it drew.
fn blinding(b: &Body, key: &Key<Toy>, base: &[StepOut], words: &[u64], k: usize, full: bool) -> Res {
    let s = &base[k];
    let run = |w: &[u64]| -> Result<StepOut, Viol> {
        let mut o = history(b, key, &mut Coins::scripted(w.to_vec(), b.coins ^ 99), k + 1)?;
        if o.len() != k + 1 { return viol("coins-unstable", "the history took another course".to_string()); }
        Ok(o.pop().unwrap())
    };
    let own: Vec<usize> = (s.from..s.to).collect();
    let what = format!("step {k} ({}, {})", STEPS[b.steps[k].op as usize % 6], KINDS[b.steps[k].eq.kind as usize % 4]);
    // the direction in which every output moves with a word
    let mut jc: Vec<Vec<Fr>> = vec![];
    let mut ja: Vec<Vec<Fr>> = vec![];
    let hi = Fr::from(1u128 << 64);
    for (q, i) in own.iter().enumerate() {
        if !full && q % 2 == 1 {
            for j in [&mut jc, &mut ja] { let v = j[q - 1].iter().map(|z| *z * hi).collect(); j.push(v); }
            continue;
        }
        let (w, f) = flip(words, *i);
        let o = run(&w)?;
        let col = |v: &[Fr], z: &[Fr]| sub(v, z).into_iter().map(|q| q * f).collect::<Vec<_>>();
        jc.push(col(&o.coms, &s.coms));
        ja.push(col(&o.proof, &s.proof));
    }
    let rc = rank(wide(&jc));
    log(format!("{what}: {} words, commitments move in {rc} directions", own.len()));
    if rc < s.want_coms { return viol("under-blinded", format!("{what}: the commitments are blinded in {rc} independent directions by the coins of this call; {} are needed", s.want_coms)); }
    // a random change of all own coins must act as the sum of the single changes
    let mut p = Prng::new(b.delta ^ k as u64);
    if s.want_coms > 0 {
        let mut w = words.to_vec();
        let delta: Vec<Fr> = own.iter().map(|i| stir(&mut w[*i], &mut p)).collect();
        let o = run(&w)?;
        let mut pred = s.coms.clone();
        for (j, e) in jc.iter().zip(&delta) { for (z, d) in pred.iter_mut().zip(j) { *z += *e * d; } }
        if pred != o.coms { return viol("coins-misused", format!("{what}: the commitments are not blinded by the drawn coins themselves")); }
    }
    if s.want_proof > 0 {
        let t: Vec<usize> = (0..own.len()).filter(|q| zeros(&jc[*q])).collect();
        let jp: Vec<Vec<Fr>> = t.iter().map(|q| ja[*q].clone()).collect();
        let rp = rank(wide(&jp));
        log(format!("{what}: proof moves in {rp} directions"));
        if rp < s.want_proof { return viol("under-blinded", format!("{what}: the proof is blinded in {rp} independent directions by coins of its own; {} are needed", s.want_proof)); }
        let mut w = words.to_vec();
        let delta: Vec<Fr> = t.iter().map(|q| stir(&mut w[own[*q]], &mut p)).collect();
        let o = run(&w)?;
        let mut pred = s.proof.clone();
        for (j, e) in jp.iter().zip(&delta) { for (z, d) in pred.iter_mut().zip(j) { *z += *e * d; } }
        if pred != o.proof { return viol("coins-misused", format!("{what}: the proof is not blinded by the drawn coins themselves")); }
    }
    Ok(())
}
/// C14 on the toy engine.
fn fresh(b: &Body) -> Res {
    let key = make_crs::<Toy>(&b.crs);
    sample(json!({"engine": "toy", "binding": key.binding, "m": b.x.len(), "n": b.y.len(), "steps": b.steps.iter().map(|s| json!([STEPS[s.op as usize % 6], KINDS[s.eq.kind as usize % 4], s.fail])).collect::<Vec<_>>()}));
    nontrivial();
    let mut c = Coins::new(b.coins);
    c.rec = Some(vec![]);
    let base = history(b, &key, &mut c, usize::MAX)?;
    let words = c.rec.take().unwrap();
    count_n("words_scripted", words.len() as u64);
    for r in 0..b.again.min(ROW) {
        let o = history(b, &key, &mut Coins::scripted(words.clone(), b.coins ^ 99), usize::MAX)?;
        if o.iter().zip(&base).any(|(x, y)| x.coms != y.coms || x.proof != y.proof) { return viol("coins-misused", format!("time {r} of a row the same coins blind in another way")); }
        count("histories_repeated");
    }
    for k in 0..base.len() {
        // that two words in a row make a scalar is a guess that is tested; if it is wrong, every word is looked at
        if blinding(b, &key, &base, &words, k, false).is_err() { count("words_one_by_one"); blinding(b, &key, &base, &words, k, true)?; }
        count("steps_analysed");
    }
    // repeated steps must not repeat anything
    for a in 0..base.len() { for z in a + 1..base.len() {
        if !base[a].coms.is_empty() && base[a].coms.iter().any(|q| !q.is_zero() && base[z].coms.contains(q)) { return viol("repeated-element", format!("steps {a} and {z} published a common commitment element")); }
        if !base[a].proof.is_empty() && base[a].proof.iter().any(|q| !q.is_zero() && base[z].proof.contains(q)) { return viol("repeated-element", format!("steps {a} and {z} published a common proof element")); }
    } }
    Ok(())
}
/// C14 on a real curve: equal inputs again and again never give a common element.
fn fresh_real<E: Eng>(b: &Body) -> Res {
    let key = make_crs::<E>(&b.crs);
    let (x, y) = (vars::<E>(&b.x), vars::<E>(&b.y));
    let mut c = Coins::new(b.coins);
    sample(json!({"engine": E::NAME, "m": x.len(), "n": y.len(), "steps": b.steps.len()}));
    nontrivial();
    let mut seen: std::collections::BTreeSet<Vec<u8>> = Default::default();
    for (k, s) in b.steps.iter().enumerate() {
        let d = s.eq.norm::<E>(&x, &y);
        let eq = d.build();
        let (xv, yv) = (XV::<E>::new(d.kind, &x), YV::<E>::new(d.kind, &y));
        for r in 0..2 {
            if attempt(&mut c, if r == 1 { s.fail } else { 0 }, |c| { eq.commit_and_prove(&xv, &yv, &key.crs, c); })? { count("fault.entropy_source_failed"); }
            let p = eq.commit_and_prove(&xv, &yv, &key.crs, &mut c);
            let mut el: Vec<Vec<u8>> = vec![];
            for z in &p.xcoms.coms { el.push(serc(&z.0)); el.push(serc(&z.1)); }
            for z in &p.ycoms.coms { el.push(serc(&z.0)); el.push(serc(&z.1)); }
            for z in &p.equ_proofs[0].pi { el.push(serc(&z.0)); el.push(serc(&z.1)); }
            for z in &p.equ_proofs[0].theta { el.push(serc(&z.0)); el.push(serc(&z.1)); }
            for (q, e) in el.into_iter().enumerate() { if !seen.insert(e) { return viol("repeated-element", format!("step {k}.{r}: published element {q} had been published before (or is a constant)")); } }
            count("steps_analysed");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ equivocation (C06)
/// `extra`: the scalars that the encodings carry after the published elements, if that is what follows.
struct Message { extra: [Option<Vec<Fr>>; 3], coms: Vec<Fr>, proof: Vec<Fr>, publ: Vec<u8>, enc: [Vec<u8>; 3], draws: usize }
fn message(x: &[Fr], y: &[Fr], eqs: &[EqD<Toy>], crs: &CRS<Toy>, c: &mut Coins) -> Message {
    let kd = eqs[0].kind;
    let (xv, yv) = (XV::<Toy>::new(kd, x), YV::<Toy>::new(kd, y));
    let mut proofs = vec![];
    let p = eqs[0].build().commit_and_prove(&xv, &yv, crs, c);
    proofs.extend(p.equ_proofs.clone());
    for e in &eqs[1..] { proofs.push(e.build().prove(&xv, &yv, &p.xcoms, &p.ycoms, crs, c)); }
    let mut publ = serc(&p.xcoms.coms);
    publ.extend(serc(&p.ycoms.coms));
    for q in &proofs { publ.extend(serc(&q.pi)); publ.extend(serc(&q.theta)); publ.extend(serc(&q.equ_type)); }
    Message {
        coms: [v1(&p.xcoms.coms), v2(&p.ycoms.coms)].concat(),
        proof: proofs.iter().flat_map(|q| [v2(&q.pi), v1(&q.theta)].concat()).collect(),
        publ,
        extra: [tail(&serc(&p.xcoms), &serc(&p.xcoms.coms)), tail(&serc(&p.ycoms), &serc(&p.ycoms.coms)), proofs.iter().map(|q| tail(&serc(q), &[serc(&q.pi), serc(&q.theta), serc(&q.equ_type)].concat())).collect::<Option<Vec<_>>>().map(|v| v.concat())],
        enc: [serc(&p.xcoms), serc(&p.ycoms), proofs.iter().flat_map(serc).collect()],
        draws: c.draws as usize,
    }
}
fn tail(all: &[u8], head: &[u8]) -> Option<Vec<Fr>> {
    use ark_serialize::CanonicalDeserialize;
    let mut t = all.strip_prefix(head)?;
    let m = Vec::<Vec<Fr>>::deserialize_compressed(&mut t).ok()?;
    if t.is_empty() { Some(m.concat()) } else { None }
}
fn solve(j: &[Vec<Fr>], rhs: &[Fr]) -> Option<Vec<Fr>> {
    // columns are the coins
    let mut m: Vec<Vec<Fr>> = (0..rhs.len()).map(|r| { let mut row: Vec<Fr> = j.iter().map(|c| c[r]).collect(); row.push(rhs[r]); row }).collect();
    gauss::<Fr>(&mut m, j.len())
}
/// C06. First with the guess that two words in a row make a scalar, then without.
fn equivocate(b: &Body) -> Res {
    if equivocate_with(b, false).is_ok() { return Ok(()); }
    count("words_one_by_one");
    equivocate_with(b, true)
}
fn equivocate_with(b: &Body, full: bool) -> Res {
    if b.steps.is_empty() { return Ok(()); }
    let mut cp = b.crs.clone();
    cp.kind = 2;
    let key = make_crs::<Toy>(&cp);
    let (x, y) = (vars::<Toy>(&b.x), vars::<Toy>(&b.y));
    let fit = |v: &[u64], n: usize| { let mut w = v.to_vec(); w.resize(n, 0); vars::<Toy>(&w) };
    let (x2, y2) = (fit(&b.x2, x.len()), fit(&b.y2, y.len()));
    // make both witnesses satisfy every equation by solving for one coefficient
    let mut eqs = vec![];
    for s in &b.steps {
        let mut e = s.eq.clone();
        e.kind = b.steps[0].eq.kind;
        e.toff = 0;
        e.tz = 0;
        let mut d = e.norm::<Toy>(&x, &y);
        let diff = d.lhs(&x2, &y2) - d.lhs(&x, &y);
        if !diff.is_zero() {
            let (m, n) = (x.len(), y.len());
            let mut spots: Vec<(u8, usize, usize, Fr)> = vec![];
            for i in 0..m { spots.push((0, i, 0, x[i] - x2[i])); }
            for j in 0..n { spots.push((1, 0, j, y[j] - y2[j])); }
            for i in 0..m { for j in 0..n { spots.push((2, i, j, x[i] * y[j] - x2[i] * y2[j])); } }
            spots.retain(|s| !s.3.is_zero());
            if spots.is_empty() { return Ok(()); } // the witnesses coincide
            let q = spots[(s.idx as usize) % spots.len()];
            let f = diff * q.3.inverse().unwrap();
            match q.0 { 0 => d.b[q.1] += f, 1 => d.a[q.2] += f, _ => d.g[q.1][q.2] += f }
        }
        d.t = d.lhs(&x, &y);
        if d.t != d.lhs(&x2, &y2) { panic!("harness: witness construction") }
        eqs.push(d);
    }
    sample(json!({"engine": "toy", "kind": KINDS[eqs[0].kind as usize], "m": x.len(), "n": y.len(), "equations": eqs.len()}));
    nontrivial();
    let crs = &key.crs;
    let mut c = Coins::new(b.coins);
    c.rec = Some(vec![]);
    let m1 = message(&x, &y, &eqs, crs, &mut c);
    let words = c.rec.take().unwrap();
    count_n("words_scripted", words.len() as u64);
    let what = format!("{} {}x{}, {} equations", KINDS[eqs[0].kind as usize], x.len(), y.len(), eqs.len());
    let other = |w: &[u64]| message(&x2, &y2, &eqs, crs, &mut Coins::scripted(w.to_vec(), b.coins ^ 99));
    let first = |w: &[u64]| message(&x, &y, &eqs, crs, &mut Coins::scripted(w.to_vec(), b.coins ^ 99));
    let jac = |w0: &[u64], f: &dyn Fn(&[u64]) -> Message, base: &Message| -> Vec<(Vec<Fr>, Vec<Fr>)> {
        let mut j: Vec<(Vec<Fr>, Vec<Fr>)> = vec![];
        let hi = Fr::from(1u128 << 64);
        for i in 0..w0.len() {
            if !full && i % 2 == 1 {
                let v = |c: &Vec<Fr>| c.iter().map(|z| *z * hi).collect();
                let e = (v(&j[i - 1].0), v(&j[i - 1].1));
                j.push(e);
                continue;
            }
            let (w, s) = flip(w0, i);
            let o = f(&w);
            let col = |v: &[Fr], z: &[Fr]| sub(v, z).into_iter().map(|q| q * s).collect();
            j.push((col(&o.coms, &base.coms), col(&o.proof, &base.proof)));
        }
        j
    };
    let b2 = other(&words);
    if b2.draws != m1.draws { return viol("coins-tell-witness", format!("{what}: {} words drawn for one witness, {} for the other", m1.draws, b2.draws)); }
    // coins of the commitments
    let j2 = jac(&words, &other, &b2);
    let jc2: Vec<Vec<Fr>> = j2.iter().map(|x| x.0.clone()).collect();
    let pc = pairs(&jc2);
    let at = |j: &[Vec<Fr>], p: &[(usize, usize)]| p.iter().map(|q| j[q.0].clone()).collect::<Vec<_>>();
    let Some(dc) = solve(&at(&jc2, &pc), &sub(&m1.coms, &b2.coms)) else { return viol("commitment-tells-witness", format!("{what}: no coins make the commitments of one witness those of the other")) };
    let mut w2 = words.clone();
    for (q, d) in pc.iter().zip(&dc) { shift(&mut w2, *q, d); }
    let b3 = other(&w2);
    if b3.coms != m1.coms { return viol("coins-misused", format!("{what}: the commitments do not depend on the coins as they should")); }
    // coins of the proofs alone
    let j3 = jac(&w2, &other, &b3);
    let t: Vec<usize> = (0..words.len()).filter(|i| zeros(&j3[*i].0)).collect();
    let jp: Vec<Vec<Fr>> = t.iter().map(|i| j3[*i].1.clone()).collect();
    let pp = pairs(&jp);
    let Some(dp) = solve(&at(&jp, &pp), &sub(&m1.proof, &b3.proof)) else { return viol("proof-tells-witness", format!("{what}: no coins make the proof for one witness that for the other although the commitments agree")) };
    let mut w3 = w2.clone();
    for (q, d) in pp.iter().zip(&dp) { shift(&mut w3, (t[q.0], t[q.1]), d); }
    let b4 = other(&w3);
    log(format!("{what}: {:016x} {:016x}", fnv(FNV0, &m1.publ), fnv(FNV0, &b4.publ)));
    if b4.publ != m1.publ { return viol("coins-misused", format!("{what}: the proofs do not depend on the coins as they should")); }
    for r in 0..b.again.min(ROW) {
        // however often it is done before
        let (o, m) = if r & 1 == 0 { (other(&w3), &b4) } else { (first(&words), &m1) };
        if o.publ != m.publ { return viol("coins-misused", format!("{what}: time {r} of a row the same coins make another message")); }
        count("messages_repeated");
    }
    // equally many coins lead to the message
    let j1 = jac(&words, &first, &m1);
    let jc1: Vec<Vec<Fr>> = j1.iter().map(|x| x.0.clone()).collect();
    let jp1: Vec<Vec<Fr>> = (0..words.len()).filter(|i| zeros(&jc1[*i])).map(|i| j1[i].1.clone()).collect();
    if rank(wide(&jc1)) != rank(wide(&jc2)) || rank(wide(&jp1)) != rank(wide(&jp)) || jp1.len() != jp.len() { return viol("not-equally-likely", format!("{what}: the message is not equally likely under both witnesses")); }
    count("messages_equivocated");
    // what the encodings carry beyond the published elements
    for (k, n) in ["Commit1", "Commit2", "EquProof"].iter().enumerate() {
        if b4.enc[k] == m1.enc[k] { continue; }
        let own = |m: &Message, w: &[u64]| m.extra[k].as_ref().map(|v| v.iter().all(|c| w.windows(2).any(|q| [q[0], q[1] & TOP] == c.0 .0))).unwrap_or(false);
        if own(&m1, &words) && own(&b4, &w3) { soft_viol(&format!("serialized-rand-{}", n.to_lowercase()), format!("the encoding of {n} differs between the witnesses although the published elements agree: it carries the blinding coins")); }
        else { return viol("encoding-tells-witness", format!("{what}: the encoding of {n} differs between the witnesses although the published elements agree")); }
    }
    Ok(())
}

// ------------------------------------------------------------------ reference strings (C08)
fn crs_ok<E: Eng>(c: &CRS<E>) -> Res {
    use ark_ec::AffineRepr;
    if c.u.len() != 2 || c.v.len() != 2 { return viol("bad-crs", "keys do not have two elements each"); }
    for (n, bad) in [("g1_gen", c.g1_gen.is_zero()), ("g2_gen", c.g2_gen.is_zero()), ("u[0]", c.u[0].0.is_zero() || c.u[0].1.is_zero()), ("u[1]", c.u[1].0.is_zero() || c.u[1].1.is_zero()), ("v[0]", c.v[0].0.is_zero() || c.v[0].1.is_zero()), ("v[1]", c.v[1].0.is_zero() || c.v[1].1.is_zero())] {
        if bad { return viol("bad-crs", format!("{n} is trivial")); }
    }
    if E::pairing(c.g1_gen, c.g2_gen) != c.gt_gen { return viol("bad-crs", "gt_gen is not the pairing of the generators"); }
    if c.check().is_err() { return viol("bad-crs", "an element is not in the group"); }
    let same = [serc(&c.u[0].0), serc(&c.u[0].1), serc(&c.u[1].0), serc(&c.u[1].1)];
    for i in 0..4 { for j in 0..i { if same[i] == same[j] { return viol("bad-crs", "two elements of u coincide"); } } }
    let same = [serc(&c.v[0].0), serc(&c.v[0].1), serc(&c.v[1].0), serc(&c.v[1].1)];
    for i in 0..4 { for j in 0..i { if same[i] == same[j] { return viol("bad-crs", "two elements of v coincide"); } } }
    Ok(())
}
fn generations<E: Eng>(b: &Body, c: &mut Coins, quiet: bool) -> Result<Vec<(CRS<E>, usize, usize)>, Viol> {
    let mut out = vec![];
    for s in &b.steps {
        if attempt(c, s.fail, |c| { CRS::<E>::generate_crs(c); })? && !quiet { count("fault.entropy_source_failed"); }
        let from = c.draws as usize;
        let k = CRS::<E>::generate_crs(c);
        out.push((k, from, c.draws as usize));
    }
    Ok(out)
}
fn distribute<E: Eng>(b: &Body, k: &CRS<E>, i: u64) -> Res {
    let mut io = b.io.clone();
    // first attempts fail half-way, then it goes through
    let n = serc(k).len() as u64;
    io.fail_at = Some(i % n);
    use ark_serialize::CanonicalSerialize;
    let mut w = FWrite::new(&io);
    if k.serialize_with_mode(&mut w, comp(i & 1 == 0)).is_ok() { return viol("error-swallowed", "a failing stream went unnoticed"); }
    count("fault.stream_failed");
    let r: CRS<E> = carry(k, i, &io)?;
    if r.u != k.u || r.v != k.v || r.g1_gen != k.g1_gen || r.g2_gen != k.g2_gen || r.gt_gen != k.gt_gen { return viol("distribution", "the reference string changed on its way"); }
    Ok(())
}
fn references_real<E: Eng>(b: &Body) -> Res {
    let mut c = Coins::new(b.coins);
    let g = generations::<E>(b, &mut c, false)?;
    nontrivial();
    sample(json!({"engine": E::NAME, "generations": g.len()}));
    let mut seen: std::collections::BTreeSet<Vec<u8>> = Default::default();
    for (i, (k, f, t)) in g.iter().enumerate() {
        crs_ok(k)?;
        distribute(b, k, b.steps[i].idx)?;
        if f == t { return viol("not-fresh", "no coins were drawn"); }
        for e in [serc(&k.g1_gen), serc(&k.g2_gen), serc(&k.u[0].1), serc(&k.u[1].0), serc(&k.u[1].1), serc(&k.v[0].1), serc(&k.v[1].0), serc(&k.v[1].1)] { if !seen.insert(e) { return viol("not-fresh", "an element appeared before"); } }
        // a key in working order serves honest proofs
        let inst = InstP { crs: CrsPlan::default(), x: vec![16 + b.coins], y: vec![18 + b.coins], eq: EqP { kind: i as u64 + b.coins, a: vec![20], b: vec![22], g: vec![vec![24]], toff: 0, tz: 0 }, coins: b.coins, rel: 0 }.inst_with::<E>(Key { crs: k.clone(), td: None, binding: true });
        if !inst.eq.verify(&inst.honest(), k) { return viol("bad-crs", "an honest proof under the generated string is rejected"); }
        log(format!("generation {i}: {:016x}", fnv(FNV0, &serc(k))));
    }
    Ok(())
}
fn references(b: &Body) -> Res {
    let mut c = Coins::new(b.coins);
    c.rec = Some(vec![]);
    let g = generations::<Toy>(b, &mut c, false)?;
    let words = c.rec.take().unwrap();
    nontrivial();
    sample(json!({"engine": "toy", "generations": g.len(), "failed_attempts": b.steps.iter().map(|s| s.fail).collect::<Vec<_>>(), "words": words.len()}));
    let tdv = |k: &CRS<Toy>| -> Option<Vec<Fr>> { let t = td_of(k)?; Some(vec![t.p1, t.a1, t.t1, t.p2, t.a2, t.t2]) };
    let valid = |i: usize, k: &CRS<Toy>| -> Res {
        crs_ok(k)?;
        let Some(t) = td_of::<Toy>(k) else { return viol("bad-crs", format!("generation {i}: degenerate keys")) };
        // binding form: the second key element is a multiple of the first
        let mul = |a: T1, k: Fr| a.a * k;
        if k.u[1].0.a != mul(k.u[0].0, t.t1) || k.u[1].1.a != mul(k.u[0].1, t.t1) { return viol("not-binding", format!("generation {i}: u[1] is not a multiple of u[0]")); }
        if k.v[1].0.a != k.v[0].0.a * t.t2 || k.v[1].1.a != k.v[0].1.a * t.t2 { return viol("not-binding", format!("generation {i}: v[1] is not a multiple of v[0]")); }
        Ok(())
    };
    let run = |w: &[u64]| generations::<Toy>(b, &mut Coins::scripted(w.to_vec(), b.coins ^ 77), true);
    let mut base = vec![];
    for (i, (k, _, _)) in g.iter().enumerate() {
        valid(i, k)?;
        distribute(b, k, b.steps[i].idx)?;
        base.push(tdv(k).unwrap());
        log(format!("generation {i}: {:016x}", fnv(FNV0, &serc(k))));
        // extraction works for both groups
        let td = td_of::<Toy>(k).unwrap();
        let mut cc = Coins::new(b.coins ^ 3);
        let s = Fr::from(7u64 + i as u64);
        if open1::<Toy>(&commit_G1(&Toy::g1(&s), k, &mut cc).coms[0], &td).a != s { return viol("not-binding", format!("generation {i}: extraction fails in G1")); }
        if open2::<Toy>(&commit_G2(&Toy::g2(&s), k, &mut cc).coms[0], &td).a != s { return viol("not-binding", format!("generation {i}: extraction fails in G2")); }
    }
    for r in 0..b.again.min(ROW) {
        // whether the same coins or others
        let o = if r & 1 == 0 { run(&words)? } else { generations::<Toy>(b, &mut Coins::new(mix64(b.coins ^ r)), true)? };
        for (i, (k, _, _)) in o.iter().enumerate() {
            valid(i, k)?;
            if r & 1 == 0 && tdv(k) != Some(base[i].clone()) { return viol("trapdoors-dependent", format!("time {r} of a row the same coins make another string")); }
            if r & 1 == 1 && tdv(k).unwrap().iter().any(|z| base.iter().any(|q| q.contains(z))) { return viol("not-fresh", format!("time {r} of a row a trapdoor had been used before")); }
        }
        count("generations_repeated");
    }
    let mut cols = vec![];
    for i in 0..words.len() {
        // words of failed attempts are nobody's
        if !g.iter().any(|(_, f, t)| (*f..*t).contains(&i)) { cols.push(vec![]); continue; }
        let (w, f) = flip(&words, i);
        let o = run(&w)?;
        let mut v = vec![];
        for (q, (k, _, _)) in o.iter().enumerate() { valid(q, k)?; v.push(base[q].iter().zip(tdv(k).unwrap()).map(|(z, t)| (t - z) * f).collect::<Vec<_>>()); }
        cols.push(v);
    }
    count_n("words_scripted", words.len() as u64);
    // jointly: every trapdoor of every generation has coins of its own
    for (i, (_, f, t)) in g.iter().enumerate() {
        let own: Vec<usize> = (*f..*t).collect();
        let j: Vec<Vec<Fr>> = own.iter().map(|q| cols[*q][i].clone()).collect();
        let r = rank(wide(&j));
        if r < 6 { return viol("trapdoors-dependent", format!("generation {i}: its six trapdoors move in only {r} independent directions with its own coins")); }
        let mut p = Prng::new(b.delta ^ i as u64);
        let mut w = words.clone();
        let d: Vec<Fr> = own.iter().map(|k| stir(&mut w[*k], &mut p)).collect();
        let o = run(&w)?;
        let mut pred = base[i].clone();
        for (q, c) in j.iter().enumerate() { for (z, e) in pred.iter_mut().zip(c) { *z += d[q] * e; } }
        if Some(pred) != tdv(&o[i].0) { return viol("trapdoors-dependent", format!("generation {i}: the trapdoors are not the drawn coins")); }
        valid(i, &o[i].0)?;
        // own coins leave earlier and later strings alone
        for q in 0..base.len() { if q != i { for k in &own { if !zeros(&cols[*k][q]) { return viol("not-fresh", format!("generation {q} depends on the coins of generation {i}")); } } } }
        count("generations_analysed");
    }
    Ok(())
}

pub fn exec<E: Eng>(plan: &Value) -> Res {
    let b: Body = serde_json::from_value(plan["body"].clone()).unwrap();
    begin(plan);
    match plan["prop"].as_str().unwrap_or("") {
        "C06" => equivocate(&b),
        "C08" => if E::TOY { references(&b) } else { references_real::<E>(&b) },
        _ => if E::TOY { fresh(&b) } else { fresh_real::<E>(&b) },
    }
}
