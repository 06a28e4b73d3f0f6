//! Every encodable type on simulated streams. C09: values written to and read from streams that
//! deliver short, get interrupted, fail or end early, many objects one after the other. C10: the
//! same decoders fed with corrupted, torn, spliced and forged bytes on a machine that grants no
//! allocation out of proportion to what was supplied.
use super::*;
use ark_ec::AffineRepr;
use ark_ff::{Field, PrimeField};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Read, SerializationError, Validate};
use groth_sahai::data_structures::Matrix;
use groth_sahai::prover::*;
use groth_sahai::statement::*;
use groth_sahai::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::Ordering::SeqCst;

pub const TYPES: [&str; 19] = ["CRS", "Com1", "Com2", "Commit1", "Commit2", "EquProof", "EquType", "PPE", "MSMEG1", "MSMEG2", "QuadEqu", "Matrix<Fr>", "Matrix<Com1>", "Matrix<Com2>", "Vec<EquProof>", "Vec<EquType>", "(Com1,EquType,Com2)", "Vec<CRS>", "Vec<QuadEqu>"];
macro_rules! with { ($ty:expr, $E:ident, $f:ident $args:tt) => {
    match $ty % 19 {
        0 => $f::<CRS<$E>>$args,
        1 => $f::<Com1<$E>>$args,
        2 => $f::<Com2<$E>>$args,
        3 => $f::<Commit1<$E>>$args,
        4 => $f::<Commit2<$E>>$args,
        5 => $f::<EquProof<$E>>$args,
        6 => $f::<EquType>$args,
        7 => $f::<PPE<$E>>$args,
        8 => $f::<MSMEG1<$E>>$args,
        9 => $f::<MSMEG2<$E>>$args,
        10 => $f::<QuadEqu<$E>>$args,
        11 => $f::<Matrix<F<$E>>>$args,
        12 => $f::<Matrix<Com1<$E>>>$args,
        13 => $f::<Matrix<Com2<$E>>>$args,
        14 => $f::<Vec<EquProof<$E>>>$args,
        15 => $f::<Vec<EquType>>$args,
        16 => $f::<(Com1<$E>, EquType, Com2<$E>)>$args,
        17 => $f::<Vec<CRS<$E>>>$args,
        _ => $f::<Vec<QuadEqu<$E>>>$args,
    }
} }
/// A value of any of the types, with everything we compare.
pub struct Obj { pub ty: usize, pub enc: [Vec<u8>; 2], pub dbg: String, pub size: [usize; 2], put: Box<dyn Fn(&mut FWrite, Compress) -> Result<(), SerializationError> + Send + Sync> }
fn cm(i: usize) -> Compress { comp(i == 0) }
fn obj<T: CanonicalSerialize + std::fmt::Debug + Send + Sync + 'static>(ty: usize, t: T) -> Obj {
    Obj { ty, enc: [ser(&t, Compress::Yes), ser(&t, Compress::No)], dbg: format!("{t:?}"), size: [t.compressed_size(), t.uncompressed_size()], put: Box::new(move |w, c| t.serialize_with_mode(w, c)) }
}
fn take<T: CanonicalDeserialize + CanonicalSerialize + std::fmt::Debug>(r: impl Read, c: Compress, v: Validate) -> Result<(String, [Vec<u8>; 2]), SerializationError> {
    let t = T::deserialize_with_mode(r, c, v)?;
    Ok((format!("{t:?}"), [ser(&t, Compress::Yes), ser(&t, Compress::No)]))
}
fn get<E: Eng>(ty: usize, r: impl Read, c: Compress, v: Validate) -> Result<(String, [Vec<u8>; 2]), SerializationError> { with!(ty, E, take(r, c, v)) }
/// Decode without validation, then validate the value - and as one of several in a slice.
fn late<E: Eng>(ty: usize, b: &[u8], c: Compress, good: &[u8]) -> Result<bool, SerializationError> {
    fn go<T: CanonicalDeserialize>(b: &[u8], c: Compress, good: &[u8]) -> Result<bool, SerializationError> {
        let t = T::deserialize_with_mode(b, c, Validate::No)?;
        let g = T::deserialize_with_mode(good, c, Validate::No)?;
        let one = t.check().is_ok();
        let v = [g, t];
        let many = T::batch_check(v.iter()).is_ok();
        Ok(one || many)
    }
    with!(ty, E, go(b, c, good))
}

// ------------------------------------------------------------------ the wire format
#[derive(Clone, Debug)]
pub enum Sc { G1, G2, Z, T, K, L, V(Box<Sc>), S(Vec<Sc>) }
use Sc::*;
fn v(s: Sc) -> Sc { V(Box::new(s)) }
fn schema(ty: usize) -> Sc {
    let c1 = S(vec![G1, G1]);
    let c2 = S(vec![G2, G2]);
    let mf = v(v(Z));
    let ep = S(vec![v(c2.clone()), v(c1.clone()), K, mf.clone()]);
    let crs = S(vec![v(c1.clone()), v(c2.clone()), G1, G2, T]);
    let q = S(vec![v(Z), v(Z), mf.clone(), Z]);
    match ty % 19 {
        0 => crs, 1 => c1, 2 => c2, 3 => S(vec![v(c1), mf]), 4 => S(vec![v(c2), mf]), 5 => ep, 6 => K,
        7 => S(vec![v(G1), v(G2), mf, T]), 8 => S(vec![v(G1), v(Z), mf, G1]), 9 => S(vec![v(Z), v(G2), mf, G2]), 10 => q,
        11 => mf, 12 => v(v(c1)), 13 => v(v(c2)), 14 => v(ep), 15 => v(K), 16 => S(vec![c1, K, c2]), 17 => v(crs), _ => v(q),
    }
}
fn form(s: &Sc) -> u8 { match s { G1 => 0, G2 => 1, T => 2, K => 3, _ => 4 } }
fn leaf_len<E: Eng>(s: &Sc, c: Compress) -> usize {
    match s { G1 => A1::<E>::default().serialized_size(c), G2 => A2::<E>::default().serialized_size(c), Z => F::<E>::from(0u64).serialized_size(c), T => Gt::<E>::default().serialized_size(c), K => 1, _ => 8 }
}
/// The least number of bytes an element of this form takes.
fn least<E: Eng>(s: &Sc, c: Compress) -> usize { match s { V(_) => 8, S(l) => l.iter().map(|x| least::<E>(x, c)).sum(), x => leaf_len::<E>(x, c) } }
/// Walk over encoded bytes; the leaves met (offset, form), whether a length was met that the
/// rest of the bytes cannot fill, and whether the walk reached the end of the value.
struct Walk { leaves: Vec<(usize, Sc)>, hostile: bool, end: Option<usize> }
fn walk<E: Eng>(ty: usize, b: &[u8], c: Compress) -> Walk {
    let mut w = Walk { leaves: vec![], hostile: false, end: None };
    fn go<E: Eng>(s: &Sc, b: &[u8], at: &mut usize, c: Compress, w: &mut Walk) -> bool {
        match s {
            S(l) => l.iter().all(|x| go::<E>(x, b, at, c, w)),
            V(x) => {
                if *at + 8 > b.len() { return false; }
                w.leaves.push((*at, L));
                let n = u64::from_le_bytes(b[*at..*at + 8].try_into().unwrap());
                *at += 8;
                if n as u128 * least::<E>(x, c) as u128 > (b.len() - *at) as u128 { w.hostile = true; return false; }
                (0..n).all(|_| go::<E>(x, b, at, c, w))
            }
            x => {
                let n = leaf_len::<E>(x, c);
                if *at + n > b.len() { return false; }
                w.leaves.push((*at, x.clone()));
                *at += n;
                true
            }
        }
    }
    let mut at = 0;
    if go::<E>(&schema(ty), b, &mut at, c, &mut w) { w.end = Some(at); }
    w
}
fn leaf_ok<E: Eng>(s: &Sc, b: &[u8], c: Compress, v: Validate) -> bool {
    match s {
        G1 => A1::<E>::deserialize_with_mode(b, c, v).is_ok(), G2 => A2::<E>::deserialize_with_mode(b, c, v).is_ok(),
        Z => F::<E>::deserialize_with_mode(b, c, v).is_ok(), T => Gt::<E>::deserialize_with_mode(b, c, v).is_ok(),
        K => b[0] < 4, _ => true,
    }
}
/// Bytes like `b` that decode as a leaf but are not a valid one (or, for scalars and kinds, do not decode).
fn bad_leaf<E: Eng>(s: &Sc, b: &[u8], c: Compress, p: &mut Prng) -> Option<Vec<u8>> {
    match s {
        K => return Some(vec![4 + p.below(252) as u8]),
        Z => { let mut w = b.to_vec(); let n = w.len(); for x in &mut w[n - 2..] { *x = 0xff; } return if leaf_ok::<E>(s, &w, c, Validate::No) { None } else { Some(w) }; }
        G1 if matches!(c, Compress::No) && p.chance(1, 2) => { let z = bad_leaf::<E>(s, &recode::<E>(s, b, c, Compress::Yes)?, Compress::Yes, p)?; return recode::<E>(s, &z, Compress::Yes, c); }
        G2 if matches!(c, Compress::No) && p.chance(1, 2) => { let z = bad_leaf::<E>(s, &recode::<E>(s, b, c, Compress::Yes)?, Compress::Yes, p)?; return recode::<E>(s, &z, Compress::Yes, c); }
        _ => {}
    }
    for _ in 0..3000 {
        let mut w = b.to_vec();
        for _ in 0..p.range(1, 3) { let i = p.below(w.len() as u64) as usize; w[i] = if p.chance(1, 2) { p.next() as u8 } else { w[i] ^ (1 << p.below(8)) }; }
        if leaf_ok::<E>(s, &w, c, Validate::No) && !leaf_ok::<E>(s, &w, c, Validate::Yes) { return Some(w); }
    }
    None
}
/// The given elements moved by elements outside of the subgroup that sum to nothing.
fn defects<E: Eng>(s: &Sc, n: usize, good: &[Vec<u8>], c: Compress, p: &mut Prng) -> Option<Vec<Vec<u8>>> {
    let r = F::<E>::MODULUS;
    fn go<A: CanonicalSerialize + CanonicalDeserialize + Clone>(n: usize, good: &[Vec<u8>], bad: &[u8], c: Compress, mul: impl Fn(&A) -> A, add: impl Fn(&A, &A) -> A, neg: impl Fn(&A) -> A) -> Option<Vec<Vec<u8>>> {
        let t = mul(&A::deserialize_with_mode(bad, c, Validate::No).ok()?);
        let mut out = vec![];
        for (i, g) in good.iter().enumerate() {
            let g = A::deserialize_with_mode(&g[..], c, Validate::Yes).ok()?;
            let d = if i + 1 < n { t.clone() } else { let mut z = neg(&t); for _ in 2..n { z = add(&z, &neg(&t)); } z };
            out.push(ser(&add(&g, &d), c));
        }
        Some(out)
    }
    // off the subgroup, but on the curve
    let on = |s: &Sc, p: &mut Prng| { let z = bad_leaf::<E>(s, &recode::<E>(s, &good[0], c, Compress::Yes)?, Compress::Yes, p)?; recode::<E>(s, &z, Compress::Yes, c) };
    let out = match s {
        G1 => go::<A1<E>>(n, good, &on(s, p)?, c, |x| x.mul_bigint(r).into(), |x, y| (*x + *y).into(), |x| (-x.into_group()).into()),
        G2 => go::<A2<E>>(n, good, &on(s, p)?, c, |x| x.mul_bigint(r).into(), |x, y| (*x + *y).into(), |x| (-x.into_group()).into()),
        T => go::<Gt<E>>(n, good, &bad_leaf::<E>(s, &good[0], c, p)?, c, |x| ark_ec::pairing::PairingOutput(x.0.pow(r)), |x, y| ark_ec::pairing::PairingOutput(x.0 * y.0), |x| ark_ec::pairing::PairingOutput(x.0.inverse().unwrap())),
        _ => return None,
    }?;
    if out.iter().all(|b| leaf_ok::<E>(s, b, c, Validate::No) && !leaf_ok::<E>(s, b, c, Validate::Yes)) { Some(out) } else { None }
}
fn recode<E: Eng>(s: &Sc, b: &[u8], from: Compress, to: Compress) -> Option<Vec<u8>> {
    match s {
        G1 => A1::<E>::deserialize_with_mode(b, from, Validate::No).ok().map(|x| ser(&x, to)),
        _ => A2::<E>::deserialize_with_mode(b, from, Validate::No).ok().map(|x| ser(&x, to)),
    }
}

// ------------------------------------------------------------------ plans
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct ItemP { pub ty: u64, pub cut: u64, pub mode: u64 }
/// One corruption. k: 0 flip a bit, 1 overwrite bytes, 2 truncate, 3 append, 4 splice another
/// encoding in, 5 overwrite a length, 6 make a group element / target / scalar / kind invalid,
/// 7 only random bytes, 8 swap two leaves of the same form, 9 decode as another type, 10 make
/// several elements invalid so that what is wrong with them cancels out in their sum
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Corrupt { pub k: u64, pub at: u64, pub val: u64 }
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct HostP { pub item: ItemP, pub c: Vec<Corrupt>, pub io: IoPlan }
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Body { pub inst: InstP, pub streams: Vec<Vec<ItemP>>, pub hosts: Vec<HostP>, pub wr: IoPlan, pub rd: IoPlan, pub seed: u64,
    /// some of it this many times more
    pub again: u64 }

fn item(p: &mut Prng) -> ItemP { ItemP { ty: p.below(19), cut: p.next() >> 40, mode: p.below(2) } }
pub fn gen09(p: &mut Prng, big: u64) -> (&'static str, &'static str, Value) {
    let bls = p.chance(1, 8);
    let inst = InstP::gen(p, !bls, if bls { 1 } else { big.min(12) }, p.clone().chance(1, 2));
    let s = p.range(1, if bls { 1 } else { 3 });
    let streams = (0..s).map(|_| (0..p.range(1, if bls { 3 } else { 8 })).map(|_| item(p)).collect()).collect();
    ("bytes", if bls { "bls" } else { "toy" }, js(&Body { inst, streams, hosts: vec![], wr: IoPlan::gen(p, 64, false), rd: IoPlan::gen(p, 64, false), seed: p.next() >> 16, again: if bls { 0 } else { row(p, 16) } }))
}
pub fn gen10(p: &mut Prng) -> (&'static str, &'static str, Value) {
    let bls = p.chance(1, 8);
    let inst = InstP::gen(p, !bls, 1, false);
    let n = if bls { p.range(1, 4) } else { p.range(4, 16) };
    let hosts = (0..n).map(|_| {
        let k = if p.chance(2, 3) { 1 } else { p.range(2, 4) };
        HostP { item: item(p), c: (0..k).map(|_| Corrupt { k: p.weighted(&[4, 2, 2, 1, 2, 3, 8, 1, 1, 1, 4]) as u64, at: p.next() >> 40, val: p.next() >> 16 }).collect(), io: IoPlan::gen(p, 64, false) }
    }).collect();
    ("bytes", if bls { "bls" } else { "toy" }, js(&Body { inst, streams: vec![], hosts, wr: IoPlan::default(), rd: IoPlan::default(), seed: p.next() >> 16, again: if bls { 0 } else { row(p, 16) } }))
}

/// The values: everything that arises in a session, and degenerate relatives of it.
fn make<E: Eng>(it: &ItemP, i: &Inst<E>, pf: &CProof<E>) -> Obj {
    let ty = it.ty as usize % 19;
    let c = it.cut;
    let mut p = Prng::new(c ^ 0xb17e5);
    let z1 = Com1::<E>(A1::<E>::default(), A1::<E>::default());
    let z2 = Com2::<E>(A2::<E>::default(), A2::<E>::default());
    let kinds = || vec![EquType::PairingProduct, EquType::MultiScalarG1, EquType::MultiScalarG2, EquType::Quadratic];
    let any = || sc::<F<E>>(mix64(c) >> 3);
    let com1 = |c: u64| if c % 5 == 0 { z1 } else if c % 11 == 3 { Com1(E::g1(&sc(c)), E::g1(&sc(c >> 3))) } else { pf.xcoms.coms[c as usize % pf.xcoms.coms.len()] };
    let com2 = |c: u64| if c % 5 == 0 { z2 } else if c % 11 == 3 { Com2(E::g2(&sc(c)), E::g2(&sc(c >> 3))) } else { pf.ycoms.coms[c as usize % pf.ycoms.coms.len()] };
    let proof = |c: u64| { let mut q = pf.equ_proofs[0].clone(); match c % 6 { 0 => q.pi.clear(), 1 => q.theta.clear(), 2 => { let x = q.pi[0]; q.pi.push(x) } 3 => q.equ_type = kinds()[(c / 6) as usize % 4].clone(), _ => {} } q };
    // dimensions that do not fit together are encodable as well
    let dims = |p: &mut Prng| -> Vec<usize> { let far = p.range(8, 40); let (m, n) = match p.below(24) { 0 => (far, p.below(3)), 1 => (p.below(3), far), _ => (p.below(5), p.below(5)) }; let rag = p.chance(1, 5); (0..m).map(|_| if rag { p.below(5) } else { n } as usize).collect() };
    let eq = |kind: u64, p: &mut Prng| {
        let kd = kind as u8 % 4;
        let mut d = EqP::gen(p, kind % 4, i.x.len(), i.y.len()).norm::<E>(&i.x, &i.y);
        d.kind = kd;
        match p.below(6) { 0 => d.a.clear(), 1 => d.b.clear(), 2 => d.g.clear(), 3 => for r in d.g.iter_mut() { r.clear() }, _ => {} }
        d
    };
    match ty {
        0 => { let mut k = i.key.crs.clone(); match c % 8 { 0 => k.u.clear(), 1 => { k.v.pop(); } 2 => k.u.push(z1), 3 => { k.g1_gen = A1::<E>::default(); k.gt_gen = Gt::<E>::default(); }
            // elements that have nothing to do with one another
            4 | 5 => { let s = any(); match c / 8 % 6 { 0 => k.g1_gen = E::g1(&s), 1 => k.g2_gen = E::g2(&s), 2 | 3 => k.gt_gen = E::gt(&s), 4 => if let Some(u) = k.u.last_mut() { u.1 = E::g1(&s) }, _ => if let Some(v) = k.v.first_mut() { v.0 = E::g2(&s) } } }
            _ => {} } obj(ty, k) }
        1 => obj(ty, com1(c)),
        2 => obj(ty, com2(c)),
        3 => { let mut k = pf.xcoms.clone(); match c % 6 { 0 => k.coms.clear(), 1 => { let mut s = pf.xcoms.clone(); s.append(&mut k); if c & 8 == 0 { k = s } } 2 => k.coms.push(z1), _ => {} } obj(ty, k) }
        4 => { let mut k = pf.ycoms.clone(); match c % 6 { 0 => k.coms.clear(), 1 => { let mut s = pf.ycoms.clone(); s.append(&mut k); if c & 8 == 0 { k = s } } 2 => k.coms.push(z2), _ => {} } obj(ty, k) }
        5 => obj(ty, proof(c)),
        6 => obj(ty, kinds()[c as usize % 4].clone()),
        7..=10 => match eq(ty as u64 - 7, &mut p).build() { Eqn::P(q) => obj(ty, q), Eqn::M1(q) => obj(ty, q), Eqn::M2(q) => obj(ty, q), Eqn::Q(q) => obj(ty, q) },
        11 => { let d = dims(&mut p); let m: Matrix<F<E>> = d.iter().map(|n| (0..*n).map(|_| { let s = p.below(5); sc::<F<E>>(gen_spec(&mut p, s)) }).collect()).collect(); obj(ty, m) }
        12 => { let d = dims(&mut p); let m: Matrix<Com1<E>> = d.iter().map(|n| (0..*n).map(|_| com1(p.next())).collect()).collect(); obj(ty, m) }
        13 => { let d = dims(&mut p); let m: Matrix<Com2<E>> = d.iter().map(|n| (0..*n).map(|_| com2(p.next())).collect()).collect(); obj(ty, m) }
        14 => obj(ty, (0..if p.chance(1, 16) { 20 } else { p.below(4) }).map(|_| proof(p.next())).collect::<Vec<_>>()),
        15 => obj(ty, (0..if p.chance(1, 8) { p.range(9, 300) } else { p.below(9) }).map(|_| kinds()[p.below(4) as usize].clone()).collect::<Vec<_>>()),
        16 => obj(ty, (com1(c), kinds()[c as usize / 5 % 4].clone(), com2(c / 7))),
        17 => obj(ty, (0..p.below(3)).map(|_| i.key.crs.clone()).collect::<Vec<_>>()),
        _ => obj(ty, (0..p.below(4)).map(|_| match eq(3, &mut p).build() { Eqn::Q(q) => q, _ => unreachable!() }).collect::<Vec<_>>()),
    }
}

// ------------------------------------------------------------------ C09
fn stream<E: Eng>(si: usize, items: &[ItemP], b: &Body, i: &Inst<E>, pf: &CProof<E>) -> Res {
    let objs: Vec<(Obj, usize)> = items.iter().map(|x| (make::<E>(x, i, pf), x.mode as usize % 2)).collect();
    let mut p = Prng::new(b.seed ^ si as u64);
    let (mut wr, mut rd) = (b.wr.clone(), b.rd.clone());
    wr.fail_at = None;
    rd.fail_at = None;
    let mut w = FWrite::new(&wr);
    let mut want = vec![];
    let mut ends = vec![];
    for (o, m) in &objs {
        if o.enc[0].len() != o.size[0] || o.enc[1].len() != o.size[1] { return viol("wrong-size", format!("a {} announces {:?} bytes and occupies {:?}", TYPES[o.ty], o.size, [o.enc[0].len(), o.enc[1].len()])); }
        // writers that fail, in the middle of everything else
        let n = o.enc[*m].len();
        for _ in 0..2 {
            let mut bad = wr.clone();
            bad.fail_at = Some(p.below(n.max(1) as u64));
            bad.kind = p.below(4);
            if n == 0 { continue; }
            let mut f = FWrite::new(&bad);
            if (o.put)(&mut f, cm(*m)).is_ok() { return viol("error-swallowed", format!("writing a {} to a device that failed at byte {} of {n} reported success", TYPES[o.ty], bad.fail_at.unwrap())); }
            if !o.enc[*m].starts_with(&f.d) { return viol("stream-differs", format!("a {} was written differently to a device that failed later", TYPES[o.ty])); }
            count("fault.write_failed");
        }
        if let Err(e) = (o.put)(&mut w, cm(*m)) { return viol("slow-stream", format!("writing a {} to a slow device failed: {e:?}", TYPES[o.ty])); }
        want.extend_from_slice(&o.enc[*m]);
        ends.push(want.len());
        if w.d != want { return viol("stream-differs", format!("writing a {} piecemeal gave other bytes than at once", TYPES[o.ty])); }
        count("objects_written");
    }
    count_n("fault.short_transfer", w.cnt.short);
    count_n("fault.interrupted_transfer", w.cnt.intr);
    log(format!("stream {si}: {} objects {:016x}", objs.len(), fnv(FNV0, &w.d)));
    for val in [Validate::Yes, Validate::No] {
        let mut r = FRead::new(&w.d, &rd);
        for (k, (o, m)) in objs.iter().enumerate() {
            // a read that fails part-way, then the same read again
            if p.chance(1, 2) && !o.enc[*m].is_empty() {
                let from = ends[k] - o.enc[*m].len();
                let mut bad = rd.clone();
                bad.fail_at = Some(p.below(o.enc[*m].len() as u64));
                bad.kind = p.below(4);
                let mut f = FRead::new(&w.d[from..], &bad);
                if get::<E>(o.ty, &mut f, cm(*m), val).is_ok() { return viol("error-swallowed", format!("reading a {} from a device that failed at byte {} of {} reported success", TYPES[o.ty], bad.fail_at.unwrap(), o.enc[*m].len())); }
                count("fault.read_failed");
            }
            match get::<E>(o.ty, &mut r, cm(*m), val) {
                Err(e) => return viol("lost", format!("a {} ({} bytes, object {k} of the stream) did not decode: {e:?}", TYPES[o.ty], o.enc[*m].len())),
                Ok((d, e)) => if d != o.dbg || e != o.enc { return viol("changed", format!("a {} decoded to another value: {} instead of {}", TYPES[o.ty], d.chars().take(200).collect::<String>(), o.dbg.chars().take(200).collect::<String>())); },
            }
            if r.pos != ends[k] { return viol("misplaced", format!("after reading a {} the stream stands at byte {} instead of {}", TYPES[o.ty], r.pos, ends[k])); }
            count("objects_read");
        }
        count_n("fault.short_transfer", r.cnt.short);
        count_n("fault.interrupted_transfer", r.cnt.intr);
    }
    // every way of ending early
    for (k, (o, m)) in objs.iter().enumerate() {
        let e = &o.enc[*m];
        let n = e.len();
        let cuts: Vec<usize> = if n <= 300 { (0..n).collect() } else { (0..60).map(|_| p.below(n as u64) as usize).chain([n - 1, n - 2]).collect() };
        for c in cuts {
            if get::<E>(o.ty, &e[..c], cm(*m), Validate::No).is_ok() { return viol("truncation-accepted", format!("the first {c} of {n} bytes of a {} (object {k}) decoded to a value", TYPES[o.ty])); }
            count("fault.truncated");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C10
struct Case { ty: usize, m: usize, bytes: Vec<u8>, io: IoPlan, how: String, invalid: bool, good: Vec<u8>, late: bool }
fn case<E: Eng>(h: &HostP, i: &Inst<E>, pf: &CProof<E>) -> Case {
    let o = make::<E>(&h.item, i, pf);
    let m = h.item.mode as usize % 2;
    let mut k = Case { ty: o.ty, m, bytes: o.enc[m].clone(), io: h.io.clone(), how: String::new(), invalid: false, good: o.enc[m].clone(), late: false };
    k.io.fail_at = None;
    let mut how = vec![];
    for c in &h.c {
        let n = k.bytes.len();
        let mut p = Prng::new(c.val ^ c.at.rotate_left(20));
        let at = if n == 0 { 0 } else { c.at as usize % n };
        k.late = false;
        let was = k.bytes.clone();
        match c.k % 11 {
            0 if n > 0 => { k.bytes[at] ^= 1 << (c.val % 8); how.push(format!("bit {} of byte {at} flipped", c.val % 8)); }
            1 if n > 0 => { let l = (1 + c.val as usize % 16).min(n - at); for x in &mut k.bytes[at..at + l] { *x = *p.pick(&[0u8, 0xff, 0x7f, 0x80, 1]); if c.val % 3 == 0 { *x = p.next() as u8 } } how.push(format!("{l} bytes at {at} overwritten")); }
            2 if n > 0 => { k.bytes.truncate(at); how.push(format!("cut to {at} of {n} bytes")); }
            3 => { for _ in 0..1 + c.val % 40 { k.bytes.push(p.next() as u8); } how.push("bytes appended".into()); }
            4 => { let q = make::<E>(&ItemP { ty: c.val, cut: c.at, mode: h.item.mode }, i, pf); let e = &q.enc[m]; if !e.is_empty() { let f = p.below(e.len() as u64) as usize; k.bytes.truncate(at); k.bytes.extend_from_slice(&e[f..]); how.push(format!("from byte {at} on replaced by byte {f}.. of a {}", TYPES[q.ty])); } }
            5 => {
                let ls: Vec<usize> = walk::<E>(k.ty, &k.bytes, cm(m)).leaves.iter().filter(|l| matches!(l.1, L)).map(|l| l.0).collect();
                if !ls.is_empty() {
                    let z = ls[c.at as usize % ls.len()];
                    let old = u64::from_le_bytes(k.bytes[z..z + 8].try_into().unwrap());
                    let new = match c.val % 9 { 0 => old.wrapping_add(1), 1 => old.wrapping_sub(1), 2 => 0, 3 => u64::MAX, 4 => 1 << 63, 5 => 1 << p.range(20, 62), 6 => p.next() >> p.below(60), 7 => (n as u64) / (1 + p.below(64)), _ => old << p.range(1, 8) };
                    k.bytes[z..z + 8].copy_from_slice(&new.to_le_bytes());
                    how.push(format!("length {old} at byte {z} replaced by {new}"));
                }
            }
            6 => {
                let w = walk::<E>(k.ty, &k.bytes, cm(m));
                let ls: Vec<(usize, Sc)> = w.leaves.into_iter().filter(|l| !matches!(l.1, L)).collect();
                // each form of element gets its share
                let forms: Vec<u8> = (0..5).filter(|f| ls.iter().any(|l| form(&l.1) == *f)).collect();
                let pick = if forms.is_empty() { 0 } else { *p.pick(&forms) };
                let ls: Vec<(usize, Sc)> = ls.into_iter().filter(|l| form(&l.1) == pick).collect();
                if w.end.is_some() && !ls.is_empty() {
                    let (z, s) = ls[c.at as usize % ls.len()].clone();
                    let l = leaf_len::<E>(&s, cm(m));
                    if let Some(x) = bad_leaf::<E>(&s, &k.bytes[z..z + l], cm(m), &mut p) {
                        k.bytes[z..z + l].copy_from_slice(&x);
                        how.push(format!("the {s:?} at byte {z} made invalid"));
                        k.late = how.len() == 1 && !matches!(s, Z | K);
                        count(match s { G1 => "probe.invalid_g1", G2 => "probe.invalid_g2", T => "probe.invalid_target", Z => "probe.unreduced_scalar", _ => "probe.unknown_kind" });
                    }
                }
            }
            7 => { let l = c.val as usize % 600; k.bytes = (0..l).map(|_| if c.at % 2 == 0 { p.next() as u8 } else { p.below(3) as u8 }).collect(); how.push(format!("{l} random bytes")); }
            8 => {
                let ls = walk::<E>(k.ty, &k.bytes, cm(m)).leaves;
                if ls.len() > 1 {
                    let (x, s) = ls[c.at as usize % ls.len()].clone();
                    let l = leaf_len::<E>(&s, cm(m));
                    let same: Vec<usize> = ls.iter().filter(|q| leaf_len::<E>(&q.1, cm(m)) == l && q.0 != x).map(|q| q.0).collect();
                    if !same.is_empty() { let y = *p.pick(&same); for q in 0..l { k.bytes.swap(x + q, y + q); } how.push(format!("{l} bytes at {x} and {y} exchanged")); }
                }
            }
            10 => {
                let w = walk::<E>(k.ty, &k.bytes, cm(m));
                let f = [0u8, 1, 2][p.below(3) as usize];
                let forms: Vec<u8> = (0..3).map(|x| (x + f) % 3).filter(|f| w.leaves.iter().filter(|l| form(&l.1) == *f).count() > 1).collect();
                if w.end.is_some() && !forms.is_empty() {
                    let mut ls: Vec<(usize, Sc)> = w.leaves.into_iter().filter(|l| form(&l.1) == forms[0]).collect();
                    let l = leaf_len::<E>(&ls[0].1, cm(m));
                    // neighbours, components of neighbours, or any
                    let step = match c.val % 3 { 0 => 1, 1 => 2, _ => p.range(1, ls.len() as u64) as usize };
                    let a = c.at as usize % ls.len();
                    let mut who = vec![a, (a + step) % ls.len()];
                    if p.chance(1, 4) { who.push((a + 2 * step) % ls.len()); }
                    if p.chance(1, 4) { who.reverse(); }
                    who.sort();
                    who.dedup();
                    if who.len() > 1 { if let Some(x) = defects::<E>(&ls[0].1, who.len(), &who.iter().map(|n| k.bytes[ls[*n].0..ls[*n].0 + l].to_vec()).collect::<Vec<_>>(), cm(m), &mut p) {
                        for (n, b) in who.iter().zip(x) { let z = ls[*n].0; k.bytes[z..z + l].copy_from_slice(&b); }
                        how.push(format!("{:?} at bytes {:?} moved off the subgroup by amounts that cancel out", ls[0].1, who.iter().map(|n| ls[*n].0).collect::<Vec<_>>()));
                        k.late = how.len() == 1;
                        count("probe.cancelling_defects");
                        ls.clear();
                    } }
                }
            }
            _ => { k.ty = c.val as usize % 19; how.push(format!("read as a {}", TYPES[k.ty])); }
        }
        if k.bytes != was { count("fault.corrupted_bytes"); }
    }
    k.how = how.join(", ");
    // is what arose decodable leaf by leaf?
    let w = walk::<E>(k.ty, &k.bytes, cm(m));
    let gw = walk::<E>(h.item.ty as usize % 19, &k.good, cm(m));
    let known_format = gw.end == Some(k.good.len());
    k.invalid = known_format && (w.end.is_none() || w.leaves.iter().any(|(z, s)| !leaf_ok::<E>(s, &k.bytes[*z..*z + leaf_len::<E>(s, cm(m))], cm(m), Validate::Yes)));
    if !known_format || w.end.is_none() { k.late = false; }
    k
}
fn cap(n: usize) -> u64 { (1 << 16) + 64 * n as u64 }
/// Decode what arrived; the text says what is wrong with the outcome ("" = nothing).
fn digest<E: Eng>(k: &Case) -> String {
    let c = cm(k.m);
    let mut r = FRead::new(&k.bytes, &k.io);
    arm_alloc_cap(cap(k.bytes.len()));
    let res = catch(|| get::<E>(k.ty, &mut r, c, Validate::Yes));
    disarm_alloc_cap();
    match res {
        Err(Caught::Panic(m)) => format!("panic:{m}"),
        Err(Caught::Injected) => "panic:?".into(),
        Ok(Err(_)) => String::new(),
        Ok(Ok((d, e))) => {
            if k.invalid { return format!("accepted:{}", d.chars().take(160).collect::<String>()); }
            match get::<E>(k.ty, &e[k.m][..], c, Validate::Yes) { Ok((d2, e2)) if d2 == d && e2 == e => String::new(), Ok(_) => "unstable:decoding its own encoding gives another value".into(), Err(x) => format!("unstable:its own encoding does not decode: {x:?}") }
        }
    }
}
fn hostile<E: Eng>(plan: &Value, b: &Body) -> Res {
    let i = b.inst.inst::<E>();
    let pf = i.honest();
    let cases: Vec<Case> = b.hosts.iter().map(|h| case::<E>(h, &i, &pf)).collect();
    let what = |n: usize, k: &Case| format!("case {n}: {} bytes as a {} ({}; {}): {}", k.bytes.len(), TYPES[k.ty], if k.m == 0 { "compressed" } else { "uncompressed" }, k.how, hex(&k.bytes));
    let judge = |n: usize, k: &Case, s: &str| -> Res {
        let (c, m) = s.split_once(':').unwrap_or((s, ""));
        match c { "" => Ok(()), "panic" => viol("decode-panic", format!("{}: decoding panicked: {m}", what(n, k))), "accepted" => viol("invalid-accepted", format!("{}: decoded although not every element is valid: {m}", what(n, k))), _ => viol("unstable", format!("{}: {m}", what(n, k))) }
    };
    let mut soft = vec![];
    for (n, k) in cases.iter().enumerate() {
        if !walk::<E>(k.ty, &k.bytes, cm(k.m)).hostile { continue; }
        // lengths that the supplied bytes cannot fill: on a machine of its own, as it may die
        shared().oversize.store(0, SeqCst);
        let r = in_fresh_process(&Sched::sequential(), || { let s = digest::<E>(k); s.into_bytes() });
        count("probe.hostile_length");
        let os = shared().oversize.swap(0, SeqCst);
        let r = match r { Err(ref e) if e == "no output" => Ok(vec![]), r => r };
        match r {
            Ok(s) => {
                let s = String::from_utf8_lossy(&s).into_owned();
                if s.starts_with("panic:") && s.contains("capacity overflow") { soft.push((k.ty, format!("{}: decoding panicked: {}", what(n, k), &s[6..]))); continue; }
                judge(n, k, &s)?;
                count("hostile_length_refused");
            }
            Err(e) if os > 0 && (e.contains("signal 6") || e.contains("capacity")) => soft.push((k.ty, format!("{}: the process died on an allocation of {os} bytes", what(n, k)))),
            Err(e) => return viol("decode-crash", format!("{}: {e}", what(n, k))),
        }
    }
    begin(plan);
    sample(json!({"engine": E::NAME, "cases": cases.iter().map(|k| json!([TYPES[k.ty], k.m == 0, k.how])).collect::<Vec<_>>()}));
    nontrivial();
    for (ty, m) in soft { soft_viol(&format!("hostile-length-{}", TYPES[ty]), m); }
    for (n, k) in cases.iter().enumerate() {
        if walk::<E>(k.ty, &k.bytes, cm(k.m)).hostile { continue; }
        let s = digest::<E>(k);
        log(format!("case {n}: {:016x} {s}", fnv(FNV0, &k.bytes)));
        judge(n, k, &s)?;
        if k.late {
            match late::<E>(k.ty, &k.bytes, cm(k.m), &k.good) { Ok(true) => return viol("invalid-accepted", format!("{}: validating the decoded value finds nothing wrong", what(n, k))), _ => count("late_validations") }
        }
        count("hostile_decodes");
        if k.invalid { count("invalid_refused"); }
    }
    // again and again
    if let Some(n) = (0..cases.len()).filter(|n| { let k = &cases[*n]; !walk::<E>(k.ty, &k.bytes, cm(k.m)).hostile && k.bytes.len() < 2000 }).max_by_key(|n| cases[*n].invalid) {
        for _ in 0..b.again.min(ROW) { let s = digest::<E>(&cases[n]); judge(n, &cases[n], &s)?; count("decoded_again"); }
    }
    Ok(())
}

pub fn exec<E: Eng>(plan: &Value) -> Res {
    let b: Body = serde_json::from_value(plan["body"].clone()).unwrap();
    if plan["prop"] == "C10" { return hostile::<E>(plan, &b); }
    begin(plan);
    let i = b.inst.inst::<E>();
    let pf = i.honest();
    sample(json!({"engine": E::NAME, "streams": b.streams.iter().map(|s| s.iter().map(|x| TYPES[x.ty as usize % 19]).collect::<Vec<_>>()).collect::<Vec<_>>(), "write_chunks": b.wr.chunks, "read_chunks": b.rd.chunks}));
    nontrivial();
    // streams are served concurrently
    let rs: Vec<Result<Res, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = b.streams.iter().enumerate().map(|(n, st)| { let (b, i, pf) = (&b, &i, &pf); s.spawn(move || stream::<E>(n, st, b, i, pf)) }).collect();
        hs.into_iter().map(|h| h.join().map_err(|_| last_panic())).collect()
    });
    for r in rs { match r { Ok(r) => r?, Err(m) => return viol("panic", m) } }
    if let Some(it) = b.streams.iter().flatten().next() {
        // again and again
        let o = make::<E>(it, &i, &pf);
        for k in 0..b.again.min(ROW) {
            let m = k as usize & 1;
            let mut w = FWrite::new(&IoPlan::default());
            if (o.put)(&mut w, cm(m)).is_err() || w.d != o.enc[m] { return viol("stream-differs", format!("time {k} of a row a {} was written differently", TYPES[o.ty])); }
            match get::<E>(o.ty, &w.d[..], cm(m), if k & 2 == 0 { Validate::Yes } else { Validate::No }) {
                Ok((d, e)) if d == o.dbg && e == o.enc => {}
                Ok(_) => return viol("changed", format!("time {k} of a row a {} decoded to another value", TYPES[o.ty])),
                Err(e) => return viol("lost", format!("time {k} of a row a {} did not decode: {e:?}", TYPES[o.ty])),
            }
            count("objects_repeated");
        }
    }
    Ok(())
}
