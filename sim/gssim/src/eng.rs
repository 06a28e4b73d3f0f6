//! Engine-generic view of the library: instances written by discrete logarithms, the four
//! equation kinds behind one type, codecs for everything that travels, and the independent
//! oracles (sequential verification equation, extraction with the trapdoor).
#![allow(non_snake_case)]
use crate::toy::{Toy, T1, T2};
use crate::util::*;
use ark_ec::pairing::{Pairing, PairingOutput};
use ark_ec::{AffineRepr, CurveGroup, PrimeGroup};
use ark_ff::{Field, One, PrimeField, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, SerializationError, Validate};
use groth_sahai::prover::*;
use groth_sahai::statement::*;
use groth_sahai::verifier::Verifiable;
use groth_sahai::*;
use serde::{Deserialize, Serialize};

pub type F<E> = <E as Pairing>::ScalarField;
pub type A1<E> = <E as Pairing>::G1Affine;
pub type A2<E> = <E as Pairing>::G2Affine;
pub type Gt<E> = PairingOutput<E>;

pub trait Eng: Pairing {
    const NAME: &'static str;
    const TOY: bool;
    fn gt(k: &F<Self>) -> Gt<Self>;
    fn d1(x: &A1<Self>) -> Option<F<Self>>;
    fn d2(x: &A2<Self>) -> Option<F<Self>>;
    fn g1(k: &F<Self>) -> A1<Self> { (Self::G1::generator() * *k).into_affine() }
    fn g2(k: &F<Self>) -> A2<Self> { (Self::G2::generator() * *k).into_affine() }
}
impl Eng for Toy {
    const NAME: &'static str = "toy";
    const TOY: bool = true;
    fn gt(k: &F<Self>) -> Gt<Self> { crate::toy::gt_pow(k) }
    fn d1(x: &T1) -> Option<F<Self>> { Some(x.a) }
    fn d2(x: &T2) -> Option<F<Self>> { Some(x.a) }
}
pub type Bls = ark_bls12_381::Bls12_381;
static mut BLS_GT: Option<Gt<Bls>> = None;
#[allow(static_mut_refs)]
impl Eng for Bls {
    const NAME: &'static str = "bls12-381";
    const TOY: bool = false;
    fn gt(k: &F<Self>) -> Gt<Self> { unsafe { *BLS_GT.get_or_insert_with(|| Bls::pairing(A1::<Bls>::generator(), A2::<Bls>::generator())) * k } }
    fn d1(_: &A1<Self>) -> Option<F<Self>> { None }
    fn d2(_: &A2<Self>) -> Option<F<Self>> { None }
}
pub fn init() { crate::toy::init(); let _ = Bls::gt(&F::<Bls>::one()); }

// ------------------------------------------------------------------ reference strings
#[derive(Clone, Copy, Debug)]
pub struct Td<E: Pairing> { pub p1: F<E>, pub a1: F<E>, pub t1: F<E>, pub p2: F<E>, pub a2: F<E>, pub t2: F<E> }
#[derive(Clone, Debug)]
pub struct Key<E: Pairing> { pub crs: CRS<E>, pub td: Option<Td<E>>, pub binding: bool }

/// CRS plan: 0 = generated by the library (binding), 1 = binding built here from known trapdoors,
/// 2 = hiding built here from known trapdoors.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct CrsPlan { pub kind: u64, pub seed: u64, pub alter: u64 }
impl CrsPlan {
    pub fn gen(p: &mut Prng, hiding: bool) -> CrsPlan { CrsPlan { kind: if hiding { 2 } else { p.below(2) }, seed: p.next() >> 16, alter: 0 } }
}
/// A reference string; with `alter`, one that differs from the plan's in a single element.
pub fn make_crs<E: Eng>(pl: &CrsPlan) -> Key<E> {
    let mut k = make_crs_plain::<E>(pl);
    if pl.alter == 0 { return k; }
    let z = F::<E>::from(pl.alter);
    let (d1, d2, c) = (E::g1(&z), E::g2(&z), &mut k.crs);
    let add1 = |x: &mut A1<E>| *x = (x.into_group() + d1).into_affine();
    let add2 = |x: &mut A2<E>| *x = (x.into_group() + d2).into_affine();
    match pl.alter % 11 {
        0 => add1(&mut c.u[0].0), 1 => add1(&mut c.u[0].1), 2 => add1(&mut c.u[1].0), 3 => add1(&mut c.u[1].1),
        4 => add2(&mut c.v[0].0), 5 => add2(&mut c.v[0].1), 6 => add2(&mut c.v[1].0), 7 => add2(&mut c.v[1].1),
        8 => add1(&mut c.g1_gen), 9 => add2(&mut c.g2_gen), _ => c.gt_gen = E::gt(&z),
    }
    k.td = None;
    k.binding = false;
    k
}
fn make_crs_plain<E: Eng>(pl: &CrsPlan) -> Key<E> {
    if pl.kind == 0 {
        let mut c = Coins::new(pl.seed);
        let crs = CRS::<E>::generate_crs(&mut c);
        let td = td_of(&crs);
        return Key { crs, td, binding: true };
    }
    let mut p = Prng::new(pl.seed);
    let mut v = || sc::<F<E>>((16 + (p.next() >> 20)) << 1);
    let td = Td::<E> { p1: v(), a1: v(), t1: v(), p2: v(), a2: v(), t2: v() };
    let hid = if pl.kind == 2 { F::<E>::one() } else { F::<E>::zero() };
    let crs = CRS::<E> {
        u: vec![Com1(E::g1(&td.p1), E::g1(&(td.p1 * td.a1))), Com1(E::g1(&(td.p1 * td.t1)), E::g1(&(td.p1 * td.a1 * td.t1 - td.p1 * hid)))],
        v: vec![Com2(E::g2(&td.p2), E::g2(&(td.p2 * td.a2))), Com2(E::g2(&(td.p2 * td.t2)), E::g2(&(td.p2 * td.a2 * td.t2 - td.p2 * hid)))],
        g1_gen: E::g1(&td.p1),
        g2_gen: E::g2(&td.p2),
        gt_gen: E::gt(&(td.p1 * td.p2)),
    };
    Key { crs, td: Some(td), binding: pl.kind != 2 }
}
/// Trapdoors of a binding key whose discrete logarithms are visible.
pub fn td_of<E: Eng>(c: &CRS<E>) -> Option<Td<E>> {
    if c.u.len() != 2 || c.v.len() != 2 { return None; }
    let (u00, u01, u10) = (E::d1(&c.u[0].0)?, E::d1(&c.u[0].1)?, E::d1(&c.u[1].0)?);
    let (v00, v01, v10) = (E::d2(&c.v[0].0)?, E::d2(&c.v[0].1)?, E::d2(&c.v[1].0)?);
    Some(Td { p1: E::d1(&c.g1_gen)?, a1: u01 * u00.inverse()?, t1: u10 * u00.inverse()?, p2: E::d2(&c.g2_gen)?, a2: v01 * v00.inverse()?, t2: v10 * v00.inverse()? })
}

// ------------------------------------------------------------------ variables
#[derive(Clone, Debug, PartialEq)]
pub enum XV<E: Pairing> { G(Vec<A1<E>>), S(Vec<F<E>>) }
#[derive(Clone, Debug, PartialEq)]
pub enum YV<E: Pairing> { G(Vec<A2<E>>), S(Vec<F<E>>) }
impl<E: Eng> XV<E> {
    pub fn new(kind: u8, d: &[F<E>]) -> Self { if kind < 2 { XV::G(d.iter().map(E::g1).collect()) } else { XV::S(d.to_vec()) } }
    pub fn commit(&self, k: &CRS<E>, c: &mut Coins) -> Commit1<E> { match self { XV::G(v) => batch_commit_G1(v, k, c), XV::S(v) => batch_commit_scalar_to_B1(v, k, c) } }
    pub fn commit_one(&self, i: usize, k: &CRS<E>, c: &mut Coins) -> Commit1<E> { match self { XV::G(v) => commit_G1(&v[i], k, c), XV::S(v) => commit_scalar_to_B1(&v[i], k, c) } }
    pub fn sub(&self, idx: &[usize]) -> Self { match self { XV::G(v) => XV::G(idx.iter().map(|i| v[*i]).collect()), XV::S(v) => XV::S(idx.iter().map(|i| v[*i]).collect()) } }
    pub fn len(&self) -> usize { match self { XV::G(v) => v.len(), XV::S(v) => v.len() } }
}
impl<E: Eng> YV<E> {
    pub fn new(kind: u8, d: &[F<E>]) -> Self { if kind % 2 == 0 { YV::G(d.iter().map(E::g2).collect()) } else { YV::S(d.to_vec()) } }
    pub fn commit(&self, k: &CRS<E>, c: &mut Coins) -> Commit2<E> { match self { YV::G(v) => batch_commit_G2(v, k, c), YV::S(v) => batch_commit_scalar_to_B2(v, k, c) } }
    pub fn commit_one(&self, i: usize, k: &CRS<E>, c: &mut Coins) -> Commit2<E> { match self { YV::G(v) => commit_G2(&v[i], k, c), YV::S(v) => commit_scalar_to_B2(&v[i], k, c) } }
    pub fn sub(&self, idx: &[usize]) -> Self { match self { YV::G(v) => YV::G(idx.iter().map(|i| v[*i]).collect()), YV::S(v) => YV::S(idx.iter().map(|i| v[*i]).collect()) } }
    pub fn len(&self) -> usize { match self { YV::G(v) => v.len(), YV::S(v) => v.len() } }
}

// ------------------------------------------------------------------ equations
/// An equation by discrete logarithms: t = a.y + x.b + x^T g y  (+ toff when the statement is false).
#[derive(Clone, Debug)]
pub struct EqD<E: Pairing> { pub kind: u8, pub a: Vec<F<E>>, pub b: Vec<F<E>>, pub g: Vec<Vec<F<E>>>, pub t: F<E> }
impl<E: Eng> EqD<E> {
    pub fn lhs(&self, x: &[F<E>], y: &[F<E>]) -> F<E> {
        let mut s = F::<E>::zero();
        for (a, y) in self.a.iter().zip(y) { s += *a * y; }
        for (b, x) in self.b.iter().zip(x) { s += *b * x; }
        for (r, x) in self.g.iter().zip(x) { for (g, y) in r.iter().zip(y) { s += *g * x * y; } }
        s
    }
    pub fn build(&self) -> Eqn<E> {
        let gamma = self.g.clone();
        match self.kind {
            0 => Eqn::P(PPE { a_consts: self.a.iter().map(E::g1).collect(), b_consts: self.b.iter().map(E::g2).collect(), gamma, target: E::gt(&self.t) }),
            1 => Eqn::M1(MSMEG1 { a_consts: self.a.iter().map(E::g1).collect(), b_consts: self.b.clone(), gamma, target: E::g1(&self.t) }),
            2 => Eqn::M2(MSMEG2 { a_consts: self.a.clone(), b_consts: self.b.iter().map(E::g2).collect(), gamma, target: E::g2(&self.t) }),
            _ => Eqn::Q(QuadEqu { a_consts: self.a.clone(), b_consts: self.b.clone(), gamma, target: self.t }),
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Eqn<E: Pairing> { P(PPE<E>), M1(MSMEG1<E>), M2(MSMEG2<E>), Q(QuadEqu<E>) }
pub const KINDS: [&str; 4] = ["PPE", "MSMEG1", "MSMEG2", "Quad"];

/// How many (pi, theta) elements the proof of a kind has.
pub fn shape(kind: u8) -> (usize, usize) { [(2, 2), (2, 1), (1, 2), (1, 1)][kind as usize] }

macro_rules! each { ($s:expr, $q:ident => $e:expr) => { match $s { Eqn::P($q) => $e, Eqn::M1($q) => $e, Eqn::M2($q) => $e, Eqn::Q($q) => $e } } }
impl<E: Eng> Eqn<E> {
    pub fn kind(&self) -> u8 { match self { Eqn::P(_) => 0, Eqn::M1(_) => 1, Eqn::M2(_) => 2, Eqn::Q(_) => 3 } }
    pub fn get_type(&self) -> EquType { match self { Eqn::P(q) => q.get_type(), Eqn::M1(q) => q.get_type(), Eqn::M2(q) => q.get_type(), Eqn::Q(q) => q.get_type() } }
    pub fn gamma(&self) -> &Matrix<F<E>> { each!(self, q => &q.gamma) }
    pub fn gamma_mut(&mut self) -> &mut Matrix<F<E>> { each!(self, q => &mut q.gamma) }
    pub fn commit_and_prove(&self, x: &XV<E>, y: &YV<E>, k: &CRS<E>, c: &mut Coins) -> CProof<E> {
        match (self, x, y) {
            (Eqn::P(q), XV::G(x), YV::G(y)) => q.commit_and_prove(x, y, k, c),
            (Eqn::M1(q), XV::G(x), YV::S(y)) => q.commit_and_prove(x, y, k, c),
            (Eqn::M2(q), XV::S(x), YV::G(y)) => q.commit_and_prove(x, y, k, c),
            (Eqn::Q(q), XV::S(x), YV::S(y)) => q.commit_and_prove(x, y, k, c),
            _ => unreachable!("variable kinds"),
        }
    }
    pub fn prove(&self, x: &XV<E>, y: &YV<E>, xc: &Commit1<E>, yc: &Commit2<E>, k: &CRS<E>, c: &mut Coins) -> EquProof<E> {
        match (self, x, y) {
            (Eqn::P(q), XV::G(x), YV::G(y)) => q.prove(x, y, xc, yc, k, c),
            (Eqn::M1(q), XV::G(x), YV::S(y)) => q.prove(x, y, xc, yc, k, c),
            (Eqn::M2(q), XV::S(x), YV::G(y)) => q.prove(x, y, xc, yc, k, c),
            (Eqn::Q(q), XV::S(x), YV::S(y)) => q.prove(x, y, xc, yc, k, c),
            _ => unreachable!("variable kinds"),
        }
    }
    pub fn verify(&self, p: &CProof<E>, k: &CRS<E>) -> bool { each!(self, q => q.verify(p, k)) }
    pub fn ser(&self, c: Compress) -> Vec<u8> { each!(self, q => ser(q, c)) }
    pub fn de(kind: u8, b: &[u8], c: Compress) -> Result<Self, SerializationError> {
        Ok(match kind { 0 => Eqn::P(de(b, c)?), 1 => Eqn::M1(de(b, c)?), 2 => Eqn::M2(de(b, c)?), _ => Eqn::Q(de(b, c)?) })
    }

    // ---------------------------------------------------------------- oracle: the verification equation
    /// The constants as elements of the commitment groups, written independently of the library.
    fn emb_a(&self, k: &CRS<E>) -> Vec<Com1<E>> {
        match self {
            Eqn::P(q) => q.a_consts.iter().map(|a| emb1(a)).collect(),
            Eqn::M1(q) => q.a_consts.iter().map(|a| emb1(a)).collect(),
            Eqn::M2(q) => q.a_consts.iter().map(|a| semb1(a, k)).collect(),
            Eqn::Q(q) => q.a_consts.iter().map(|a| semb1(a, k)).collect(),
        }
    }
    fn emb_b(&self, k: &CRS<E>) -> Vec<Com2<E>> {
        match self {
            Eqn::P(q) => q.b_consts.iter().map(|a| emb2(a)).collect(),
            Eqn::M2(q) => q.b_consts.iter().map(|a| emb2(a)).collect(),
            Eqn::M1(q) => q.b_consts.iter().map(|a| semb2(a, k)).collect(),
            Eqn::Q(q) => q.b_consts.iter().map(|a| semb2(a, k)).collect(),
        }
    }
    pub fn dims(&self) -> (usize, usize) { each!(self, q => (q.b_consts.len(), q.a_consts.len())) }
    pub fn well_shaped(&self, p: &CProof<E>) -> bool {
        let (m, n) = self.dims();
        let (lp, lt) = shape(self.kind());
        p.equ_proofs.len() == 1
            && p.equ_proofs[0].equ_type == self.get_type()
            && p.equ_proofs[0].pi.len() == lp
            && p.equ_proofs[0].theta.len() == lt
            && p.xcoms.coms.len() == m
            && p.ycoms.coms.len() == n
            && self.gamma().len() == m
            && self.gamma().iter().all(|r| r.len() == n)
    }
    /// Residue of the verification equation in the four components (all zero = holds).
    pub fn residue(&self, p: &CProof<E>, k: &CRS<E>) -> [Gt<E>; 4] {
        let mut l: Vec<Com1<E>> = vec![];
        let mut r: Vec<Com2<E>> = vec![];
        let (m, n) = self.dims();
        for (a, y) in self.emb_a(k).into_iter().zip(&p.ycoms.coms) { l.push(a); r.push(*y); }
        for (x, b) in p.xcoms.coms.iter().zip(self.emb_b(k)) { l.push(*x); r.push(b); }
        for i in 0..m {
            let mut s = (E::G2::zero(), E::G2::zero());
            for j in 0..n {
                let g = self.gamma()[i][j];
                if g.is_zero() { continue; }
                s.0 += p.ycoms.coms[j].0.into_group() * g;
                s.1 += p.ycoms.coms[j].1.into_group() * g;
            }
            l.push(p.xcoms.coms[i]);
            r.push(Com2(s.0.into(), s.1.into()));
        }
        let neg1 = |c: &Com1<E>| Com1::<E>((-c.0.into_group()).into(), (-c.1.into_group()).into());
        let q = &p.equ_proofs[0];
        for (u, pi) in k.u.iter().zip(&q.pi) { l.push(neg1(u)); r.push(*pi); }
        for (th, v) in q.theta.iter().zip(&k.v) { l.push(neg1(th)); r.push(*v); }
        let mut tt = [Gt::<E>::zero(); 4];
        match self {
            Eqn::P(s) => tt[3] = s.target,
            Eqn::M1(s) => { l.push(neg1(&emb1(&s.target))); r.push(semb2(&F::<E>::one(), k)); }
            Eqn::M2(s) => { l.push(neg1(&semb1(&F::<E>::one(), k))); r.push(emb2(&s.target)); }
            Eqn::Q(s) => { l.push(neg1(&semb1(&s.target, k))); r.push(semb2(&F::<E>::one(), k)); }
        }
        let mp = |f: &dyn Fn(&Com1<E>) -> A1<E>, g: &dyn Fn(&Com2<E>) -> A2<E>| E::multi_pairing(l.iter().map(|x| f(x)), r.iter().map(|x| g(x)));
        [mp(&|x| x.0, &|y| y.0) - tt[0], mp(&|x| x.0, &|y| y.1) - tt[1], mp(&|x| x.1, &|y| y.0) - tt[2], mp(&|x| x.1, &|y| y.1) - tt[3]]
    }
    pub fn ref_verify(&self, p: &CProof<E>, k: &CRS<E>) -> bool { self.well_shaped(p) && self.residue(p, k).iter().all(|z| z.is_zero()) }

    // ---------------------------------------------------------------- oracle: extraction
    /// Do the values inside the commitments satisfy the statement?  (binding key with trapdoor)
    pub fn extracted_holds(&self, xc: &[Com1<E>], yc: &[Com2<E>], k: &CRS<E>, td: &Td<E>) -> bool {
        let xs: Vec<E::G1> = xc.iter().map(|c| open1(c, td)).collect();
        let ys: Vec<E::G2> = yc.iter().map(|c| open2(c, td)).collect();
        let mut l: Vec<E::G1> = vec![];
        let mut r: Vec<E::G2> = vec![];
        let (m, n) = self.dims();
        if xs.len() != m || ys.len() != n { return false; }
        let a: Vec<E::G1> = match self {
            Eqn::P(q) => q.a_consts.iter().map(|z| z.into_group()).collect(),
            Eqn::M1(q) => q.a_consts.iter().map(|z| z.into_group()).collect(),
            Eqn::M2(q) => q.a_consts.iter().map(|z| k.g1_gen.into_group() * *z).collect(),
            Eqn::Q(q) => q.a_consts.iter().map(|z| k.g1_gen.into_group() * *z).collect(),
        };
        let b: Vec<E::G2> = match self {
            Eqn::P(q) => q.b_consts.iter().map(|z| z.into_group()).collect(),
            Eqn::M2(q) => q.b_consts.iter().map(|z| z.into_group()).collect(),
            Eqn::M1(q) => q.b_consts.iter().map(|z| k.g2_gen.into_group() * *z).collect(),
            Eqn::Q(q) => q.b_consts.iter().map(|z| k.g2_gen.into_group() * *z).collect(),
        };
        for (a, y) in a.into_iter().zip(&ys) { l.push(a); r.push(*y); }
        for i in 0..m {
            let mut s = b[i];
            for j in 0..n { let g = self.gamma()[i][j]; if !g.is_zero() { s += ys[j] * g; } }
            l.push(xs[i]);
            r.push(s);
        }
        let t = match self {
            Eqn::P(q) => q.target,
            Eqn::M1(q) => E::pairing(q.target, k.g2_gen),
            Eqn::M2(q) => E::pairing(k.g1_gen, q.target),
            Eqn::Q(q) => E::pairing(k.g1_gen, k.g2_gen) * q.target,
        };
        let l: Vec<A1<E>> = l.into_iter().map(|z| z.into_affine()).collect();
        let r: Vec<A2<E>> = r.into_iter().map(|z| z.into_affine()).collect();
        E::multi_pairing(l, r) == t
    }
}
pub fn emb1<E: Eng>(a: &A1<E>) -> Com1<E> { Com1(A1::<E>::zero(), *a) }
pub fn emb2<E: Eng>(a: &A2<E>) -> Com2<E> { Com2(A2::<E>::zero(), *a) }
pub fn semb1<E: Eng>(a: &F<E>, k: &CRS<E>) -> Com1<E> { Com1((k.u[1].0.into_group() * *a).into(), ((k.u[1].1.into_group() + k.g1_gen) * *a).into()) }
pub fn semb2<E: Eng>(a: &F<E>, k: &CRS<E>) -> Com2<E> { Com2((k.v[1].0.into_group() * *a).into(), ((k.v[1].1.into_group() + k.g2_gen) * *a).into()) }
pub fn open1<E: Eng>(c: &Com1<E>, td: &Td<E>) -> E::G1 { c.1.into_group() - c.0.into_group() * td.a1 }
pub fn open2<E: Eng>(c: &Com2<E>, td: &Td<E>) -> E::G2 { c.1.into_group() - c.0.into_group() * td.a2 }

// ------------------------------------------------------------------ codecs
pub fn ser<T: CanonicalSerialize>(t: &T, c: Compress) -> Vec<u8> { let mut v = vec![]; t.serialize_with_mode(&mut v, c).expect("serialising into memory"); v }
pub fn serc<T: CanonicalSerialize>(t: &T) -> Vec<u8> { ser(t, Compress::Yes) }
pub fn de<T: CanonicalDeserialize>(b: &[u8], c: Compress) -> Result<T, SerializationError> { T::deserialize_with_mode(b, c, Validate::Yes) }
pub fn comp(b: bool) -> Compress { if b { Compress::Yes } else { Compress::No } }
/// All bytes of a proof bundle, public and private parts (for comparing runs).
pub fn cproof_bytes<E: Eng>(p: &CProof<E>) -> Vec<u8> {
    let mut v = serc(&p.xcoms);
    v.extend(serc(&p.ycoms));
    v.extend((p.equ_proofs.len() as u64).to_le_bytes());
    for q in &p.equ_proofs { v.extend(serc(q)); }
    v
}

// ------------------------------------------------------------------ instance plans
/// One equation by scalar specs (normalised when instantiated, so every plan is executable).
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct EqP { pub kind: u64, pub a: Vec<u64>, pub b: Vec<u64>, pub g: Vec<Vec<u64>>, pub toff: u64, /** adjust a constant so that the target is zero / the identity */ pub tz: u64 }
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct InstP { pub crs: CrsPlan, pub x: Vec<u64>, pub y: Vec<u64>, pub eq: EqP, pub coins: u64, /** values, constants and target are elements of the reference string here and there */ pub rel: u64 }
impl EqP {
    pub fn gen(p: &mut Prng, kind: u64, m: usize, n: usize) -> EqP {
        let (sa, sb, sg) = (p.below(5), p.below(5), p.below(6));
        let mut g: Vec<Vec<u64>> = (0..m).map(|_| (0..n).map(|_| if sg == 5 { 0 } else { gen_spec(p, sg) }).collect()).collect();
        // sometimes make whole rows / columns vanish or coincide
        if p.chance(1, 4) { let i = p.below(m as u64) as usize; for z in g[i].iter_mut() { *z = 0; } }
        if p.chance(1, 4) { let j = p.below(n as u64) as usize; for r in g.iter_mut() { r[j] = 0; } }
        if m > 1 && p.chance(1, 6) { g[m - 1] = g[0].clone(); }
        let vec_of = |p: &mut Prng, s: u64, k: usize| (0..k).map(|_| if p.chance(1, 40) { 0 } else { gen_spec(p, s) }).collect::<Vec<_>>();
        let mut a = vec_of(p, sa, n);
        let mut b = vec_of(p, sb, m);
        if p.chance(1, 10) { a.iter_mut().for_each(|z| *z = 0); }
        if p.chance(1, 10) { b.iter_mut().for_each(|z| *z = 0); }
        let tz = if p.chance(1, 6) { 1 + p.below(16) } else { 0 };
        EqP { kind, a, b, g, toff: 0, tz }
    }
    pub fn norm<E: Eng>(&self, x: &[F<E>], y: &[F<E>]) -> EqD<E> {
        let (m, n) = (x.len(), y.len());
        let get = |v: &Vec<u64>, i: usize| sc::<F<E>>(v.get(i).copied().unwrap_or(0));
        let z = vec![];
        let mut e = EqD::<E> { kind: (self.kind % 4) as u8, a: (0..n).map(|j| get(&self.a, j)).collect(), b: (0..m).map(|i| get(&self.b, i)).collect(),
            g: (0..m).map(|i| { let r = self.g.get(i).unwrap_or(&z); (0..n).map(|j| get(r, j)).collect() }).collect(), t: F::<E>::zero() };
        if self.tz != 0 {
            let l = e.lhs(x, y);
            let k = self.tz as usize;
            if let Some(i) = (0..m).map(|q| (q + k) % m).find(|i| !x[*i].is_zero()).filter(|_| k & 1 == 0 || y.iter().all(|z| z.is_zero())) { e.b[i] -= l / x[i]; }
            else if let Some(j) = (0..n).map(|q| (q + k) % n).find(|j| !y[*j].is_zero()) { e.a[j] -= l / y[j]; }
        }
        e.t = e.lhs(x, y) + sc::<F<E>>(self.toff);
        e
    }
}
pub fn vars<E: Eng>(v: &[u64]) -> Vec<F<E>> { let w: Vec<F<E>> = v.iter().map(|s| sc(*s)).collect(); if w.is_empty() { vec![F::<E>::zero()] } else { w } }
pub struct Inst<E: Pairing> { pub key: Key<E>, pub x: Vec<F<E>>, pub y: Vec<F<E>>, pub d: EqD<E>, pub eq: Eqn<E>, pub xv: XV<E>, pub yv: YV<E>, pub coins: u64, pub rel: u64 }
impl InstP {
    pub fn gen(p: &mut Prng, toy: bool, tier_big: u64, hiding: bool) -> InstP {
        let (m, n) = gen_dims(p, toy, tier_big);
        let kind = p.below(4);
        let (sx, sy) = (p.below(5), p.below(5));
        InstP { crs: CrsPlan::gen(p, hiding), x: (0..m).map(|_| gen_spec(p, sx)).collect(), y: (0..n).map(|_| gen_spec(p, sy)).collect(), eq: EqP::gen(p, kind, m, n), coins: p.next() >> 16 | if p.chance(1, 10) { p.range(1, 4) << 56 } else { 0 }, rel: if p.chance(1, 10) { 1 + (p.next() >> 20) } else { 0 } }
    }
    pub fn inst<E: Eng>(&self) -> Inst<E> { self.inst_with(make_crs::<E>(&self.crs)) }
    pub fn inst_with<E: Eng>(&self, key: Key<E>) -> Inst<E> {
        let (mut x, mut y) = (vars::<E>(&self.x), vars::<E>(&self.y));
        let mut d;
        match key.td {
            Some(td) if self.rel != 0 => {
                count("probe.values_from_the_reference_string");
                let mut p = Prng::new(self.rel);
                let o = F::<E>::one();
                let hid = if key.binding { F::<E>::zero() } else { o };
                let side = |q: F<E>, a: F<E>, t: F<E>| (vec![q, q * a, q * t, q * a * t - q * hid, o, -q, q * a * t - q * hid + q], vec![t, a, q, o, -t, -o]);
                let ((g1, s1), (g2, s2)) = (side(td.p1, td.a1, td.t1), side(td.p2, td.a2, td.t2));
                let k = (self.eq.kind % 4) as u8;
                let mix = |p: &mut Prng, v: &mut Vec<F<E>>, from: &Vec<F<E>>, den: u64| for z in v.iter_mut() { if p.chance(1, den) { *z = *p.pick(from); } };
                let den = p.range(1, 4);
                let (fx, fy) = (if k < 2 { &g1 } else { &s1 }, if k % 2 == 0 { &g2 } else { &s2 });
                mix(&mut p, &mut x, fx, den);
                mix(&mut p, &mut y, fy, den);
                d = self.eq.norm::<E>(&x, &y);
                if self.eq.tz == 0 {
                    // constants stand on the side that their variable's partner lives on
                    mix(&mut p, &mut d.a, fx, den + 1);
                    mix(&mut p, &mut d.b, fy, den + 1);
                    for r in d.g.iter_mut() { let f = if p.chance(1, 2) { &s1 } else { &s2 }; mix(&mut p, r, f, den + 2); }
                    d.t = d.lhs(&x, &y);
                    if p.chance(1, 2) {
                        // the target is the generator of its group in the reference string, or an element of it
                        let w = match k { 0 => td.p1 * td.p2, 1 => *p.pick(&g1), 2 => *p.pick(&g2), _ => o };
                        let l = w - d.t;
                        if let Some(i) = x.iter().position(|z| !z.is_zero()) { d.b[i] += l / x[i]; d.t = w; }
                    }
                    d.t += sc::<F<E>>(self.eq.toff);
                }
            }
            _ => d = self.eq.norm::<E>(&x, &y),
        }
        let eq = d.build();
        Inst { key, xv: XV::new(d.kind, &x), yv: YV::new(d.kind, &y), x, y, d, eq, coins: self.coins, rel: self.rel }
    }
}
/// Dimensions: mostly small, all small shapes likely, occasionally past every plausible block size.
pub fn gen_dims(p: &mut Prng, toy: bool, big: u64) -> (usize, usize) {
    if !toy { return (p.range(1, 3) as usize, p.range(1, 3) as usize); }
    let one = |p: &mut Prng| match p.below(100) { 0..=69 => p.range(1, 5), 70..=89 => p.range(1, 9), 90..=96 => p.range(9, 20), _ => p.range(15, 40) };
    let (mut m, mut n) = (one(p), one(p));
    if big > 0 && p.below(1000) < big {
        let l = *p.pick(&[31u64, 32, 33, 48, 63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 255, 256, 257]);
        if p.chance(1, 2) { m = l; n = n.min(6); } else { n = l; m = m.min(6); }
        if l <= 66 && p.chance(1, 6) { m = l; n = l; }
        // now and then by the hundreds
        if p.chance(1, 5) {
            let l = *p.pick(&[300u64, 400, 511, 512, 513, 600, 777, 1000, 1023, 1024, 1025, 1030]);
            if p.chance(1, 2) { m = l; n = p.range(1, 2); } else { n = l; m = p.range(1, 2); }
        }
    }
    (m as usize, n as usize)
}
impl<E: Eng> Inst<E> {
    pub fn describe(&self) -> serde_json::Value {
        serde_json::json!({"engine": E::NAME, "kind": KINDS[self.d.kind as usize], "m": self.x.len(), "n": self.y.len(), "binding": self.key.binding})
    }
    pub fn honest(&self) -> CProof<E> { self.eq.commit_and_prove(&self.xv, &self.yv, &self.key.crs, &mut self.prover_coins()) }
    /// The honest prover's coins: now and then in relations to the trapdoors and the values, so
    /// that parts of commitments vanish or coincide.
    pub fn prover_coins(&self) -> Coins {
        let mut c = Coins::prover(self.coins);
        let Some(td) = self.key.td else { return c };
        if self.rel & 3 != 3 { return c; }
        count("fault.related_coins");
        let mut p = Prng::new(self.rel ^ 0x5ca1e);
        let mut prev = F::<E>::one();
        let mut w = vec![];
        let two64 = F::<E>::from(1u128 << 64);
        for _ in 0..2 * (self.x.len() + self.y.len()) + 4 {
            let t = *p.pick(&[td.t1, td.t2, td.a1, td.a2]);
            let v = if p.chance(1, 2) { *p.pick(&self.x) } else { *p.pick(&self.y) };
            let s = match p.below(14) { 0 => F::<E>::zero(), 1 => prev, 2 => -prev, 3 | 4 => -td.t1 * prev, 5 | 6 => -td.t2 * prev, 7 | 8 => -t * v, 9 => -v, 10 => F::<E>::one(), 11 => -prev * t.inverse().unwrap_or(prev), _ => sc((16 + (p.next() >> 20)) << 1) };
            prev = s;
            // scalars are drawn as they are held: in Montgomery form
            let mut raw = s;
            let n = (F::<E>::MODULUS_BIT_SIZE as usize).div_ceil(64);
            for _ in 0..n { raw *= two64; }
            w.extend_from_slice(&raw.into_bigint().as_ref()[..n]);
        }
        c.script = Some(w);
        c
    }
}
