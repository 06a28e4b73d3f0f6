//! Dishonest and broken deliveries next to honest ones: proofs, commitments, statements and keys
//! altered algebraically (single elements, cancelling pairs, parts of other sessions, values moved
//! inside commitments, proofs solved so that all but chosen components of the verification
//! equation hold, reshaped lists, exchanged kinds), verified by concurrent verifiers. The verdict
//! is compared with an independent sequential evaluation of the verification equation, and under
//! binding keys every acceptance with the values extracted by the trapdoor.
use super::honest::join_all;
use super::*;
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field, One, PrimeField, Zero};
use groth_sahai::prover::*;
use groth_sahai::statement::*;
use groth_sahai::*;
use rayon::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Op { pub k: u64, pub a: u64, pub b: u64, pub c: u64 }
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Del { pub sess: u64, pub ops: Vec<Op>, pub verifiers: u64,
    /// a second delivery that agrees with this one in all but one component, verified around it
    pub twin: Option<Op>,
    /// how many more ways of cancelling errors are delivered
    pub sweep: u64 }
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct SessF { pub inst: InstP, pub lie: u64, pub sides: u64 }
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Body { pub sess: Vec<SessF>, pub shared_crs: bool, pub dels: Vec<Del>, pub callers: u64,
    /// the first deliveries are verified this many times more in the same process
    pub again: u64 }

pub const OPS: [&str; 32] = ["pi_add", "theta_add", "xcom_add", "ycom_add", "pi_swap", "theta_swap", "xcom_swap", "ycom_swap", "pi_cancel", "theta_cancel", "negate", "zero", "foreign_part", "rerandomise",
    "statement", "statement_balanced", "key", "move_value", "solve", "scale", "drop_element", "extra_element", "exchange_kind", "no_or_many_proofs", "other_statement_kind", "copy_element", "components_swapped", "cancelling_errors", "negated_side", "private_coins_part", "key_element", "bare_value"];

pub fn gen(p: &mut Prng, hostile_shapes: bool, hiding: bool, big: u64) -> (&'static str, &'static str, Value) {
    let bls = p.chance(1, 14);
    let ns = if bls { 1 + p.below(2) } else { *p.pick(&[1, 1, 2, 2, 3]) };
    let mut b = Body { shared_crs: p.chance(2, 3), callers: p.below(4), ..Default::default() };
    for k in 0..ns {
        let hid = hiding && p.chance(1, 3);
        let mut inst = InstP::gen(p, !bls, if k == 0 { big } else { 0 }, hid);
        if p.chance(1, 3) && k > 0 { inst.eq.kind = b.sess[0].inst.eq.kind; if p.chance(1, 2) { inst.x = b.sess[0].inst.x.clone(); inst.y = b.sess[0].inst.y.clone(); } if p.chance(1, 3) { inst.eq = b.sess[0].inst.eq.clone(); } }
        if p.chance(1, 3) { let r = 16 + p.below(1000); inst.eq.toff = *p.pick(&[2, 3, 4, r]); }
        let lie = if p.chance(1, 4) { 1 + p.below(64) } else { 0 };
        let sides = if hostile_shapes && p.chance(1, 5) { 1 + p.below(3) } else { 0 };
        b.sess.push(SessF { inst, lie, sides });
    }
    let nd = if bls { p.range(1, 3) } else { p.range(3, 12) };
    for _ in 0..nd {
        let mut ops = vec![];
        if !p.chance(1, 6) {
            let w: [u64; 32] = if hostile_shapes { [2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 1, 1, 0, 0, 1, 3, 0, 10, 10, 8, 8, 6, 6, 0, 2, 1, 8, 1, 1] } else { [4, 4, 4, 4, 2, 2, 2, 2, 4, 4, 3, 3, 4, 4, 5, 4, 3, 4, 9, 2, 1, 1, 1, 1, 1, 3, 3, 9, 2, 2, 3, 3] };
            for _ in 0..*p.pick(&[1, 1, 1, 2, 2, 3]) { ops.push(Op { k: p.weighted(&w) as u64, a: p.next() >> 40, b: p.next() >> 40, c: gen_spec(p, 0) }); }
        }
        b.dels.push(Del { sess: p.below(ns), ops, verifiers: 1 + p.below(if bls { 1 } else { 3 }), twin: if p.chance(1, 3) { Some(Op { k: p.below(12), a: p.next() >> 40, b: p.next() >> 40, c: gen_spec(p, 0) }) } else { None }, sweep: if !bls && p.chance(1, 24) { 30 } else { 0 } });
    }
    if !bls { b.again = row(p, 24); }
    ("forge", if bls { "bls" } else { "toy" }, js(&b))
}

struct Case<E: Eng> { d: EqD<E>, eq: Eqn<E>, p: CProof<E>, crs: CRS<E>, td: Option<Td<E>>, crs_ok: bool, honest: bool, touched: bool }
fn add1<E: Eng>(c: &mut Com1<E>, comp: u64, k: &F<E>) { let d = E::G1::from(E::g1(k)); if comp & 1 == 0 { c.0 = (c.0.into_group() + d).into_affine() } else { c.1 = (c.1.into_group() + d).into_affine() } }
fn add2<E: Eng>(c: &mut Com2<E>, comp: u64, k: &F<E>) { let d = E::G2::from(E::g2(k)); if comp & 1 == 0 { c.0 = (c.0.into_group() + d).into_affine() } else { c.1 = (c.1.into_group() + d).into_affine() } }
fn lin1<E: Eng>(c: &Com1<E>, s: &F<E>, o: &Com1<E>) -> Com1<E> { Com1((c.0.into_group() + o.0.into_group() * s).into(), (c.1.into_group() + o.1.into_group() * s).into()) }
fn lin2<E: Eng>(c: &Com2<E>, s: &F<E>, o: &Com2<E>) -> Com2<E> { Com2((c.0.into_group() + o.0.into_group() * s).into(), (c.1.into_group() + o.1.into_group() * s).into()) }

/// Change pi and theta (toy engine) so that the chosen components of the residue vanish.
fn solve<E: Eng>(c: &mut Case<E>, comps: u64, order: u64) -> bool {
    let want: Vec<[u64; 4]> = (0..4).filter(|i| comps >> i & 1 == 1).map(|i| { let mut w = [0; 4]; w[i] = 1; w }).collect();
    solve_for(c, &small(&want), None, order)
}
fn small<Fd: PrimeField>(w: &[[u64; 4]]) -> Vec<[Fd; 4]> { w.iter().map(|w| w.map(|x| if x > 1 << 60 { -Fd::one() } else { Fd::from(x) })).collect() }
/// Weights with which a verifier could fold the four components into one: powers, products or
/// progressions of small numbers, of the sizes or of the coefficients of the statement.
fn weighting<E: Eng>(c: &Case<E>, p: &mut Prng) -> [F<E>; 4] {
    let (m, n) = (c.d.b.len() as u64, c.d.a.len() as u64);
    let one = F::<E>::one();
    let mut base = || -> F<E> {
        match p.below(8) {
            0..=2 => F::<E>::from(p.range(2, 20)),
            3 => F::<E>::from(*p.pick(&[m, n, m + n, m * n, m.max(n), m.min(n)]) + p.below(4)),
            4 => F::<E>::from(*p.pick(&[31u64, 37, 97, 100, 127, 255, 256, 257, 1000, 1024, 65535, 65536, 65537, 1 << 20, 1 << 31, 1 << 32, 1 << 48])),
            5 => *p.pick(&[c.d.t, c.d.a.first().copied().unwrap_or(one), c.d.b.first().copied().unwrap_or(one)]),
            6 => c.d.g.first().and_then(|r| r.get(p.below(n.max(1)) as usize)).copied().unwrap_or(one) + F::<E>::from(p.below(2)),
            _ => -F::<E>::from(p.range(1, 9)),
        }
    };
    let (k, l) = (base(), base());
    let f = |x: u64| F::<E>::from(x);
    let mut w = match p.below(8) {
        0..=2 => [one, k, k * k, k * k * k],
        3 => [one, k, k, k * k],
        4 => [one, k, l, k * l],
        5 => { let w = *p.pick(&[[2, 3, 5, 7], [1, 3, 5, 7], [1, 4, 9, 16], [3, 5, 7, 11], [1, 1, 2, 3], [0, 1, 2, 3], [2, 4, 6, 8], [1, 2, 3, 4], [7, 11, 13, 17], [1, 2, 6, 24]]); w.map(f) }
        6 => [k, k + one, k + f(2), k + f(3)],
        _ => [one, one, k, k],
    };
    if p.chance(1, 4) { w.swap(1, 2); }
    if p.chance(1, 2) { w.reverse(); }
    w
}
/// The same delivery, its proof solved for many weightings in turn.
fn sweep<E: Eng>(o: &Case<E>, n: u64, seed: u64) -> Vec<Case<E>> {
    let mut p = Prng::new(seed);
    (0..n).filter_map(|_| {
        let mut c = Case { d: o.d.clone(), eq: o.eq.clone(), p: o.p.clone(), crs: o.crs.clone(), td: o.td, crs_ok: o.crs_ok, honest: o.honest, touched: true };
        let w = weighting(&c, &mut p);
        let z = F::<E>::from(1 + p.below(1 << 30));
        if !solve_for(&mut c, &[w], Some((p.below(4) as usize, z)), p.next()) { return None; }
        count("probe.weighting_swept");
        Some(c)
    }).collect()
}
/// Change pi and theta (toy engine) so that weighted sums of the residue's components vanish
/// (errors that cancel), and, where that is possible, one component takes a given value.
fn solve_for<E: Eng>(c: &mut Case<E>, want: &[[F<E>; 4]], push: Option<(usize, F<E>)>, order: u64) -> bool {
    if !E::TOY { return false; }
    if !c.eq.well_shaped(&c.p) { return false; }
    let (lp, lt) = shape(c.d.kind);
    if want.is_empty() { return false; }
    let u: Vec<[F<E>; 2]> = c.crs.u.iter().map(|x| [E::d1(&x.0).unwrap(), E::d1(&x.1).unwrap()]).collect();
    let v: Vec<[F<E>; 2]> = c.crs.v.iter().map(|x| [E::d2(&x.0).unwrap(), E::d2(&x.1).unwrap()]).collect();
    let Some(res) = res_dlog(c) else { return false };
    // unknowns: additions to pi_k[j] (effect u_k[i] at component (i,j)) and theta_l[i] (effect v_l[j])
    let mut cols: Vec<(bool, usize, usize)> = vec![];
    for k in 0..lp { for j in 0..2 { cols.push((true, k, j)); } }
    for l in 0..lt { for i in 0..2 { cols.push((false, l, i)); } }
    let r = order as usize % cols.len();
    cols.rotate_left(r);
    let rows = |push: Option<(usize, F<E>)>| -> Vec<Vec<F<E>>> {
        let one = |w: usize| -> Vec<F<E>> {
            let (i, j) = (w / 2, w % 2);
            let mut row: Vec<F<E>> = cols.iter().map(|(is_pi, k, q)| if *is_pi { if *q == j { u[*k][i] } else { F::<E>::zero() } } else if *q == i { v[*k][j] } else { F::<E>::zero() }).collect();
            row.push(res[w]);
            row
        };
        let mut m: Vec<Vec<F<E>>> = want.iter().map(|w| {
            let mut acc = vec![F::<E>::zero(); cols.len() + 1];
            for q in 0..4 { for (x, y) in acc.iter_mut().zip(one(q)) { *x += w[q] * y; } }
            acc
        }).collect();
        if let Some((q, z)) = push { let mut r = one(q); let l = r.len() - 1; r[l] -= z; m.push(r); }
        m
    };
    let sol = match push.and_then(|p| gauss::<F<E>>(&mut rows(Some(p)), cols.len())) { Some(x) => x, None => match gauss::<F<E>>(&mut rows(None), cols.len()) { Some(x) => x, None => return false } };
    for ((is_pi, k, q), s) in cols.iter().zip(&sol) {
        if s.is_zero() { continue; }
        if *is_pi { add2::<E>(&mut c.p.equ_proofs[0].pi[*k], *q as u64, s); } else { add1::<E>(&mut c.p.equ_proofs[0].theta[*k], *q as u64, s); }
    }
    true
}
/// Solve the augmented system in place; free variables are zero.
pub fn gauss<Fd: Field>(m: &mut [Vec<Fd>], n: usize) -> Option<Vec<Fd>> {
    let mut piv = vec![];
    let mut r = 0;
    for c in 0..n {
        let Some(k) = (r..m.len()).find(|k| !m[*k][c].is_zero()) else { continue };
        m.swap(r, k);
        let inv = m[r][c].inverse().unwrap();
        for z in m[r].iter_mut() { *z *= inv; }
        for k in 0..m.len() { if k != r && !m[k][c].is_zero() { let f = m[k][c]; for q in c..=n { let t = m[r][q]; m[k][q] -= f * t; } } }
        piv.push(c);
        r += 1;
        if r == m.len() { break; }
    }
    if m[r..].iter().any(|row| !row[n].is_zero()) { return None; }
    let mut x = vec![Fd::zero(); n];
    for (i, c) in piv.iter().enumerate() { x[*c] = m[i][n]; }
    Some(x)
}
/// Discrete logarithms of the residue's components.
fn res_dlog<E: Eng>(c: &Case<E>) -> Option<[F<E>; 4]> {
    let k = &c.crs;
    let e1 = |x: &Com1<E>| [E::d1(&x.0).unwrap(), E::d1(&x.1).unwrap()];
    let e2 = |x: &Com2<E>| [E::d2(&x.0).unwrap(), E::d2(&x.1).unwrap()];
    let (m, n) = (c.p.xcoms.coms.len(), c.p.ycoms.coms.len());
    let kd = c.d.kind;
    let a: Vec<[F<E>; 2]> = (0..n).map(|j| if kd < 2 { [F::<E>::zero(), c.d.a[j]] } else { e1(&semb1(&c.d.a[j], k)) }).collect();
    let b: Vec<[F<E>; 2]> = (0..m).map(|i| if kd % 2 == 0 { [F::<E>::zero(), c.d.b[i]] } else { e2(&semb2(&c.d.b[i], k)) }).collect();
    let mut r = [F::<E>::zero(); 4];
    let mut acc = |l: [F<E>; 2], q: [F<E>; 2], neg: bool| for i in 0..2 { for j in 0..2 { let z = l[i] * q[j]; if neg { r[2 * i + j] -= z } else { r[2 * i + j] += z } } };
    for j in 0..n { acc(a[j], e2(&c.p.ycoms.coms[j]), false); }
    for i in 0..m { acc(e1(&c.p.xcoms.coms[i]), b[i], false); }
    for i in 0..m { for j in 0..n { if c.d.g[i][j].is_zero() { continue; } let mut l = e1(&c.p.xcoms.coms[i]); l[0] *= c.d.g[i][j]; l[1] *= c.d.g[i][j]; acc(l, e2(&c.p.ycoms.coms[j]), false); } }
    for (u, pi) in k.u.iter().zip(&c.p.equ_proofs[0].pi) { acc(e1(u), e2(pi), true); }
    for (th, v) in c.p.equ_proofs[0].theta.iter().zip(&k.v) { acc(e1(th), e2(v), true); }
    let one = F::<E>::one();
    match kd {
        0 => r[3] -= c.d.t,
        1 => acc([F::<E>::zero(), c.d.t], e2(&semb2(&one, k)), true),
        2 => acc(e1(&semb1(&one, k)), [F::<E>::zero(), c.d.t], true),
        _ => acc(e1(&semb1(&c.d.t, k)), e2(&semb2(&one, k)), true),
    }
    Some(r)
}

fn apply<E: Eng>(c: &mut Case<E>, op: &Op, all: &[(CProof<E>, u8)], keys: &[CRS<E>]) {
    let z = sc::<F<E>>(op.c);
    let (a, b) = (op.a as usize, op.b);
    let m = c.p.xcoms.coms.len();
    let n = c.p.ycoms.coms.len();
    let np = c.p.equ_proofs.len();
    macro_rules! q { () => { { if np == 0 { return; } &mut c.p.equ_proofs[0] } } }
    macro_rules! at { ($v:expr) => { { let l = $v.len(); if l == 0 { return; } &mut $v[a % l] } } }
    let mut hit = true;
    match op.k as usize % OPS.len() {
        0 => add2::<E>(at!(q!().pi), b, &z),
        1 => add1::<E>(at!(q!().theta), b, &z),
        2 => add1::<E>(at!(c.p.xcoms.coms), b, &z),
        3 => add2::<E>(at!(c.p.ycoms.coms), b, &z),
        4 => { let v = &mut q!().pi; if v.len() < 2 { return; } v.swap(0, 1) }
        5 => { let v = &mut q!().theta; if v.len() < 2 { return; } v.swap(0, 1) }
        6 => { if m < 2 { return; } c.p.xcoms.coms.swap(a % m, b as usize % m) }
        7 => { if n < 2 { return; } c.p.ycoms.coms.swap(a % n, b as usize % n) }
        8 => { // e(u_0, tZ) = e(u_1, Z) in the first component at least
            let Some(td) = c.td else { return };
            let v = &mut q!().pi; if v.len() < 2 { return; }
            let zz = Com2(E::g2(&z), E::g2(&sc::<F<E>>(b)));
            v[0] = lin2(&v[0], &td.t1, &zz); v[1] = lin2(&v[1], &-F::<E>::one(), &zz);
        }
        9 => {
            let Some(td) = c.td else { return };
            let v = &mut q!().theta; if v.len() < 2 { return; }
            let zz = Com1(E::g1(&z), E::g1(&sc::<F<E>>(b)));
            v[0] = lin1(&v[0], &td.t2, &zz); v[1] = lin1(&v[1], &-F::<E>::one(), &zz);
        }
        10 => { let m1 = -F::<E>::from(2u64); match b % 4 {
            0 => { let x = at!(q!().pi); *x = lin2(x, &m1, &x.clone()) }
            1 => { let x = at!(q!().theta); *x = lin1(x, &m1, &x.clone()) }
            2 => { let x = at!(c.p.xcoms.coms); *x = lin1(x, &m1, &x.clone()) }
            _ => { let x = at!(c.p.ycoms.coms); *x = lin2(x, &m1, &x.clone()) } } }
        11 => match b % 6 {
            0 => *at!(q!().pi) = Com2(A2::<E>::zero(), A2::<E>::zero()),
            1 => *at!(q!().theta) = Com1(A1::<E>::zero(), A1::<E>::zero()),
            2 => *at!(c.p.xcoms.coms) = Com1(A1::<E>::zero(), A1::<E>::zero()),
            3 => *at!(c.p.ycoms.coms) = Com2(A2::<E>::zero(), A2::<E>::zero()),
            4 => { let v = q!(); for x in v.pi.iter_mut() { *x = Com2(A2::<E>::zero(), A2::<E>::zero()); } for x in v.theta.iter_mut() { *x = Com1(A1::<E>::zero(), A1::<E>::zero()); } }
            _ => { for x in c.p.xcoms.coms.iter_mut() { *x = Com1(A1::<E>::zero(), A1::<E>::zero()); } for x in c.p.ycoms.coms.iter_mut() { *x = Com2(A2::<E>::zero(), A2::<E>::zero()); } }
        },
        12 => {
            let (o, _) = &all[a % all.len()];
            match b % 5 {
                0 => c.p.xcoms = o.xcoms.clone(),
                1 => c.p.ycoms = o.ycoms.clone(),
                2 => c.p.equ_proofs = o.equ_proofs.clone(),
                3 => { if o.equ_proofs.is_empty() { return; } q!().pi = o.equ_proofs[0].pi.clone() }
                _ => { if o.equ_proofs.is_empty() { return; } q!().theta = o.equ_proofs[0].theta.clone() }
            }
        }
        13 => { // another proof of the same fact: pi_k += s v_l, theta_l -= s u_k
            let (u, v) = (c.crs.u.clone(), c.crs.v.clone());
            let pf = q!();
            let (lp, lt) = (pf.pi.len(), pf.theta.len());
            if lp == 0 || lt == 0 || lp > u.len() || lt > v.len() { return; }
            let (k, l) = (a % lp, b as usize % lt);
            pf.pi[k] = lin2(&pf.pi[k], &z, &v[l]);
            pf.theta[l] = lin1(&pf.theta[l], &-z, &u[k]);
        }
        14 => {
            match b % 4 {
                0 => { let l = c.d.a.len(); if l == 0 { return; } c.d.a[a % l] += z }
                1 => { let l = c.d.b.len(); if l == 0 { return; } c.d.b[a % l] += z }
                2 => { if c.d.g.is_empty() || c.d.g[0].is_empty() { return; } let (r, s) = (a % c.d.g.len(), (a / 64) % c.d.g[0].len()); c.d.g[r][s] += z }
                _ => c.d.t += z,
            }
            c.eq = c.d.build();
        }
        15 => { // exchange rows / columns / constants of the statement
            let (mm, nn) = (c.d.b.len(), c.d.a.len());
            match b % 3 {
                0 => { if mm < 2 { return; } let i = a % (mm - 1); c.d.g.swap(i, i + 1); c.d.b.swap(i, i + 1); if a & 64 == 0 && m == mm { c.p.xcoms.coms.swap(i, i + 1) } }
                1 => { if nn < 2 { return; } let j = a % (nn - 1); for r in c.d.g.iter_mut() { r.swap(j, j + 1); } c.d.a.swap(j, j + 1); if a & 64 == 0 && n == nn { c.p.ycoms.coms.swap(j, j + 1) } }
                _ => { if mm != nn { return; } for i in 0..mm { for j in 0..i { let t = c.d.g[i][j]; c.d.g[i][j] = c.d.g[j][i]; c.d.g[j][i] = t; } } }
            }
            c.eq = c.d.build();
        }
        16 => {
            match b % 9 {
                6 => { let (i, o) = (a & 1, c.crs.u[(a + 1) & 1].clone()); if c.crs.u.len() < 2 { return; } c.crs.u[i] = if a & 2 == 0 { o } else { Com1(A1::<E>::zero(), A1::<E>::zero()) }; c.crs_ok = false }
                7 => { let (i, o) = (a & 1, c.crs.v[(a + 1) & 1].clone()); if c.crs.v.len() < 2 { return; } c.crs.v[i] = if a & 2 == 0 { o } else { Com2(A2::<E>::zero(), A2::<E>::zero()) }; c.crs_ok = false }
                8 => { match a % 4 { 0 => c.crs.g1_gen = A1::<E>::zero(), 1 => c.crs.g2_gen = A2::<E>::zero(), 2 => c.crs.g1_gen = E::g1(&z), _ => c.crs.g2_gen = E::g2(&z) }; c.crs_ok = false }
                0 => c.crs.gt_gen = E::gt(&z),
                1 => { c.crs.u.swap(0, 1); c.crs_ok = false }
                2 => { c.crs.v.swap(0, 1); c.crs_ok = false }
                3 => { let x = at!(c.crs.u); add1::<E>(x, op.c >> 3, &z); c.crs_ok = false }
                4 => { let x = at!(c.crs.v); add2::<E>(x, op.c >> 3, &z); c.crs_ok = false }
                _ => { c.crs = keys[a % keys.len()].clone(); c.crs_ok = false }
            }
        }
        17 => { // the committed value itself moves, blinding untouched
            if b & 1 == 0 { let x = at!(c.p.xcoms.coms); if c.d.kind < 2 { add1::<E>(x, 1, &z) } else { *x = lin1(x, &z, &semb1(&F::<E>::one(), &c.crs)) } } else { let x = at!(c.p.ycoms.coms); if c.d.kind % 2 == 0 { add2::<E>(x, 1, &z) } else { *x = lin2(x, &z, &semb2(&F::<E>::one(), &c.crs)) } }
        }
        18 => { let comps = [0b1111u64, 0b0111, 0b1011, 0b1101, 0b1110, 0b0111, 0b1011, 0b1101, 0b1110, 0b1000, 0b1001][a % 11]; hit = solve(c, comps, b); if hit { count(if comps == 15 { "probe.solved_all_components" } else { "probe.solved_but_chosen_components" }); } }
        19 => { let s = z - F::<E>::one(); for x in c.p.xcoms.coms.iter_mut() { *x = lin1(x, &s, &x.clone()); } if b & 1 == 0 { for x in q!().pi.iter_mut() { *x = lin2(x, &s, &x.clone()); } } for x in q!().theta.iter_mut() { *x = lin1(x, &s, &x.clone()); } }
        20 => { macro_rules! rem { ($v:expr) => { { let l = $v.len(); if l == 0 { return; } match op.c % 3 { 0 => { $v.remove(a % l); } 1 => { $v.pop(); } _ => { $v.clear(); } } } } }
            match b % 4 { 0 => rem!(q!().pi), 1 => rem!(q!().theta), 2 => rem!(c.p.xcoms.coms), _ => rem!(c.p.ycoms.coms) } }
        21 => {
            let (r1, r2) = (Com1(E::g1(&z), E::g1(&(z + z))), Com2(E::g2(&z), E::g2(&(z + z))));
            let (z1, z2) = (Com1(A1::<E>::zero(), A1::<E>::zero()), Com2(A2::<E>::zero(), A2::<E>::zero()));
            macro_rules! ins { ($v:expr, $z:expr, $r:expr) => { { let l = $v.len(); let x = match op.c % 3 { 0 => $z, 1 if l > 0 => $v[a % l].clone(), _ => $r }; if op.c & 8 == 0 { $v.push(x) } else { $v.insert(a % (l + 1), x) } } } }
            match b % 4 { 0 => ins!(q!().pi, z2, r2), 1 => ins!(q!().theta, z1, r1), 2 => ins!(c.p.xcoms.coms, z1, r1), _ => ins!(c.p.ycoms.coms, z2, r2) }
        }
        22 => { let t = [EquType::PairingProduct, EquType::MultiScalarG1, EquType::MultiScalarG2, EquType::Quadratic][a % 4].clone(); let f = q!(); hit = f.equ_type != t; f.equ_type = t; }
        23 => match b % 4 {
            0 => c.p.equ_proofs.clear(),
            1 => { if np == 0 { return; } let x = c.p.equ_proofs[0].clone(); c.p.equ_proofs.push(x) }
            2 => { let o = &all[a % all.len()].0; if o.equ_proofs.is_empty() { return; } c.p.equ_proofs.push(o.equ_proofs[0].clone()) }
            _ => { let o = &all[a % all.len()].0; if o.equ_proofs.is_empty() { return; } c.p.equ_proofs.insert(0, o.equ_proofs[0].clone()) }
        },
        24 => { let k = (a % 4) as u8; hit = k != c.d.kind; c.d.kind = k; c.eq = c.d.build(); if b & 1 == 1 && np > 0 { c.p.equ_proofs[0].equ_type = c.eq.get_type(); let (lp, lt) = shape(k); if b & 2 == 2 { let f = &mut c.p.equ_proofs[0]; f.pi.resize(lp, Com2(A2::<E>::zero(), A2::<E>::zero())); f.theta.resize(lt, Com1(A1::<E>::zero(), A1::<E>::zero())); } } }
        25 => match b % 4 {
            0 => { if m < 2 { return; } let i = a % m; c.p.xcoms.coms[i] = c.p.xcoms.coms[(i + 1) % m] }
            1 => { if n < 2 { return; } let i = a % n; c.p.ycoms.coms[i] = c.p.ycoms.coms[(i + 1) % n] }
            2 => { let v = &mut q!().pi; let l = v.len(); if l < 2 { return; } v[a % l] = v[(a + 1) % l] }
            _ => { let v = &mut q!().theta; let l = v.len(); if l < 2 { return; } v[a % l] = v[(a + 1) % l] }
        },
        27 => {
            // errors that cancel in a sum, a difference or a weighted sum of components
            const N: u64 = u64::MAX;
            const SETS: [&[[u64; 4]]; 16] = [
                &[[1, 1, 1, 1]], &[[1, 0, 0, 0], [0, 1, 1, 0], [0, 0, 0, 1]], &[[1, 1, 0, 0], [0, 0, 1, 1]], &[[1, 0, 1, 0], [0, 1, 0, 1]],
                &[[1, 0, 0, 1], [0, 1, 0, 0], [0, 0, 1, 0]], &[[1, 2, 4, 8]], &[[1, 2, 3, 4]], &[[8, 4, 2, 1]], &[[1, N, 0, 0], [0, 0, 1, N]], &[[1, 0, N, 0], [0, 1, 0, N]],
                &[[1, N, N, 1]], &[[1, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]], &[[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 1]], &[[1, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], &[[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 1]], &[[1, 0, 0, 0], [0, 1, N, 0], [0, 0, 0, 1]],
            ];
            if op.b >> 8 & 3 > 0 { c.touched = true; if n > 0 && op.b >> 10 & 1 == 1 { add2::<E>(at!(c.p.ycoms.coms), b >> 11, &z) } else { add1::<E>(at!(c.p.xcoms.coms), b >> 11, &z) } }
            let f0 = mix64(op.a ^ op.b.rotate_left(32) ^ op.c);
            let set = if f0 & 7 < 3 { vec![weighting(c, &mut Prng::new(f0))] } else { small(SETS[a % SETS.len()]) };
            hit = solve_for(c, &set, Some((op.b as usize / 16 % 4, z)), b);
            if hit { count("probe.solved_cancelling"); }
        }
        28 => {
            // the right-hand side with the other sign
            c.d.t = -c.d.t; c.eq = c.d.build();
            let m2 = -F::<E>::from(2u64);
            let f = q!();
            for x in f.pi.iter_mut() { *x = lin2(x, &m2, &x.clone()) }
            for x in f.theta.iter_mut() { *x = lin1(x, &m2, &x.clone()) }
        }
        29 => {
            // the part of the encoding that carries the sender's coins is no part of the relation
            let rows = |l: usize| -> Vec<Vec<F<E>>> { let w = [0, 1, 2, 3, 7][a / 8 % 5]; let r = |k: usize| match op.c % 3 { 0 => F::<E>::zero(), 1 => z, _ => z + F::<E>::from(k as u64) };
                let l = match a % 4 { 0 => l, 1 => l + 1, 2 => l.saturating_sub(1), _ => 0 };
                let mut v: Vec<Vec<F<E>>> = (0..l).map(|i| (0..w).map(|k| r(i * w + k)).collect()).collect();
                if b & 64 > 0 { if let Some(x) = v.last_mut() { x.pop(); } } if b & 128 > 0 { if let Some(x) = v.first_mut() { x.push(z) } } v };
            match b % 3 {
                0 => match de::<Commit1<E>>(&[serc(&c.p.xcoms.coms), serc(&rows(m))].concat(), comp(true)) { Ok(x) => c.p.xcoms = x, _ => hit = false },
                1 => match de::<Commit2<E>>(&[serc(&c.p.ycoms.coms), serc(&rows(n))].concat(), comp(true)) { Ok(x) => c.p.ycoms = x, _ => hit = false },
                _ => { let f = q!(); match de::<EquProof<E>>(&[serc(&f.pi), serc(&f.theta), serc(&f.equ_type), serc(&rows(f.theta.len()))].concat(), comp(true)) { Ok(x) => *f = x, _ => hit = false } }
            }
        }
        30 | 31 => {
            // an element taken over from the reference string, or a value that is not blinded at all
            let (o1, o2) = if op.k as usize % OPS.len() == 30 { (c.crs.u[op.c as usize / 8 % c.crs.u.len()], c.crs.v[op.c as usize / 8 % c.crs.v.len()]) } else {
                let (g1, g2, z1, z2) = (c.crs.g1_gen, c.crs.g2_gen, A1::<E>::zero(), A2::<E>::zero());
                match op.c / 8 % 5 { 0 => (Com1(z1, g1), Com2(z2, g2)), 1 => (Com1(g1, z1), Com2(g2, z2)), 2 => (Com1(g1, g1), Com2(g2, g2)), 3 => (semb1(&z, &c.crs), semb2(&z, &c.crs)), _ => (Com1(z1, E::g1(&z)), Com2(z2, E::g2(&z))) }
            };
            match b % 6 {
                0 => *at!(q!().pi) = o2,
                1 => *at!(q!().theta) = o1,
                2 => *at!(c.p.xcoms.coms) = o1,
                3 => *at!(c.p.ycoms.coms) = o2,
                4 => for x in c.p.xcoms.coms.iter_mut() { *x = o1 },
                _ => { for x in c.p.xcoms.coms.iter_mut() { *x = o1 } for y in c.p.ycoms.coms.iter_mut() { *y = o2 } }
            }
            // and a proof to go with it, right or wrong in one component
            if b >> 10 & 3 > 0 { let w = [15u64, 15, 7, 11, 13, 14][(b >> 12) as usize % 6]; if solve(c, w, b) { count("probe.solved_for_bare_elements"); } }
        }
        _ => match b % 4 {
            0 => { let x = at!(q!().pi); *x = Com2(x.1, x.0) }
            1 => { let x = at!(q!().theta); *x = Com1(x.1, x.0) }
            2 => { let x = at!(c.p.xcoms.coms); *x = Com1(x.1, x.0) }
            _ => { let x = at!(c.p.ycoms.coms); *x = Com2(x.1, x.0) }
        },
    }
    if hit { c.touched = true; count(&format!("fault.{}", OPS[op.k as usize % OPS.len()])); }
}

/// The same delivery with one component exchanged, sometimes with a proof that fits again.
fn twin<E: Eng>(o: &Case<E>, op: &Op, all: &[(CProof<E>, u8)], keys: &[CRS<E>]) -> Case<E> {
    let mut c = Case { d: o.d.clone(), eq: o.eq.clone(), p: o.p.clone(), crs: o.crs.clone(), td: o.td, crs_ok: o.crs_ok, honest: o.honest, touched: o.touched };
    let mut ap = |k: u64, b: u64| apply(&mut c, &Op { k, a: op.a, b, c: op.c }, all, keys);
    match op.k % 12 {
        0 => ap(0, op.b), 1 => ap(1, op.b), 2 | 3 => ap(2, op.b), 4 | 5 => ap(3, op.b),
        6 => ap(16, 3), 7 => ap(16, 4), 8 => ap(16, 0), 9 => ap(16, 8),
        _ => ap(14, op.b),
    }
    if op.b >> 4 & 3 > 0 && solve(&mut c, 15, op.b) { count("probe.twin_solved"); }
    count("fault.twin_delivery");
    c
}
/// Remove one side (or both) from a session: a statement about fewer variables and a proof object
/// with as many commitments, whose elements are then solved for (toy) or arbitrary.
fn one_sided<E: Eng>(c: &mut Case<E>, sides: u64) {
    count("probe.one_sided_statement");
    if sides & 1 == 1 { c.d.b.clear(); c.d.g.clear(); c.p.xcoms.coms.clear(); }
    if sides & 2 == 2 { c.d.a.clear(); for r in c.d.g.iter_mut() { r.clear(); } c.p.ycoms.coms.clear(); }
    c.eq = c.d.build();
    c.touched = true;
}

pub fn exec<E: Eng>(plan: &Value) -> Res {
    let b: Body = serde_json::from_value(plan["body"].clone()).unwrap();
    let prop = plan["prop"].as_str().unwrap_or("").to_string();
    let owns = |c: &str| match prop.as_str() { "C02" => c == "unsound", "C03" => ["verdict-differs", "verdict-unstable", "honest-rejected"].contains(&c), "C12" => ["verify-panics", "verdict-differs", "honest-rejected", "verdict-unstable"].contains(&c), _ => true };
    let v = |class: &str, msg: String| -> Res { if owns(class) { viol(class, msg) } else { log(format!("other: {class}: {msg}")); count(&format!("other.{class}")); Ok(()) } };
    begin(plan);
    if b.sess.is_empty() { return Ok(()); }
    let key0 = make_crs::<E>(&b.sess[0].inst.crs);
    let mut base: Vec<Case<E>> = vec![];
    for (k, s) in b.sess.iter().enumerate() {
        let key = if b.shared_crs || k == 0 { key0.clone() } else { make_crs::<E>(&s.inst.crs) };
        let i = s.inst.inst_with::<E>(key);
        let p = if s.lie > 0 {
            // the prover argues about other values than it committed to
            count("fault.lying_prover");
            let mut c = i.prover_coins();
            let (xc, yc) = (i.xv.commit(&i.key.crs, &mut c), i.yv.commit(&i.key.crs, &mut c));
            let (mut x, mut y) = (i.x.clone(), i.y.clone());
            let q = (s.lie as usize) % (x.len() + y.len());
            if q < x.len() { x[q] += F::<E>::from(s.lie) } else { let l = x.len(); y[q - l] += F::<E>::from(s.lie) }
            let pf = i.eq.prove(&XV::new(i.d.kind, &x), &YV::new(i.d.kind, &y), &xc, &yc, &i.key.crs, &mut c);
            CProof { xcoms: xc, ycoms: yc, equ_proofs: vec![pf] }
        } else { i.honest() };
        let honest = s.lie == 0 && s.inst.eq.toff == 0;
        base.push(Case { d: i.d, eq: i.eq, p, crs: i.key.crs.clone(), td: if i.key.binding { i.key.td } else { None }, crs_ok: true, honest, touched: false });
    }
    let all: Vec<(CProof<E>, u8)> = base.iter().map(|c| (c.p.clone(), c.d.kind)).collect();
    let keys: Vec<CRS<E>> = base.iter().map(|c| c.crs.clone()).collect();
    sample(json!({"engine": E::NAME, "sessions": base.iter().map(|c| json!([KINDS[c.d.kind as usize], c.d.b.len(), c.d.a.len(), c.td.is_some(), c.honest])).collect::<Vec<_>>(), "deliveries": b.dels.iter().map(|d| json!([d.sess, d.ops.iter().map(|o| OPS[o.k as usize % OPS.len()]).collect::<Vec<_>>()])).collect::<Vec<_>>()}));
    nontrivial();
    let mut cases: Vec<(Case<E>, u64, Option<Case<E>>, Vec<Case<E>>)> = vec![];
    for d in &b.dels {
        let k = d.sess as usize % base.len();
        let s = &base[k];
        let mut c = Case { d: s.d.clone(), eq: s.eq.clone(), p: s.p.clone(), crs: s.crs.clone(), td: s.td, crs_ok: true, honest: s.honest, touched: false };
        if b.sess[k].sides > 0 && !d.ops.is_empty() {
            one_sided(&mut c, b.sess[k].sides);
            if E::TOY && c.eq.well_shaped(&c.p) && d.ops[0].a % 3 != 0 { solve(&mut c, 15, d.ops[0].b); }
            // half of them are delivered just like that
            if d.ops[0].a % 2 == 0 { for o in d.ops.iter().skip(1) { apply(&mut c, o, &all, &keys); } cases.push((c, d.verifiers, None, vec![])); continue; }
        }
        for o in &d.ops { apply(&mut c, o, &all, &keys); }
        let tw = d.twin.as_ref().map(|o| twin(&c, o, &all, &keys));
        let mut sw = vec![];
        if d.sweep > 0 && E::TOY && c.eq.well_shaped(&c.p) {
            // the truth is bent, unless it was already
            let mut c2 = Case { d: c.d.clone(), eq: c.eq.clone(), p: c.p.clone(), crs: c.crs.clone(), td: c.td, crs_ok: c.crs_ok, honest: c.honest, touched: true };
            if let (Some(o), Some(x)) = (d.ops.first(), c2.p.xcoms.coms.first_mut()) { if o.b & 1 == 1 { add1::<E>(x, o.a, &F::<E>::from(1 + o.a % 1000)); } }
            sw = sweep(&c2, d.sweep.min(200), mix64(d.sweep ^ d.ops.iter().fold(k as u64, |h, o| mix64(h ^ o.a ^ o.b << 24))));
        }
        cases.push((c, d.verifiers, tw, sw));
    }
    let one = |i: usize, r: u64, c: &Case<E>| -> Res {
        let got = match catch(|| c.eq.verify(&c.p, &c.crs)) { Ok(g) => g, Err(Caught::Panic(m)) => { log(format!("delivery {i}.{r}: panic")); return v("verify-panics", format!("delivery {i}: verify panicked: {m}")); } Err(_) => unreachable!() };
        let want = c.eq.ref_verify(&c.p, &c.crs);
        log(format!("delivery {i}.{r}: {got}/{want}"));
        count(if got { "accepted" } else { "rejected" });
        if want && c.touched { count("probe.altered_but_valid"); }
        let what = || format!("delivery {i} ({} {}x{}, {:?})", KINDS[c.d.kind as usize], c.d.b.len(), c.d.a.len(), b.dels[i].ops.iter().map(|o| OPS[o.k as usize % OPS.len()]).collect::<Vec<_>>());
        if c.honest && !c.touched && !got { v("honest-rejected", format!("{}: an honest proof was rejected", what()))?; }
        if got != want { v("verdict-differs", format!("{}: verify says {got}, the verification equation says {want}", what()))?; }
        if got && c.crs_ok { if let Some(td) = &c.td {
            if !c.eq.extracted_holds(&c.p.xcoms.coms, &c.p.ycoms.coms, &c.crs, td) { v("unsound", format!("{}: accepted, but the committed values do not satisfy the statement", what()))?; }
            count("extracted");
        } }
        Ok(())
    };
    let session = |i: usize, nested: bool| -> Res {
        let nv = cases[i].1.clamp(1, 4);
        let one = |i: usize, r: u64| -> Res {
            one(i, r, &cases[i].0)?;
            if let Some(t) = &cases[i].2 { one(i, 100 + r, t)?; one(i, 200 + r, &cases[i].0)?; }
            if r == 0 { for (q, s) in cases[i].3.iter().enumerate() { one(i, 1000 + q as u64, s)?; } }
            Ok(())
        };
        if nested { (0..nv).into_par_iter().map(|r| one(i, r)).collect::<Vec<_>>().into_iter().collect() } else { (0..nv).try_for_each(|r| one(i, r)) }
    };
    let again = || -> Res {
        // again and again, alone or two deliveries in turns
        let k: Vec<usize> = (0..cases.len()).filter(|i| cases[*i].0.d.a.len() * cases[*i].0.d.b.len() <= 40).take(1 + (b.again & 1) as usize).collect();
        if k.is_empty() { return Ok(()); }
        let size = k.iter().map(|i| cases[*i].0.d.a.len() * cases[*i].0.d.b.len()).max().unwrap();
        for r in 0..b.again.min(if size > 12 { 300 } else { ROW }) { one(k[r as usize % k.len()], 10_000 + r, &cases[k[r as usize % k.len()]].0)?; count("verified_again"); }
        if b.again > 0 { for i in 0..cases.len() { one(i, 20_000, &cases[i].0)?; } }
        Ok(())
    };
    match b.callers % 4 {
        0 => (0..cases.len()).try_for_each(|i| session(i, false)),
        1 | 2 => (0..cases.len()).into_par_iter().map(|i| session(i, true)).collect::<Vec<_>>().into_iter().collect(),
        _ => std::thread::scope(|sc| { let session = &session; let h: Vec<_> = (0..cases.len()).map(|i| sc.spawn(move || session(i, false))).collect(); join_all(h) }),
    }?;
    again()
}
