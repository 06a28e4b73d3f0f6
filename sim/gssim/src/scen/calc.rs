//! The commitment groups as a calculating machine: concurrent clients with registers (elements of
//! the three groups and matrices of them) execute programs of the operators, maps, pairings,
//! matrix operations and conversions; a client may crash between two instructions and go on from
//! the registers it had saved. Every result is refined against a reference model that keeps
//! discrete logarithms only.
use super::honest::join_all;
use super::*;
use ark_ff::{One, Zero};
use groth_sahai::*;
use rayon::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Ins { pub k: u64, pub v: u64, pub d: u64, pub a: u64, pub b: u64, pub z: u64 }
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Body { pub crs: CrsPlan, pub init: Vec<u64>, pub clients: Vec<Vec<Ins>>, pub callers: u64, pub io: IoPlan }

pub const OPS: [&str; 24] = ["add", "add_assign", "sub", "sub_assign", "neg", "sum", "scalar_mul", "linear_map", "scalar_linear_map", "batch_linear_map", "batch_scalar_linear_map", "zero", "columns",
    "pairing", "pairing_sum", "target_map", "equality", "mat_add", "mat_neg", "mat_scalar_mul", "mat_transpose", "mat_left_mul", "mat_right_mul", "crash_and_reload"];

pub fn gen(p: &mut Prng) -> (&'static str, &'static str, Value) {
    let bls = p.chance(1, 14);
    let hid = p.chance(1, 3);
    let st = p.below(5);
    let mut b = Body { crs: CrsPlan::gen(p, hid), init: (0..12).map(|_| gen_spec(p, st)).collect(), callers: p.below(3), io: IoPlan::gen(p, 64, false), ..Default::default() };
    let nc = if bls { 1 + p.below(2) } else { p.range(1, 4) };
    for _ in 0..nc {
        let n = if bls { p.range(2, 8) } else if p.chance(1, 40) { p.range(120, 400) } else { p.range(4, 40) };
        let st = p.below(5);
        b.clients.push((0..n).map(|_| Ins { k: p.weighted(&[3, 3, 3, 3, 2, 3, 4, 2, 2, 2, 2, 1, 2, 5, 4, 4, 6, 2, 2, 2, 2, 4, 4, 2]) as u64, v: p.next() >> 40, d: p.below(16), a: p.below(16), b: p.below(16), z: gen_spec(p, st) }).collect());
    }
    ("calc", if bls { "bls" } else { "toy" }, js(&b))
}

type V<E> = [F<E>; 2];
type M<E> = Vec<Vec<V<E>>>;
const N: usize = 4;
#[derive(Clone)]
struct Regs<E: Eng> { a: Vec<(Com1<E>, V<E>)>, b: Vec<(Com2<E>, V<E>)>, t: Vec<(ComT<E>, [F<E>; 4])>, f: Vec<(Matrix<F<E>>, Matrix<F<E>>)>, ma: Vec<(Matrix<Com1<E>>, M<E>)>, mb: Vec<(Matrix<Com2<E>>, M<E>)> }
fn c1<E: Eng>(v: &V<E>) -> Com1<E> { Com1(E::g1(&v[0]), E::g1(&v[1])) }
fn c2<E: Eng>(v: &V<E>) -> Com2<E> { Com2(E::g2(&v[0]), E::g2(&v[1])) }
fn ct<E: Eng>(v: &[F<E>; 4]) -> ComT<E> { ComT(E::gt(&v[0]), E::gt(&v[1]), E::gt(&v[2]), E::gt(&v[3])) }
// componentwise, so that a wrong equality of the library cannot hide anything
fn is1<E: Eng>(c: &Com1<E>, v: &V<E>) -> bool { c.0 == E::g1(&v[0]) && c.1 == E::g1(&v[1]) }
fn is2<E: Eng>(c: &Com2<E>, v: &V<E>) -> bool { c.0 == E::g2(&v[0]) && c.1 == E::g2(&v[1]) }
fn ist<E: Eng>(c: &ComT<E>, v: &[F<E>; 4]) -> bool { [c.0, c.1, c.2, c.3].iter().zip(v).all(|(x, k)| *x == E::gt(k)) }
fn ism<C, X>(c: &[Vec<C>], m: &[Vec<X>], f: impl Fn(&C, &X) -> bool) -> bool { c.len() == m.len() && c.iter().zip(m).all(|(r, s)| r.len() == s.len() && r.iter().zip(s).all(|(x, y)| f(x, y))) }
fn tr<T: Clone>(m: &[Vec<T>]) -> Vec<Vec<T>> { (0..m[0].len()).map(|j| m.iter().map(|r| r[j].clone()).collect()).collect() }
fn map<T, U>(m: &[Vec<T>], f: impl Fn(&T) -> U) -> Vec<Vec<U>> { m.iter().map(|r| r.iter().map(&f).collect()).collect() }
/// l times r over a module: sums of products in order.
fn mul<A, B, R>(l: &[Vec<A>], r: &[Vec<B>], zero: R, f: impl Fn(R, &A, &B) -> R) -> Vec<Vec<R>> where R: Copy { (0..l.len()).map(|i| (0..r[0].len()).map(|j| (0..r.len()).fold(zero, |s, k| f(s, &l[i][k], &r[k][j]))).collect()).collect() }
fn dims(z: u64) -> (usize, usize) { let h = mix64(z); let one = |h: u64| if h % 1013 == 0 { 66 + (h / 1013 % 1000) as usize } else if h % 97 == 0 { 33 + (h / 97 % 33) as usize } else { 1 + (h / 97 % 5) as usize }; let (r, c) = (one(h), one(h >> 32)); if r > 8 && c > 8 { (r, 2) } else { (r, c) } }
fn scalars<E: Eng>(z: u64, r: usize, c: usize) -> Matrix<F<E>> { let mut p = Prng::new(z); let st = p.below(5); (0..r).map(|_| (0..c).map(|_| sc(gen_spec(&mut p, st))).collect()).collect() }

fn step<E: Eng>(r: &mut Regs<E>, i: &Ins, key: &CRS<E>, kd: &(V<E>, V<E>), io: &IoPlan) -> Result<(), String> {
    let (d, a, b) = (i.d as usize % N, i.a as usize % N, i.b as usize % N);
    let z = sc::<F<E>>(i.z);
    let w = sc::<F<E>>(i.z >> 3 | 16 << 20);
    let k = i.k as usize % OPS.len();
    // which group: 0 and 1 the two bases, 2 the target (where the operation exists there)
    let g = i.v % if k < 6 || k == 11 || k == 12 || k == 16 { 3 } else { 2 };
    let many: Vec<usize> = (0..(if i.v / 8 % 67 == 66 { 6 + i.v / 600 % 64 } else { i.v / 8 % 6 }) as usize).map(|q| (a + q * (1 + b)) % N).collect();
    macro_rules! v2 { ($x:expr, $y:expr, $f:expr) => {{ let f = $f; [f($x[0], $y[0]), f($x[1], $y[1])] }} }
    macro_rules! v4 { ($x:expr, $y:expr, $f:expr) => {{ let f = $f; [f($x[0], $y[0]), f($x[1], $y[1]), f($x[2], $y[2]), f($x[3], $y[3])] }} }
    macro_rules! bin { ($R:ident, $v:ident) => {{
        let (x, y) = (r.$R[a], r.$R[b]);
        let add = |p: F<E>, q: F<E>| p + q; let sub = |p: F<E>, q: F<E>| p - q;
        r.$R[d] = match k {
            0 => (x.0 + y.0, $v!(x.1, y.1, add)),
            1 => { let mut t = x.0; t += y.0; (t, $v!(x.1, y.1, add)) }
            2 => (x.0 - y.0, $v!(x.1, y.1, sub)),
            3 => { let mut t = x.0; t -= y.0; (t, $v!(x.1, y.1, sub)) }
            _ => (-x.0, $v!(x.1, x.1, |p: F<E>, _| -p)),
        };
    }} }
    match k {
        0..=4 => match g { 0 => bin!(a, v2), 1 => bin!(b, v2), _ => bin!(t, v4) },
        5 => {
            let add = |p: F<E>, q: F<E>| p + q;
            match g {
                0 => r.a[d] = (many.iter().map(|q| r.a[*q].0).sum(), many.iter().fold([F::<E>::zero(); 2], |s, q| v2!(s, r.a[*q].1, add))),
                1 => r.b[d] = (many.iter().map(|q| r.b[*q].0).sum(), many.iter().fold([F::<E>::zero(); 2], |s, q| v2!(s, r.b[*q].1, add))),
                _ => r.t[d] = (many.iter().map(|q| r.t[*q].0).sum(), many.iter().fold([F::<E>::zero(); 4], |s, q| v4!(s, r.t[*q].1, add))),
            }
        }
        6 => if g == 0 { r.a[d] = (B1::scalar_mul(&r.a[a].0, &z), r.a[a].1.map(|q| q * z)) } else { r.b[d] = (B2::scalar_mul(&r.b[a].0, &z), r.b[a].1.map(|q| q * z)) },
        7 => if g == 0 { r.a[d] = (Com1::linear_map(&E::g1(&z)), [F::<E>::zero(), z]) } else { r.b[d] = (Com2::linear_map(&E::g2(&z)), [F::<E>::zero(), z]) },
        8 => if g == 0 { r.a[d] = (Com1::scalar_linear_map(&z, key), kd.0.map(|q| q * z)) } else { r.b[d] = (Com2::scalar_linear_map(&z, key), kd.1.map(|q| q * z)) },
        9 | 10 => {
            let s: Vec<F<E>> = many.iter().enumerate().map(|(n, q)| if q & 1 == 0 { z + F::<E>::from(n as u64) } else { F::<E>::zero() }).collect();
            macro_rules! batch { ($R:ident, $C:ident, $is:ident, $pt:expr, $kd:expr) => {{
                let l: Vec<$C<E>> = if k == 9 { $C::batch_linear_map(&s.iter().map($pt).collect::<Vec<_>>()) } else { $C::batch_scalar_linear_map(&s, key) };
                if l.len() != s.len() { return Err(format!("{} elements mapped to {}", s.len(), l.len())); }
                for (q, (c, z)) in l.into_iter().zip(&s).enumerate() {
                    let m = if k == 9 { [F::<E>::zero(), *z] } else { $kd.map(|u: F<E>| u * z) };
                    if !$is::<E>(&c, &m) { return Err(format!("element {q} of {} mapped at once", s.len())); }
                    r.$R[(d + q) % N] = (c, m);
                }
            }} }
            if g == 0 { batch!(a, Com1, is1, E::g1, kd.0) } else { batch!(b, Com2, is2, E::g2, kd.1) }
        }
        11 => match g { 0 => r.a[d] = (Com1::zero(), [F::<E>::zero(); 2]), 1 => r.b[d] = (Com2::zero(), [F::<E>::zero(); 2]), _ => r.t[d] = (ComT::zero(), [F::<E>::zero(); 4]) },
        12 => match g {
            0 => { let (c, m) = r.a[a]; let v = c.as_vec(); if v != vec![E::g1(&m[0]), E::g1(&m[1])] { return Err("as_vec of a G1 element".into()); } let col = c.as_col_vec(); if vec_to_col_vec(&v) != col || col_vec_to_vec(&col) != v { return Err("column form of a G1 element".into()); } r.a[d] = (Com1::from(col), m) }
            1 => { let (c, m) = r.b[a]; let v = c.as_vec(); if v != vec![E::g2(&m[0]), E::g2(&m[1])] { return Err("as_vec of a G2 element".into()); } let col = c.as_col_vec(); if vec_to_col_vec(&v) != col || col_vec_to_vec(&col) != v { return Err("column form of a G2 element".into()); } r.b[d] = (Com2::from(col), m) }
            _ => { let (c, m) = r.t[a]; let x = c.as_matrix(); if !ism(&x, &[vec![m[0], m[1]], vec![m[2], m[3]]], |x, k| *x == E::gt(k)) { return Err("matrix form of a target element".into()); } r.t[d] = (ComT::from(x), m);
                let v: Vec<u64> = (0..if i.v / 8 % 41 == 40 { i.v / 400 % 1100 } else { i.v / 8 % 7 }).map(|q| q * 3 + i.v).collect(); let col = vec_to_col_vec(&v); if col.iter().map(|r| r.len()).any(|l| l != 1) || col.len() != v.len() || col_vec_to_vec(&col) != v { return Err(format!("column form of a vector of {}", v.len())); } }
        },
        13 => { let (x, y) = (r.a[a], r.b[b]); r.t[d] = (ComT::pairing(x.0, y.0), [x.1[0] * y.1[0], x.1[0] * y.1[1], x.1[1] * y.1[0], x.1[1] * y.1[1]]) }
        14 => {
            let (x, y): (Vec<_>, Vec<_>) = many.iter().map(|q| (r.a[*q], r.b[(q * 3 + b) % N])).unzip();
            let c = ComT::pairing_sum(&x.iter().map(|x| x.0).collect::<Vec<_>>(), &y.iter().map(|y| y.0).collect::<Vec<_>>());
            let mut m = [F::<E>::zero(); 4];
            for (x, y) in x.iter().zip(&y) { for q in 0..4 { m[q] += x.1[q / 2] * y.1[q % 2]; } }
            r.t[d] = (c, m);
        }
        15 => {
            let o = F::<E>::zero();
            r.t[d] = match i.v / 2 % 4 {
                0 => (ComT::linear_map_PPE(&E::gt(&z)), [o, o, o, z]),
                1 => (ComT::linear_map_MSMEG1(&E::g1(&z), key), [o, o, z * kd.1[0], z * kd.1[1]]),
                2 => (ComT::linear_map_MSMEG2(&E::g2(&z), key), [o, kd.0[0] * z, o, kd.0[1] * z]),
                _ => (ComT::linear_map_quad(&z, key), [z * kd.0[0] * kd.1[0], z * kd.0[0] * kd.1[1], z * kd.0[1] * kd.1[0], z * kd.0[1] * kd.1[1]]),
            };
        }
        16 => {
            // equality: between registers, with the element rebuilt, and with one component altered
            macro_rules! eq { ($R:ident, $mk:ident, $n:expr, $name:expr) => {{
                let (x, y) = (r.$R[a], r.$R[b]);
                let mut m = x.1;
                m[(i.v / 4) as usize % $n] += w;
                if (x.0 == y.0) != (x.1 == y.1) { return Err(format!("equality of two elements of {}", $name)); }
                if x.0 != $mk::<E>(&x.1) { return Err(format!("an element of {} differs from itself", $name)); }
                if !w.is_zero() && x.0 == $mk::<E>(&m) { return Err(format!("elements of {} that differ in one component count as equal", $name)); }
                let zero = x.1.iter().all(|q| q.is_zero());
                if x.0.is_zero() != zero { return Err(format!("is_zero in {}", $name)); }
                let q = (i.v / 4) as usize % $n; let mut one = [F::<E>::zero(); $n]; one[q] = w;
                if !w.is_zero() && $mk::<E>(&one).is_zero() { return Err(format!("is_zero of a non-zero element of {}", $name)); }
            }} }
            match g { 0 => eq!(a, c1, 2, "B1"), 1 => eq!(b, c2, 2, "B2"), _ => eq!(t, ct, 4, "BT") }
        }
        17..=22 => {
            let par = i.v / 4 % 4 != 0;
            let fresh = i.v / 16 % 3 == 0;
            macro_rules! mat { ($R:ident, $conv:expr, $gen:expr, $zero:expr, $add:expr, $neg:expr, $scale:expr) => {{
                if fresh { let (p, q) = dims(i.v); let m = $gen(p, q); r.$R[a % 2] = (map(&m, $conv), m); }
                let (c, m) = r.$R[a % 2].clone();
                let (rows, cols) = (m.len(), m[0].len());
                let before = c.clone();
                let n = dims(i.v >> 5).0;
                let res = match k {
                    17 => { let o: Vec<Vec<_>> = if i.v / 64 % 4 == 0 { m.clone() } else { $gen(rows, cols) }; (Mat::add(&c, &map(&o, $conv)), m.iter().zip(&o).map(|(x, y)| x.iter().zip(y).map(|(x, y)| $add(*x, y)).collect::<Vec<_>>()).collect::<Vec<_>>()) }
                    18 => (Mat::neg(&c), map(&m, $neg)),
                    19 => (Mat::scalar_mul(&c, &z), map(&m, |x| $scale(x, &z))),
                    20 => (Mat::transpose(&c), tr(&m)),
                    21 => { let l = scalars::<E>(i.v ^ i.z, n, rows); (c.left_mul(&l, par), mul(&l, &m, $zero, |s, x, y| $add(s, &$scale(y, x)))) }
                    _ => { let q = scalars::<E>(i.v ^ i.z, cols, n); (c.right_mul(&q, par), mul(&m, &q, $zero, |s, x, y| $add(s, &$scale(x, y)))) }
                };
                if before.len() != c.len() || !ism(&c, &m, |x, y| *x == $conv(y)) { return Err("the operand of a matrix operation changed".into()); }
                r.$R[d % 2] = res;
                // keep the registers small
                if r.$R[d % 2].1.len() * r.$R[d % 2].1[0].len() > 200 { let m = $gen(2, 3); let bad = !ism(&r.$R[d % 2].0, &r.$R[d % 2].1, |x, y| *x == $conv(y)); if bad { return Ok(()); } r.$R[d % 2] = (map(&m, $conv), m); }
            }} }
            let pairs = |p: usize, q: usize| -> M<E> { let (x, y) = (scalars::<E>(i.z ^ 77, p, q), scalars::<E>(i.z ^ 78, p, q)); x.iter().zip(&y).map(|(x, y)| x.iter().zip(y).map(|(x, y)| [*x, *y]).collect()).collect() };
            let z2 = [F::<E>::zero(); 2];
            let add2 = |s: V<E>, x: &V<E>| -> V<E> { [s[0] + x[0], s[1] + x[1]] };
            let neg2 = |x: &V<E>| -> V<E> { [-x[0], -x[1]] };
            let scale2 = |x: &V<E>, s: &F<E>| -> V<E> { [x[0] * s, x[1] * s] };
            match i.v % 3 {
                0 => mat!(ma, |x: &V<E>| c1::<E>(x), pairs, z2, add2, neg2, scale2),
                1 => mat!(mb, |x: &V<E>| c2::<E>(x), pairs, z2, add2, neg2, scale2),
                _ => mat!(f, |x: &F<E>| *x, |p: usize, q: usize| scalars::<E>(i.z ^ 79, p, q), F::<E>::zero(), |s: F<E>, x: &F<E>| s + x, |x: &F<E>| -*x, |x: &F<E>, s: &F<E>| *x * s),
            }
        }
        _ => {
            use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Validate};
            count("fault.client_crash");
            let cm = comp(i.v & 1 == 0);
            macro_rules! reload { ($T:ty, $x:expr) => {{ let mut wr = FWrite::new(io); $x.serialize_with_mode(&mut wr, cm).map_err(|e| format!("saving registers: {e}"))?; let mut rd = FRead::new(&wr.d, io); let v = <$T>::deserialize_with_mode(&mut rd, cm, Validate::Yes).map_err(|e| format!("restoring registers: {e}"))?; v }} }
            let va = reload!(Vec<Com1<E>>, r.a.iter().map(|x| x.0).collect::<Vec<_>>());
            let vb = reload!(Vec<Com2<E>>, r.b.iter().map(|x| x.0).collect::<Vec<_>>());
            if va.len() != N || vb.len() != N { return Err("registers lost".into()); }
            for (x, c) in r.a.iter_mut().zip(va) { x.0 = c }
            for (x, c) in r.b.iter_mut().zip(vb) { x.0 = c }
            for x in r.ma.iter_mut() { x.0 = reload!(Matrix<Com1<E>>, x.0); }
            for x in r.mb.iter_mut() { x.0 = reload!(Matrix<Com2<E>>, x.0); }
            for x in r.f.iter_mut() { x.0 = reload!(Matrix<F<E>>, x.0); }
        }
    }
    Ok(())
}
fn check<E: Eng>(r: &Regs<E>) -> Result<(), String> {
    for (q, x) in r.a.iter().enumerate() { if !is1::<E>(&x.0, &x.1) { return Err(format!("register a{q}")); } }
    for (q, x) in r.b.iter().enumerate() { if !is2::<E>(&x.0, &x.1) { return Err(format!("register b{q}")); } }
    for (q, x) in r.t.iter().enumerate() { if !ist::<E>(&x.0, &x.1) { return Err(format!("register t{q}")); } }
    for (q, x) in r.ma.iter().enumerate() { if !ism(&x.0, &x.1, is1::<E>) { return Err(format!("matrix register a{q}")); } }
    for (q, x) in r.mb.iter().enumerate() { if !ism(&x.0, &x.1, is2::<E>) { return Err(format!("matrix register b{q}")); } }
    for (q, x) in r.f.iter().enumerate() { if !ism(&x.0, &x.1, |x, y| x == y) { return Err(format!("matrix register s{q}")); } }
    Ok(())
}

pub fn exec<E: Eng>(plan: &Value) -> Res {
    let b: Body = serde_json::from_value(plan["body"].clone()).unwrap();
    begin(plan);
    if b.clients.is_empty() { return Ok(()); }
    // a key with known discrete logarithms
    let mut pl = b.crs.clone();
    if pl.kind == 0 { pl.kind = 1; }
    let key = make_crs::<E>(&pl);
    let td = key.td.unwrap();
    let hid = if pl.kind == 2 { F::<E>::one() } else { F::<E>::zero() };
    let kd = ([td.p1 * td.t1, td.p1 * td.a1 * td.t1 - td.p1 * hid + td.p1], [td.p2 * td.t2, td.p2 * td.a2 * td.t2 - td.p2 * hid + td.p2]);
    let s = |k: usize| sc::<F<E>>(b.init.get(k).copied().unwrap_or(0));
    let v = |k: usize| [s(k % 12), s((k + 5) % 12)];
    let t = |k: usize| [s(k % 12), s((k + 1) % 12), s((k + 7) % 12), s((k + 3) % 12)];
    let m = |p: usize, q: usize, k: usize| -> M<E> { (0..p).map(|i| (0..q).map(|j| v(k + i * q + j)).collect()).collect() };
    let ms = |p: usize, q: usize, k: usize| -> Matrix<F<E>> { (0..p).map(|i| (0..q).map(|j| s((k + i * q + j) % 12)).collect()).collect() };
    let start = Regs::<E> { a: (0..N).map(|k| (c1::<E>(&v(k)), v(k))).collect(), b: (0..N).map(|k| (c2::<E>(&v(k + 3)), v(k + 3))).collect(), t: (0..N).map(|k| (ct::<E>(&t(k)), t(k))).collect(),
        f: (0..2).map(|k| (ms(2, 3, k), ms(2, 3, k))).collect(), ma: (0..2).map(|k| { let x = m(2 + k, 2, k); (map(&x, c1::<E>), x) }).collect(), mb: (0..2).map(|k| { let x = m(2, 2 + k, k); (map(&x, c2::<E>), x) }).collect() };
    sample(json!({"engine": E::NAME, "clients": b.clients.iter().map(|c| c.iter().map(|i| OPS[i.k as usize % OPS.len()]).collect::<Vec<_>>()).collect::<Vec<_>>()}));
    nontrivial();
    let run = |c: usize| -> Res {
        let mut r = start.clone();
        for (q, i) in b.clients[c].iter().enumerate() {
            let name = OPS[i.k as usize % OPS.len()];
            match catch(|| step(&mut r, i, &key.crs, &kd, &b.io)) {
                Ok(Ok(())) => {}
                Ok(Err(m)) => return viol("wrong-result", format!("client {c}, instruction {q} ({name}): {m}")),
                Err(Caught::Panic(m)) => return viol("panic", format!("client {c}, instruction {q} ({name}): {m}")),
                Err(_) => unreachable!(),
            }
            count(&format!("op.{name}"));
            if let Err(m) = check(&r) { return viol("wrong-result", format!("client {c}, instruction {q} ({name}): {m} is not what the model says")); }
            log(format!("{c}.{q} {name}: {:016x}", fnv(FNV0, &serc(&r.a.iter().map(|x| x.0).collect::<Vec<_>>()))));
        }
        Ok(())
    };
    match b.callers % 3 {
        0 => (0..b.clients.len()).try_for_each(run),
        1 => (0..b.clients.len()).into_par_iter().map(run).collect::<Vec<_>>().into_iter().collect(),
        _ => std::thread::scope(|sc| { let run = &run; let h: Vec<_> = (0..b.clients.len()).map(|i| sc.spawn(move || run(i))).collect(); join_all(h) }),
    }
}
