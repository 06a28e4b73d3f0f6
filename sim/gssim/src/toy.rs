//! A toy bilinear group with visible discrete logarithms.
//!
//! G1 and G2 are Z_r x Z_5 (a prime-order part and a small cofactor part, so that "not in the
//! right subgroup" is a representable and detectable condition), written so that the generic
//! library code sees ordinary affine / projective groups with compressed and uncompressed
//! encodings and validity checks.  The target group is a real subgroup of order r of F_{p^2}*.
//! Everything the library computes is computed by the library's own code; only the arithmetic of
//! the underlying curve is replaced.
use ark_ec::pairing::{MillerLoopOutput, Pairing, PairingOutput};
use ark_ec::scalar_mul::{variable_base::VariableBaseMSM, ScalarMul};
use ark_ec::{AffineRepr, CurveConfig, CurveGroup, PrimeGroup};
use ark_ff::{AdditiveGroup, BigInt, Field, Fp2, Fp128, Fp2Config, MontBackend, MontConfig, MontFp, One, PrimeField, UniformRand, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Read, SerializationError, Valid, Validate, Write};
use core::fmt;
use core::hash::Hash;
use core::iter::Sum;
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use ark_std::rand::{distributions::{Distribution, Standard}, Rng};
use zeroize::Zeroize;

#[derive(MontConfig)]
#[modulus = "1329227995784915872903807060280343029"]
#[generator = "2"]
pub struct FrCfg;
/// Two machine words, like the larger scalars of real engines.
pub type Fr = Fp128<MontBackend<FrCfg, 2>>;
pub const R: u128 = 1329227995784915872903807060280343029;
pub const H: u8 = 5;
/// Torsion part of a point that is not on the "curve" at all.
pub const OFF: u8 = 101;

#[derive(MontConfig)]
#[modulus = "21267647932558653966460912964485488463"]
#[generator = "3"]
pub struct FqCfg;
pub type Fq = Fp128<MontBackend<FqCfg, 2>>;

pub struct Fq2Cfg;
impl Fp2Config for Fq2Cfg {
    type Fp = Fq;
    const NONRESIDUE: Fq = MontFp!("-1");
    const FROBENIUS_COEFF_FP2_C1: &'static [Fq] = &[MontFp!("1"), MontFp!("-1")];
}
pub type Fq2 = Fp2<Fq2Cfg>;

pub fn limb(f: &Fr) -> u128 { let b = f.into_bigint().0; b[0] as u128 | (b[1] as u128) << 64 }
pub fn fr(x: u128) -> Fr { Fr::from(x % R) }

/// The redundant coordinate of the uncompressed encoding ("the curve equation").
fn ycoord(a: u128, h: u8, side: u64) -> u64 {
    let mut z = (a as u64) ^ ((a >> 64) as u64).rotate_left(23).wrapping_mul(0xD6E8FEB86659FD93) ^ ((h as u64) << 60) ^ side.wrapping_mul(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

macro_rules! group {
    ($A:ident, $P:ident, $Cfg:ident, $side:expr) => {
        #[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
        pub struct $A { pub a: Fr, pub h: u8 }
        /// "Projective": the same group with a redundant scaling z that must not matter.
        #[derive(Clone, Copy)]
        pub struct $P { pub a: Fr, pub h: u8, pub z: u8 }

        pub struct $Cfg;
        impl CurveConfig for $Cfg {
            type BaseField = Fq;
            type ScalarField = Fr;
            const COFACTOR: &'static [u64] = &[H as u64];
            const COFACTOR_INV: Fr = MontFp!("265845599156983174580761412056068606");
        }
        impl $A {
            pub fn new(a: Fr, h: u8) -> Self { Self { a, h: h % H } }
            pub fn dlog(&self) -> Fr { self.a }
        }
        impl $P {
            fn n(a: Fr, h: u8, z: u8) -> Self { simos::point(); Self { a, h: h % H, z } }
        }
        impl PartialEq for $P { fn eq(&self, o: &Self) -> bool { self.a == o.a && self.h == o.h } }
        impl Eq for $P {}
        impl Hash for $P { fn hash<S: core::hash::Hasher>(&self, s: &mut S) { self.a.hash(s); self.h.hash(s) } }
        impl Default for $P { fn default() -> Self { Self { a: Fr::zero(), h: 0, z: 1 } } }
        impl fmt::Debug for $A { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}{}", limb(&self.a), if self.h != 0 { format!("+t{}", self.h) } else { String::new() }) } }
        impl fmt::Display for $A { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self, f) } }
        impl fmt::Debug for $P { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "P{}", limb(&self.a)) } }
        impl fmt::Display for $P { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self, f) } }
        impl Zeroize for $A { fn zeroize(&mut self) { *self = Self::default() } }
        impl Zeroize for $P { fn zeroize(&mut self) { *self = Self::default() } }
        impl From<$A> for $P { fn from(x: $A) -> Self { Self { a: x.a, h: x.h, z: 1 } } }
        impl From<$P> for $A { fn from(x: $P) -> Self { simos::point(); Self { a: x.a, h: x.h } } }
        impl Zero for $P { fn zero() -> Self { Self::default() } fn is_zero(&self) -> bool { self.a.is_zero() && self.h == 0 } }
        impl Neg for $P { type Output = Self; fn neg(self) -> Self { Self::n(-self.a, (H - self.h % H) % H, self.z) } }
        impl Neg for $A { type Output = Self; fn neg(self) -> Self { Self { a: -self.a, h: (H - self.h % H) % H } } }

        impl Distribution<$A> for Standard { fn sample<R2: Rng + ?Sized>(&self, rng: &mut R2) -> $A { $A { a: Fr::rand(rng), h: 0 } } }
        impl Distribution<$P> for Standard { fn sample<R2: Rng + ?Sized>(&self, rng: &mut R2) -> $P { $P { a: Fr::rand(rng), h: 0, z: 1 } } }

        group!(@ops $P, $P, $P);
        group!(@ops $P, $A, $P);
        group!(@assign $P, $P);
        group!(@assign $P, $A);
        group!(@ops $A, $A, $P);
        group!(@ops $A, $P, $P);
        impl<'a> Add<&'a mut $P> for $P { type Output = $P; fn add(self, o: &'a mut $P) -> $P { self + *o } }
        impl<'a> Sub<&'a mut $P> for $P { type Output = $P; fn sub(self, o: &'a mut $P) -> $P { self - *o } }
        impl<'a> AddAssign<&'a mut $P> for $P { fn add_assign(&mut self, o: &'a mut $P) { *self += *o } }
        impl<'a> SubAssign<&'a mut $P> for $P { fn sub_assign(&mut self, o: &'a mut $P) { *self -= *o } }
        impl Mul<Fr> for $P { type Output = $P; fn mul(self, k: Fr) -> $P { $P::n(self.a * k, (((self.h as u128) * (limb(&k) % H as u128)) % H as u128) as u8, self.z) } }
        impl<'a> Mul<&'a Fr> for $P { type Output = $P; fn mul(self, k: &'a Fr) -> $P { self * *k } }
        impl<'a> Mul<&'a mut Fr> for $P { type Output = $P; fn mul(self, k: &'a mut Fr) -> $P { self * *k } }
        impl MulAssign<Fr> for $P { fn mul_assign(&mut self, k: Fr) { *self = *self * k } }
        impl<'a> MulAssign<&'a Fr> for $P { fn mul_assign(&mut self, k: &'a Fr) { *self = *self * *k } }
        impl<'a> MulAssign<&'a mut Fr> for $P { fn mul_assign(&mut self, k: &'a mut Fr) { *self = *self * *k } }
        impl Mul<Fr> for $A { type Output = $P; fn mul(self, k: Fr) -> $P { $P::from(self) * k } }
        impl<'a> Mul<&'a Fr> for $A { type Output = $P; fn mul(self, k: &'a Fr) -> $P { $P::from(self) * *k } }
        impl Sum<$P> for $P { fn sum<I: Iterator<Item = $P>>(i: I) -> $P { i.fold(<$P as Zero>::zero(), |x, y| x + y) } }
        impl<'a> Sum<&'a $P> for $P { fn sum<I: Iterator<Item = &'a $P>>(i: I) -> $P { i.fold(<$P as Zero>::zero(), |x, y| x + *y) } }
        impl Sum<$A> for $P { fn sum<I: Iterator<Item = $A>>(i: I) -> $P { i.fold(<$P as Zero>::zero(), |x, y| x + y) } }
        impl<'a> Sum<&'a $A> for $P { fn sum<I: Iterator<Item = &'a $A>>(i: I) -> $P { i.fold(<$P as Zero>::zero(), |x, y| x + *y) } }

        // Encodings.  compressed: 16 bytes a (LE), 1 byte torsion;
        // uncompressed: 16 bytes a, 1 byte torsion, 8 bytes redundant coordinate.
        impl CanonicalSerialize for $A {
            fn serialize_with_mode<W: Write>(&self, mut w: W, c: Compress) -> Result<(), SerializationError> {
                let a = limb(&self.a);
                w.write_all(&a.to_le_bytes())?;
                w.write_all(&[self.h])?;
                if let Compress::No = c { w.write_all(&ycoord(a, self.h, $side).to_le_bytes())?; }
                Ok(())
            }
            fn serialized_size(&self, c: Compress) -> usize { match c { Compress::Yes => 17, Compress::No => 25 } }
        }
        impl Valid for $A {
            fn check(&self) -> Result<(), SerializationError> { if self.h == 0 { Ok(()) } else { Err(SerializationError::InvalidData) } }
        }
        impl CanonicalDeserialize for $A {
            fn deserialize_with_mode<R2: Read>(mut r: R2, c: Compress, v: Validate) -> Result<Self, SerializationError> {
                let mut b = [0u8; 16];
                r.read_exact(&mut b)?;
                let a = u128::from_le_bytes(b);
                let mut h = [0u8; 1];
                r.read_exact(&mut h)?;
                if a >= R { return Err(SerializationError::InvalidData); }
                let h = h[0];
                if h >= H { return Err(SerializationError::UnexpectedFlags); }
                let mut off = false;
                if let Compress::No = c {
                    let mut b = [0u8; 8];
                    r.read_exact(&mut b)?;
                    // like a real curve: off it unless the equation holds, and only noticed when validating
                    if u64::from_le_bytes(b) != ycoord(a, h, $side) { off = true; }
                }
                let x = if off { $A { a: fr(a), h: OFF } } else { $A { a: fr(a), h } };
                if let Validate::Yes = v { x.check()?; }
                Ok(x)
            }
        }
        impl CanonicalSerialize for $P {
            fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> { $A::from(*self).serialize_with_mode(w, c) }
            fn serialized_size(&self, c: Compress) -> usize { $A::from(*self).serialized_size(c) }
        }
        impl Valid for $P { fn check(&self) -> Result<(), SerializationError> { $A::from(*self).check() } }
        impl CanonicalDeserialize for $P {
            fn deserialize_with_mode<R2: Read>(r: R2, c: Compress, v: Validate) -> Result<Self, SerializationError> { Ok($A::deserialize_with_mode(r, c, v)?.into()) }
        }

        impl AdditiveGroup for $P {
            type Scalar = Fr;
            const ZERO: Self = Self { a: Fr::ZERO, h: 0, z: 1 };
            fn double_in_place(&mut self) -> &mut Self { *self = *self + *self; self }
        }
        impl PrimeGroup for $P {
            type ScalarField = Fr;
            fn generator() -> Self { Self { a: Fr::ONE, h: 0, z: 1 } }
            fn mul_bigint(&self, o: impl AsRef<[u64]>) -> Self {
                let mut m = Fr::zero();
                let mut t = 0u64;
                let two64 = Fr::from(1u64 << 32).square();
                for l in o.as_ref().iter().rev() {
                    m = m * two64 + Fr::from(*l);
                    t = (t * ((u64::MAX % H as u64) + 1) + l % H as u64) % H as u64;
                }
                Self::n(self.a * m, ((self.h as u64 * t) % H as u64) as u8, self.z)
            }
        }
        impl ScalarMul for $P {
            type MulBase = $A;
            const NEGATION_IS_CHEAP: bool = true;
            fn batch_convert_to_mul_base(v: &[Self]) -> Vec<$A> { v.iter().map(|x| (*x).into()).collect() }
        }
        impl VariableBaseMSM for $P {}
        impl CurveGroup for $P {
            type Config = $Cfg;
            type BaseField = Fq;
            type Affine = $A;
            type FullGroup = $A;
            fn normalize_batch(v: &[Self]) -> Vec<$A> { v.iter().map(|x| (*x).into()).collect() }
        }
        impl AffineRepr for $A {
            type Config = $Cfg;
            type ScalarField = Fr;
            type BaseField = Fq;
            type Group = $P;
            /// As on a curve: a point and its negative share x and have opposite y.
            fn xy(&self) -> Option<(Fq, Fq)> {
                if self.a.is_zero() && self.h == 0 { return None; }
                let (a, h) = (limb(&self.a), (self.h % H) as u128);
                let plus = if a == 0 { h <= 2 } else { a < R - a };
                let x = Fq::from(if plus { a * 8 + h } else { (R - a) % R * 8 + (H as u128 - h) % H as u128 });
                let y = x + Fq::ONE;
                Some((x, if plus { y } else { -y }))
            }
            fn zero() -> Self { Self::default() }
            fn generator() -> Self { Self { a: Fr::ONE, h: 0 } }
            fn from_random_bytes(b: &[u8]) -> Option<Self> { Fr::from_random_bytes(b).map(|a| Self { a, h: 0 }) }
            fn mul_bigint(&self, by: impl AsRef<[u64]>) -> $P { $P::from(*self).mul_bigint(by) }
            fn clear_cofactor(&self) -> Self { self.mul_by_cofactor_to_group().into() }
            fn mul_by_cofactor_to_group(&self) -> $P { $P::from(*self) * Fr::from(H as u64) }
        }
    };
    (@ops $L:ident, $Rt:ident, $O:ident) => {
        impl Add<$Rt> for $L { type Output = $O; fn add(self, o: $Rt) -> $O { $O::n(self.a + o.a, self.h % H + o.h % H, 3) } }
        impl<'a> Add<&'a $Rt> for $L { type Output = $O; fn add(self, o: &'a $Rt) -> $O { self + *o } }
        impl Sub<$Rt> for $L { type Output = $O; fn sub(self, o: $Rt) -> $O { $O::n(self.a - o.a, self.h % H + H - o.h % H, 5) } }
        impl<'a> Sub<&'a $Rt> for $L { type Output = $O; fn sub(self, o: &'a $Rt) -> $O { self - *o } }
    };
    (@assign $L:ident, $Rt:ident) => {
        impl AddAssign<$Rt> for $L { fn add_assign(&mut self, o: $Rt) { *self = *self + o } }
        impl<'a> AddAssign<&'a $Rt> for $L { fn add_assign(&mut self, o: &'a $Rt) { *self = *self + *o } }
        impl SubAssign<$Rt> for $L { fn sub_assign(&mut self, o: $Rt) { *self = *self - o } }
        impl<'a> SubAssign<&'a $Rt> for $L { fn sub_assign(&mut self, o: &'a $Rt) { *self = *self - *o } }
    };
}
group!(T1, P1, Cfg1, 1);
group!(T2, P2, Cfg2, 2);

macro_rules! prepared {
    ($N:ident, $A:ident, $P:ident) => {
        #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, CanonicalSerialize, CanonicalDeserialize)]
        pub struct $N(pub $A);
        impl From<$A> for $N { fn from(x: $A) -> Self { $N(x) } }
        impl<'a> From<&'a $A> for $N { fn from(x: &'a $A) -> Self { $N(*x) } }
        impl From<$P> for $N { fn from(x: $P) -> Self { $N(x.into()) } }
        impl<'a> From<&'a $P> for $N { fn from(x: &'a $P) -> Self { $N((*x).into()) } }
    };
}
prepared!(Prep1, T1, P1);
prepared!(Prep2, T2, P2);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Toy;

pub fn gt_base() -> Fq2 {
    Fq2::new(Fq::from_bigint(BigInt::new([16692266968937413798, 54304243608006272])).unwrap(), Fq::from_bigint(BigInt::new([7667683479118391456, 207206243466093115])).unwrap())
}

const WIN: usize = 6;
const ROWS: usize = 20;
struct Table([[Fq2; 1 << WIN]; ROWS]);
static mut TABLE: Option<Box<Table>> = None;
/// Must be called once, before any simulated run.
#[allow(static_mut_refs)]
pub fn init() {
    let mut t = Box::new(Table([[Fq2::ONE; 1 << WIN]; ROWS]));
    let mut b = gt_base();
    for row in t.0.iter_mut() {
        for i in 1..1 << WIN { row[i] = row[i - 1] * b; }
        b = row[(1 << WIN) - 1] * b;
    }
    unsafe { TABLE = Some(t); }
}
/// base^k in the target group
#[allow(static_mut_refs)]
pub fn gt_pow(k: &Fr) -> PairingOutput<Toy> {
    let mut k = limb(k);
    let t = unsafe { TABLE.as_ref().expect("toy::init") };
    let mut r = Fq2::ONE;
    for row in t.0.iter() {
        let d = (k as usize) & ((1 << WIN) - 1);
        if d != 0 { r *= row[d]; }
        k >>= WIN;
        if k == 0 { break; }
    }
    PairingOutput(r)
}

impl Pairing for Toy {
    type BaseField = Fq;
    type ScalarField = Fr;
    type G1 = P1;
    type G1Affine = T1;
    type G1Prepared = Prep1;
    type G2 = P2;
    type G2Affine = T2;
    type G2Prepared = Prep2;
    type TargetField = Fq2;
    fn multi_miller_loop(a: impl IntoIterator<Item = impl Into<Prep1>>, b: impl IntoIterator<Item = impl Into<Prep2>>) -> MillerLoopOutput<Self> {
        simos::point();
        let mut e = Fr::zero();
        // like the real engines, the shorter list decides
        for (x, y) in a.into_iter().zip(b) { e += x.into().0.a * y.into().0.a; }
        MillerLoopOutput(gt_pow(&e).0)
    }
    fn final_exponentiation(m: MillerLoopOutput<Self>) -> Option<PairingOutput<Self>> { simos::point(); if m.0.is_zero() { None } else { Some(PairingOutput(m.0)) } }
}

pub fn selftest() {
    let g = gt_base();
    assert!(g.pow([R as u64, (R >> 64) as u64]).is_one() && !g.is_one());
    let a = fr(123456789012345 << 70);
    let b = fr(R - 17);
    assert_eq!(gt_pow(&a).0, g.pow([limb(&a) as u64, (limb(&a) >> 64) as u64]));
    assert_eq!(Toy::pairing(T1::new(a, 0), T2::new(b, 3)), gt_pow(&(a * b)));
    assert_eq!((P1::generator() * a) + (P1::generator() * b), P1::generator() * (a + b));
    let x = T1::new(a, 2);
    assert_eq!(x.mul_bigint([0xdeadbeefu64, 77]), x.mul_bigint([0xdeadbeefu64]) + (x.mul_bigint([1u64 << 32])).mul_bigint([1u64 << 32]).mul_bigint([77u64]));
    for c in [Compress::Yes, Compress::No] {
        let mut v = vec![];
        T2::new(b, 0).serialize_with_mode(&mut v, c).unwrap();
        assert_eq!(v.len(), T2::new(b, 0).serialized_size(c));
        assert_eq!(T2::deserialize_with_mode(&v[..], c, Validate::Yes).unwrap(), T2::new(b, 0));
    }
    let _ = Fr::rand(&mut ark_std::rand::rngs::mock::StepRng::new(1, 1));
}
