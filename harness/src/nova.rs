//! Step functions, parameters and proofs for the monitors of the folding scheme.
use crate::big::*;
use crate::curve::*;
use crate::mon::below;
use crate::pts::*;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use rand_chacha::ChaCha20Rng;
use rand_core::{RngCore, SeedableRng};
use std::marker::PhantomData;
use zknova::{Bn254Driver, FunctionCircuit, GrumpkinDriver, Ivc, PublicParams, RecursiveProof};
use zkstd::circuit::prelude::*;
use zkstd::common::*;
use zkstd::matrix::DenseVectors;

pub trait StepFn: Clone + std::fmt::Debug + Default + PartialEq + Eq + Encode + Decode + Send + Sync + 'static {
    const NAME: &'static str;
    fn native(z: &num_bigint::BigUint, p: &num_bigint::BigUint) -> num_bigint::BigUint;
    fn circuit<C: CircuitDriver>(cs: &mut R1cs<C>, z: &FieldAssignment<C::Scalar>) -> FieldAssignment<C::Scalar>;
}
fn k<C: CircuitDriver>(v: u64) -> FieldAssignment<C::Scalar> {
    FieldAssignment::constant(&C::Scalar::from(v))
}
macro_rules! step {
    ($n:ident, $z:ident, $p:ident, $native:expr, $cs:ident, $a:ident, $circ:expr) => {
        #[derive(Clone, Debug, Default, PartialEq, Eq, Encode, Decode)]
        pub struct $n;
        impl StepFn for $n {
            const NAME: &'static str = stringify!($n);
            fn native($z: &num_bigint::BigUint, $p: &num_bigint::BigUint) -> num_bigint::BigUint {
                ($native) % $p
            }
            fn circuit<C: CircuitDriver>($cs: &mut R1cs<C>, $a: &FieldAssignment<C::Scalar>) -> FieldAssignment<C::Scalar> {
                $circ
            }
        }
    };
}
// z^3 + z + 5
step!(Cubic, z, p, z * z * z + z + 5u32, cs, a, {
    let s = FieldAssignment::mul(cs, a, a);
    let c = FieldAssignment::mul(cs, &s, a);
    &(&c + a) + &k::<C>(5)
});
// no constraint at all
step!(Shift, z, p, z + 7u32, cs, a, { &(a.clone()) + &k::<C>(7) });
// the same shape with another constant
step!(Shift9, z, p, z + 9u32, cs, a, { &(a.clone()) + &k::<C>(9) });
// the identity
step!(Same, z, p, z.clone(), cs, a, { a.clone() });
// 1 if z = 3, else z - 1: a loop that meets zero
step!(Countdown, z, p, if *z == 3u32.into() { num_bigint::BigUint::from(1u32) } else { z + p - 1u32 }, cs, a, {
    let three = FieldAssignment::is_eq(cs, a, &k::<C>(3));
    FieldAssignment::conditional_select(cs, &k::<C>(1), &(a - &k::<C>(1)), &three)
});
// many multiplications
step!(Chain, z, p, { let mut v = z.clone(); for _ in 0..300 { v = (&v * &v + 1u32) % p } v }, cs, a, {
    let mut v = a.clone();
    for _ in 0..300 {
        v = &FieldAssignment::mul(cs, &v, &v) + &k::<C>(1);
    }
    v
});

/// the code's view of a step function
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
pub struct Fun<S, B>(PhantomData<(S, B)>);
impl<S, B> Default for Fun<S, B> {
    fn default() -> Self {
        Fun(PhantomData)
    }
}
impl<S: StepFn, F: KField> FunctionCircuit<F> for Fun<S, F> {
    fn invoke(z: &DenseVectors<F>) -> DenseVectors<F> {
        DenseVectors::new(vec![F::of(&S::native(&z[0].big(), &F::modulus()))])
    }
    fn invoke_cs<C: CircuitDriver<Scalar = F>>(cs: &mut R1cs<C>, z: Vec<FieldAssignment<F>>) -> Vec<FieldAssignment<F>> {
        vec![S::circuit(cs, &z[0])]
    }
}
pub type Fr = bn_254::Fr;
pub type Fq = bn_254::Fq;
pub type Pp<A, B> = PublicParams<Bn254Driver, GrumpkinDriver, Fun<A, Fr>, Fun<B, Fq>>;
pub type Run<A, B> = Ivc<Bn254Driver, GrumpkinDriver, Fun<A, Fr>, Fun<B, Fq>>;
pub type Rp<A, B> = RecursiveProof<Bn254Driver, GrumpkinDriver, Fun<A, Fr>, Fun<B, Fq>>;

pub fn pp<A: StepFn, B: StepFn>(seed: u64) -> Pp<A, B> {
    PublicParams::setup(&mut ChaCha20Rng::seed_from_u64(seed))
}
pub fn start<A: StepFn, B: StepFn>(pp: &Pp<A, B>, z: (Fr, Fq)) -> Run<A, B> {
    Ivc::init(pp, DenseVectors::new(vec![z.0]), DenseVectors::new(vec![z.1]))
}

// ---------------------------------------------------------------------------------------------------------------------
// independent hash: BLAKE2b (RFC 7693), MiMC in Feistel mode, the sponge around it
const IV: [u64; 8] = [
    0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f,
    0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
];
const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];
/// unkeyed 64-byte BLAKE2b with a personalisation string
pub fn blake2b(personal: &[u8], msg: &[u8]) -> [u8; 64] {
    let mut per = [0u8; 16];
    per[..personal.len()].copy_from_slice(personal);
    let mut h = IV;
    h[0] ^= 0x0101_0000 ^ 64;
    h[6] ^= u64::from_le_bytes(per[..8].try_into().unwrap());
    h[7] ^= u64::from_le_bytes(per[8..].try_into().unwrap());
    let blocks = ((msg.len() + 127) / 128).max(1);
    for b in 0..blocks {
        let mut m = [0u8; 128];
        let end = msg.len().min(128 * (b + 1));
        m[..end - 128 * b].copy_from_slice(&msg[128 * b..end]);
        let w: Vec<u64> = m.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        let mut v = [0u64; 16];
        v[..8].copy_from_slice(&h);
        v[8..].copy_from_slice(&IV);
        v[12] ^= end as u64;
        if b + 1 == blocks {
            v[14] = !v[14];
        }
        for r in 0..12 {
            let s = &SIGMA[r % 10];
            let mut g = |a: usize, b: usize, c: usize, d: usize, x: u64, y: u64| {
                v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
                v[d] = (v[d] ^ v[a]).rotate_right(32);
                v[c] = v[c].wrapping_add(v[d]);
                v[b] = (v[b] ^ v[c]).rotate_right(24);
                v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
                v[d] = (v[d] ^ v[a]).rotate_right(16);
                v[c] = v[c].wrapping_add(v[d]);
                v[b] = (v[b] ^ v[c]).rotate_right(63);
            };
            g(0, 4, 8, 12, w[s[0]], w[s[1]]);
            g(1, 5, 9, 13, w[s[2]], w[s[3]]);
            g(2, 6, 10, 14, w[s[4]], w[s[5]]);
            g(3, 7, 11, 15, w[s[6]], w[s[7]]);
            g(0, 5, 10, 15, w[s[8]], w[s[9]]);
            g(1, 6, 11, 12, w[s[10]], w[s[11]]);
            g(2, 7, 8, 13, w[s[12]], w[s[13]]);
            g(3, 4, 9, 14, w[s[14]], w[s[15]]);
        }
        for i in 0..8 {
            h[i] ^= v[i] ^ v[i + 8];
        }
    }
    let mut out = [0u8; 64];
    for (o, x) in out.chunks_mut(8).zip(h) {
        o.copy_from_slice(&x.to_le_bytes());
    }
    out
}
pub const ROUNDS: usize = 46;
#[derive(Clone)]
pub struct MimcO {
    pub p: BigUint,
    pub c: Vec<BigUint>,
}
impl MimcO {
    pub fn new(p: BigUint) -> Self {
        // the stream hashes its own digests
        let mut msg = vec![];
        let mut c = vec![];
        for _ in 0..ROUNDS {
            let d = blake2b(b"mimc", &msg);
            msg.extend_from_slice(&d);
            c.push(BigUint::from_bytes_le(&blake2b(b"mimc", &msg)) % &p);
        }
        MimcO { p, c }
    }
    pub fn hash(&self, xl: &BigUint, xr: &BigUint) -> BigUint {
        let (mut l, mut r) = (xl.clone(), xr.clone());
        let seven = BigUint::from(7u32);
        for c in &self.c {
            let n = ((&l + c).modpow(&seven, &self.p) + &r) % &self.p;
            r = l;
            l = n;
        }
        l
    }
    /// Miyaguchi–Preneel over the absorbed values, from zero
    pub fn absorb(&self, items: &[BigUint]) -> BigUint {
        items.iter().fold(BigUint::zero(), |a, s| (&a + s + self.hash(s, &a)) % &self.p)
    }
    /// the low bits of the sponge
    pub fn squeeze(&self, items: &[BigUint], bits: u64) -> BigUint {
        self.absorb(items) % pow2(bits)
    }
}
pub fn limbs64(v: &BigUint) -> Vec<BigUint> {
    (0..4u64).map(|i| (v >> (64 * i)) % pow2(64)).collect()
}
pub fn point_items(p: &Pt<BigUint>) -> Vec<BigUint> {
    match p {
        None => vec![BigUint::zero(), BigUint::one(), BigUint::zero()],
        Some((x, y)) => vec![x.clone(), y.clone(), BigUint::one()],
    }
}

// ---------------------------------------------------------------------------------------------------------------------
/// a driver with its curve's oracle
pub trait Drv: CircuitDriver<Scalar = Self::S, Base = Self::B, Affine = Self::Af> + Send + Sync + 'static {
    const N: &'static str;
    type S: KField + From<Self::B> + serde::Serialize + for<'de> serde::Deserialize<'de>;
    type B: KField + From<Self::S> + serde::Serialize + for<'de> serde::Deserialize<'de>;
    type Af: BNAffine<Scalar = Self::S, Base = Self::B> + Group + Copy;
    type K: KCurve<O = Fp, A = Self::Af, S = Self::S, B = Self::B>;
    /// the driver whose circuits compute over this curve
    type Other: Drv<S = Self::B, B = Self::S>;
}
impl Drv for Bn254Driver {
    const N: &'static str = "bn254";
    type S = bn_254::Fr;
    type B = bn_254::Fq;
    type Af = bn_254::G1Affine;
    type K = G1;
    type Other = GrumpkinDriver;
}
impl Drv for GrumpkinDriver {
    const N: &'static str = "grumpkin";
    type S = bn_254::Fq;
    type B = bn_254::Fr;
    type Af = grumpkin::Affine;
    type K = Grumpkin;
    type Other = Bn254Driver;
}
pub type Aff<C> = <C as CircuitDriver>::Affine;
/// g * s by plain double-and-add
pub fn gmul<A: BNAffine>(g: A, s: &BigUint) -> A {
    let mut acc = A::Extended::ADDITIVE_IDENTITY;
    for i in (0..s.bits()).rev() {
        acc = acc.double();
        if s.bit(i) {
            acc = acc + g.to_extended();
        }
    }
    acc.into()
}
/// a commitment key whose generators have known logarithms
#[derive(Clone)]
pub struct Key<C: Drv> {
    pub ck: zknova::PedersenCommitment<Aff<C>>,
    pub logs: Vec<BigUint>,
    pub g: Vec<Aff<C>>,
}
impl<C: Drv> Key<C> {
    pub fn new(rng: &mut impl RngCore, n: usize) -> Self {
        let r = C::S::modulus();
        // runs of consecutive multiples: cheap to make, and no two generators are equal
        let (mut logs, mut g) = (vec![], vec![]);
        let base = C::Af::ADDITIVE_GENERATOR;
        let (mut d, mut p) = (BigUint::zero(), base);
        for i in 0..n {
            if i % 64 == 0 {
                d = gen_rand(rng, &r);
                p = gmul(base, &d);
            } else {
                d = (d + 1u32) % &r;
                p = (p + base).into();
            }
            logs.push(d.clone());
            g.push(p);
        }
        let ck = zknova::PedersenCommitment::decode(&mut &g.encode()[..]).expect("a key is a vector of points");
        Key { ck, logs, g }
    }
    pub fn log(&self, m: &[BigUint]) -> BigUint {
        m.iter().zip(&self.logs).fold(BigUint::zero(), |s, (a, b)| s + a * b) % C::S::modulus()
    }
    pub fn commit(&self, m: &[BigUint]) -> Aff<C> {
        gmul(C::Af::ADDITIVE_GENERATOR, &self.log(m))
    }
}
pub fn bigs<F: KField>(v: &[F]) -> Vec<BigUint> {
    v.iter().map(|x| x.big()).collect()
}
pub fn of_bigs<F: KField>(v: &[BigUint]) -> Vec<F> {
    v.iter().map(|x| F::of(x)).collect()
}

/// A circuit drawn from `shape` with the values drawn from `vals`: `nx` public inputs, then `len` constraints.
pub fn program<C: Drv>(shape: u64, vals: u64, nx: u64, nw: u64, len: u64) -> R1cs<C> {
    let mut sh = ChaCha20Rng::seed_from_u64(shape);
    let mut va = ChaCha20Rng::seed_from_u64(vals);
    let p = C::S::modulus();
    let mut cs = R1cs::<C>::default();
    let mut v: Vec<FieldAssignment<C::S>> = vec![];
    let (mut x, mut w) = (nx, nw);
    while x + w > 0 {
        let k = C::S::of(&gen_val(&mut va, &p));
        if x > 0 && (w == 0 || below(&mut sh, 2) == 0) {
            x -= 1;
            v.push(FieldAssignment::instance(&mut cs, k));
        } else {
            w -= 1;
            v.push(FieldAssignment::witness(&mut cs, k));
        }
    }
    v.push(FieldAssignment::constant(&C::S::of(&gen_val(&mut sh, &p))));
    let any = |sh: &mut ChaCha20Rng, v: &Vec<FieldAssignment<C::S>>| v[below(sh, v.len() as u64) as usize].clone();
    for _ in 0..len {
        let (a, b, c) = (any(&mut sh, &v), any(&mut sh, &v), any(&mut sh, &v));
        let e = match below(&mut sh, 6) {
            0 => &a + &b,
            1 => &a - &b,
            2 => &(&a + &b) - &c,
            3 => &a + &FieldAssignment::constant(&C::S::of(&gen_val(&mut sh, &p))),
            _ => a,
        };
        let f = if below(&mut sh, 3) == 0 { &b + &c } else { b };
        let val = e.value(&cs) * f.value(&cs);
        let out = FieldAssignment::witness(&mut cs, val);
        cs.mul_gate(e.inner(), f.inner(), out.inner());
        v.push(out);
    }
    cs
}

// ---------------------------------------------------------------------------------------------------------------------
#[cfg(kogarashi_verif)]
pub use fast::*;
#[cfg(kogarashi_verif)]
mod fast {
    use super::*;
    use std::sync::{Arc, Mutex};
    use zknova::verif;
    use zknova::R1csShape;

    /// the step circuit of a driver around a step function, at its first step
    pub fn step_circuit<C: Drv, S: StepFn>(primary: bool) -> R1cs<C> {
        let mut cs = R1cs::<C>::default();
        verif::augmented::<C::Other, Fun<S, C::S>, C>(&mut cs, primary, 0, vec![C::S::zero()], None, None, None, None);
        cs
    }
    static KEYS: Mutex<Option<(Arc<Key<Bn254Driver>>, Arc<Key<GrumpkinDriver>>)>> = Mutex::new(None);
    pub const KEY_LEN: usize = 1 << 17;
    /// commitment keys of known logarithms, made once
    pub fn keys() -> (Arc<Key<Bn254Driver>>, Arc<Key<GrumpkinDriver>>) {
        let mut k = KEYS.lock().unwrap_or_else(|e| e.into_inner());
        if k.is_none() {
            let (a, b) = std::thread::scope(|s| {
                let a = s.spawn(|| Key::<Bn254Driver>::new(&mut ChaCha20Rng::seed_from_u64(1), KEY_LEN));
                let b = s.spawn(|| Key::<GrumpkinDriver>::new(&mut ChaCha20Rng::seed_from_u64(2), KEY_LEN));
                (a.join().unwrap(), b.join().unwrap())
            });
            *k = Some((Arc::new(a), Arc::new(b)));
        }
        k.clone().unwrap()
    }
    /// the parameters `setup` would make, around keys made in seconds
    pub fn fast_pp<A: StepFn, B: StepFn>() -> Pp<A, B> {
        let (k1, k2) = keys();
        let s1: R1csShape<Bn254Driver> = step_circuit::<Bn254Driver, A>(true).into();
        let s2: R1csShape<GrumpkinDriver> = step_circuit::<GrumpkinDriver, B>(false).into();
        assert!(s1.m().max(s1.m_l_1()) as usize <= KEY_LEN && s2.m().max(s2.m_l_1()) as usize <= KEY_LEN, "keys too short");
        let mut b = s1.encode();
        s2.encode_to(&mut b);
        k1.ck.encode_to(&mut b);
        k2.ck.encode_to(&mut b);
        Pp::<A, B>::decode(&mut &b[..]).expect("public parameters")
    }
}

/// What the public interface shows of folding, hashing and the step circuits, for trees the hooks do not fit.
#[cfg(not(kogarashi_verif))]
pub fn fallback(c: &mut crate::mon::Check) {
    use crate::{ensure, mon::*};
    fn go<A: StepFn, B: StepFn>(cx: &mut Cx) {
        let s = cx.rng.next_u64();
        let z = (Fr::of(&gen_val(&mut cx.rng, &Fr::modulus())), Fq::of(&gen_val(&mut cx.rng, &Fq::modulus())));
        let pp = pp::<A, B>(s);
        let mut run = start(&pp, z);
        for i in 1..=3u64 {
            cx.count("steps", 1);
            if !cx.case((A::NAME, B::NAME, i), true, || {
                let pr = run.prove_step(&pp);
                ensure!(pr.verify(&pp), "{}/{} from {z:?}: the proof of step {i} is rejected", A::NAME, B::NAME);
                Ok(())
            }) {
                return;
            }
        }
    }
    c.assume("hooks not available on this tree: only whole computations were observed");
    c.heavy("pipeline-cubic", go::<Cubic, Same>);
    c.heavy("pipeline-countdown", go::<Countdown, Shift>);
}
