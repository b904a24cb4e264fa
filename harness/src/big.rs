//! Independent big-integer oracle for the prime fields, and the value generators.
use num_bigint::BigUint;
use num_integer::Integer;
use num_traits::{One, Zero};
use rand_core::RngCore;
use zkstd::common::*;

pub fn hex(s: &str) -> BigUint {
    BigUint::parse_bytes(s.trim_start_matches("0x").as_bytes(), 16).unwrap()
}
/// r, the order of BN254 (from the curve's specification)
pub fn r_mod() -> BigUint {
    hex("30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001")
}
/// q, the base field of BN254
pub fn q_mod() -> BigUint {
    hex("30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47")
}
pub fn bls_r() -> BigUint {
    hex("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001")
}
pub fn bls_q() -> BigUint {
    hex("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab")
}
pub fn jub_r() -> BigUint {
    hex("0e7db4ea6533afa906673b0101343b00a6682093ccc81082d0970e5ed6f72cb7")
}
pub fn limbs<const N: usize>(v: &BigUint) -> [u64; N] {
    let mut o = [0u64; N];
    for (i, d) in v.iter_u64_digits().enumerate() {
        o[i] = d;
    }
    o
}
pub fn from_limbs(l: &[u64]) -> BigUint {
    let mut b = vec![];
    for x in l {
        b.extend_from_slice(&x.to_le_bytes());
    }
    BigUint::from_bytes_le(&b)
}
pub fn le32(v: &BigUint) -> [u8; 32] {
    let mut o = [0u8; 32];
    let b = v.to_bytes_le();
    o[..b.len()].copy_from_slice(&b);
    o
}
pub fn pow2(k: u64) -> BigUint {
    BigUint::one() << k
}
pub fn mod_inv(a: &BigUint, p: &BigUint) -> Option<BigUint> {
    if a.is_zero() {
        return None;
    }
    // extended Euclid with tracked coefficient modulo p
    let (mut r0, mut r1) = (p.clone(), a % p);
    let (mut t0, mut t1) = (BigUint::zero(), BigUint::one());
    while !r1.is_zero() {
        let (d, r2) = r0.div_rem(&r1);
        let t2 = (&t0 + p - (&d * &t1) % p) % p;
        r0 = r1;
        r1 = r2;
        t0 = t1;
        t1 = t2;
    }
    if r0.is_one() {
        Some(t0)
    } else {
        None
    }
}
/// -1/0/1
pub fn legendre(a: &BigUint, p: &BigUint) -> i32 {
    let a = a % p;
    if a.is_zero() {
        return 0;
    }
    if a.modpow(&((p - 1u32) >> 1), p).is_one() {
        1
    } else {
        -1
    }
}

/// Arithmetic modulo p on big integers.
#[derive(Clone, Debug)]
pub struct Fp {
    pub p: BigUint,
}
impl Fp {
    pub fn new(p: BigUint) -> Fp {
        Fp { p }
    }
    pub fn add(&self, a: &BigUint, b: &BigUint) -> BigUint {
        (a + b) % &self.p
    }
    pub fn sub(&self, a: &BigUint, b: &BigUint) -> BigUint {
        (a + &self.p - b) % &self.p
    }
    pub fn neg(&self, a: &BigUint) -> BigUint {
        (&self.p - a) % &self.p
    }
    pub fn mul(&self, a: &BigUint, b: &BigUint) -> BigUint {
        (a * b) % &self.p
    }
    pub fn inv(&self, a: &BigUint) -> Option<BigUint> {
        mod_inv(a, &self.p)
    }
    pub fn pow(&self, a: &BigUint, e: &BigUint) -> BigUint {
        a.modpow(e, &self.p)
    }
}

pub fn rand_big(rng: &mut impl RngCore, bits: u64) -> BigUint {
    let mut b = vec![0u8; ((bits + 7) / 8) as usize];
    rng.fill_bytes(&mut b);
    BigUint::from_bytes_le(&b) % pow2(bits)
}
/// A limb drawn from carry-sensitive patterns.
pub fn pat_limb(rng: &mut impl RngCore, pl: u64) -> u64 {
    match rng.next_u64() % 14 {
        0 | 1 => 0,
        2 | 3 => u64::MAX,
        4 => 1,
        5 => u64::MAX - 1,
        6 => 1 << 63,
        7 => (1 << 63) - 1,
        8 => pl,
        9 => pl.wrapping_sub(1),
        10 => pl.wrapping_add(1),
        11 => 1u64 << (rng.next_u64() % 64),
        12 => u64::MAX << (rng.next_u64() % 64),
        _ => rng.next_u64(),
    }
}
/// `n` limbs of patterns, reduced below `bound`.
pub fn pat_big(rng: &mut impl RngCore, n: usize, m: &BigUint, bound: &BigUint) -> BigUint {
    let ml: Vec<u64> = m.iter_u64_digits().collect();
    let l: Vec<u64> = (0..n).map(|i| pat_limb(rng, ml[i % ml.len()])).collect();
    let v = from_limbs(&l);
    if &v < bound {
        v
    } else if rng.next_u64() & 1 == 0 {
        v % bound
    } else {
        // keep the low limbs' pattern, clear high bits
        let b = bound.bits() - 1;
        v % pow2(b)
    }
}
/// A field value (canonical integer below p), biased to boundaries of both the integer
/// and its Montgomery representation v*R mod p.
pub fn gen_val(rng: &mut impl RngCore, p: &BigUint) -> BigUint {
    let n = ((p.bits() + 63) / 64) as usize;
    let r = pow2(64 * n as u64);
    let demont = |raw: BigUint| -> BigUint {
        let ri = mod_inv(&(&r % p), p).unwrap();
        raw * ri % p
    };
    match rng.next_u64() % 20 {
        0 => BigUint::zero(),
        1 => BigUint::one(),
        2 => p - 1u32,
        3 => BigUint::from(rng.next_u64() % 8),
        4 => p - 1u32 - BigUint::from(rng.next_u64() % 8),
        5 => (p - 1u32) / 2u32 + BigUint::from(rng.next_u64() % 3),
        6 => &r % p,
        7 => demont(BigUint::one()),
        8 => {
            let k = rng.next_u64() % (p.bits() - 1);
            pow2(k)
        }
        9 => {
            let k = rng.next_u64() % (p.bits() - 1);
            p - pow2(k)
        }
        10 => {
            let k = rng.next_u64() % p.bits();
            (pow2(k) + p - 1u32) % p
        }
        11 | 12 => pat_big(rng, n, p, p),
        13 | 14 | 15 => demont(pat_big(rng, n, p, p)),
        _ => rand_big(rng, p.bits() + 64) % p,
    }
}
pub fn gen_rand(rng: &mut impl RngCore, p: &BigUint) -> BigUint {
    rand_big(rng, p.bits() + 64) % p
}

/// A prime field of the code under test, observed through its canonical byte encoding.
pub trait KField: PrimeField + SigUtils<32> + Copy + 'static {
    const NAME: &'static str;
    fn modulus() -> BigUint;
    fn big(self) -> BigUint {
        BigUint::from_bytes_le(&self.to_bytes())
    }
    fn of(v: &BigUint) -> Self {
        Self::from_bytes(le32(v)).expect("canonical bytes refused")
    }
    fn raw(&self) -> [u64; 4];
    fn from_raw(l: [u64; 4]) -> Self;
}
impl KField for bn_254::Fr {
    const NAME: &'static str = "Fr";
    fn modulus() -> BigUint {
        r_mod()
    }
    fn raw(&self) -> [u64; 4] {
        *self.inner()
    }
    fn from_raw(l: [u64; 4]) -> Self {
        bn_254::Fr::new_unchecked(l)
    }
}
impl KField for bn_254::Fq {
    const NAME: &'static str = "Fq";
    fn modulus() -> BigUint {
        q_mod()
    }
    fn raw(&self) -> [u64; 4] {
        *self.inner()
    }
    fn from_raw(l: [u64; 4]) -> Self {
        bn_254::Fq::new_unchecked(l)
    }
}
/// canonical in memory: raw limbs below the modulus
pub fn canonical<F: KField>(x: &F) -> bool {
    from_limbs(&x.raw()) < F::modulus()
}
pub fn big_u64s(v: &BigUint) -> Vec<u64> {
    v.iter_u64_digits().collect()
}
