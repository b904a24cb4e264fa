//! Oracle for the BN254 tower: every element of Fq2/Fq6/Fq12 is viewed as a polynomial in w
//! over Fq modulo w^12 - 18 w^6 + 82 (v = w^2, u = w^6 - 9), so multiplication, squaring,
//! Frobenius and inversion are judged by one schoolbook polynomial product that shares
//! nothing with the tower formulas of the code under test.
use crate::big::*;
use bn_254::{Fq, Fq12, Fq2, Fq6};
use num_bigint::BigUint;
use num_traits::{One, Zero};
use parity_scale_codec::{Decode, Encode};
use rand_core::RngCore;

/// A tower element as flat coefficients (over Fq), in encoding order.
pub trait Tower: Copy + Encode + Decode + PartialEq + std::fmt::Debug {
    const NAME: &'static str;
    const DEG: usize;
    fn coeffs(self) -> Vec<BigUint> {
        let b = self.encode();
        assert_eq!(b.len(), 32 * Self::DEG, "unexpected encoding length");
        b.chunks(32).map(|c| Fq::decode(&mut &c[..]).unwrap().big()).collect()
    }
    fn from_coeffs(c: &[BigUint]) -> Self {
        let mut b = vec![];
        for x in c {
            b.extend(Fq::of(x).encode());
        }
        Self::decode(&mut &b[..]).unwrap()
    }
}
impl Tower for Fq2 {
    const NAME: &'static str = "Fq2";
    const DEG: usize = 2;
}
impl Tower for Fq6 {
    const NAME: &'static str = "Fq6";
    const DEG: usize = 6;
}
impl Tower for Fq12 {
    const NAME: &'static str = "Fq12";
    const DEG: usize = 12;
}

pub type Poly = Vec<BigUint>; // 12 coefficients in w

/// flat tower coefficients -> polynomial in w
pub fn to_w(c: &[BigUint]) -> Poly {
    let q = q_mod();
    let mut o = vec![BigUint::zero(); 12];
    for (idx, x) in c.iter().enumerate() {
        let k = idx % 2; // u exponent
        let j = (idx / 2) % 3; // v exponent
        let i = idx / 6; // w exponent
        let e = i + 2 * j;
        if k == 0 {
            o[e] = (&o[e] + x) % &q;
        } else {
            o[e + 6] = (&o[e + 6] + x) % &q;
            o[e] = (&o[e] + &q * 9u32 - x * 9u32 % &q) % &q;
        }
    }
    o
}
/// polynomial in w -> flat tower coefficients of length `deg`; None when it lies outside the subfield
pub fn from_w(p: &Poly, deg: usize) -> Option<Vec<BigUint>> {
    let q = q_mod();
    let mut c = vec![BigUint::zero(); 12];
    for e in 0..6 {
        let (i, j) = (e % 2, e / 2);
        let idx = i * 6 + j * 2;
        c[idx + 1] = p[e + 6].clone();
        c[idx] = (&p[e] + &p[e + 6] * 9u32) % &q;
    }
    if c[deg..].iter().all(|x| x.is_zero()) {
        c.truncate(deg);
        Some(c)
    } else {
        None
    }
}
pub fn pmul(a: &Poly, b: &Poly) -> Poly {
    let q = q_mod();
    let mut t = vec![BigUint::zero(); 23];
    for i in 0..12 {
        if a[i].is_zero() {
            continue;
        }
        for j in 0..12 {
            if !b[j].is_zero() {
                t[i + j] += &a[i] * &b[j];
            }
        }
    }
    for k in (12..23).rev() {
        let x = &t[k] % &q;
        if x.is_zero() {
            continue;
        }
        // w^k = 18 w^(k-6) - 82 w^(k-12)
        t[k - 6] += &x * 18u32;
        let s = &q - (&x * 82u32) % &q;
        t[k - 12] += s;
    }
    t.truncate(12);
    t.into_iter().map(|x| x % &q).collect()
}
pub fn padd(a: &Poly, b: &Poly) -> Poly {
    let q = q_mod();
    a.iter().zip(b).map(|(x, y)| (x + y) % &q).collect()
}
pub fn psub(a: &Poly, b: &Poly) -> Poly {
    let q = q_mod();
    a.iter().zip(b).map(|(x, y)| (x + &q - y) % &q).collect()
}
pub fn pone() -> Poly {
    let mut o = vec![BigUint::zero(); 12];
    o[0] = BigUint::one();
    o
}
pub fn ppow(a: &Poly, e: &BigUint) -> Poly {
    let mut r = pone();
    for i in (0..e.bits()).rev() {
        r = pmul(&r, &r);
        if e.bit(i) {
            r = pmul(&r, a);
        }
    }
    r
}
/// Frobenius by linearity: sum c_i w^i -> sum c_i (w^q)^i, with w^q computed by exponentiation once.
pub struct Frob {
    wq: Vec<Poly>,
}
impl Frob {
    pub fn new() -> Frob {
        let mut w = vec![BigUint::zero(); 12];
        w[1] = BigUint::one();
        let base = ppow(&w, &q_mod());
        let mut wq = vec![pone()];
        for i in 1..12 {
            let n = pmul(&wq[i - 1], &base);
            wq.push(n);
        }
        Frob { wq }
    }
    pub fn apply(&self, a: &Poly) -> Poly {
        let q = q_mod();
        let mut o = vec![BigUint::zero(); 12];
        for i in 0..12 {
            if a[i].is_zero() {
                continue;
            }
            for k in 0..12 {
                o[k] = (&o[k] + &a[i] * &self.wq[i][k]) % &q;
            }
        }
        o
    }
}
impl Default for Frob {
    fn default() -> Self {
        Self::new()
    }
}
/// random tower coefficients, biased to sparse and boundary elements
pub fn gen_tower(rng: &mut impl RngCore, deg: usize) -> Vec<BigUint> {
    let q = q_mod();
    match rng.next_u64() % 10 {
        0 => vec![BigUint::zero(); deg],
        1 => {
            let mut v = vec![BigUint::zero(); deg];
            v[0] = BigUint::one();
            v
        }
        2 | 3 => {
            // one non-zero coefficient
            let mut v = vec![BigUint::zero(); deg];
            let k = (rng.next_u64() % deg as u64) as usize;
            v[k] = gen_val(rng, &q);
            v
        }
        4 => (0..deg).map(|_| if rng.next_u64() & 1 == 0 { BigUint::zero() } else { gen_val(rng, &q) }).collect(),
        5 => {
            // subfield element
            let sub = [1usize, 2, 6][(rng.next_u64() % 3) as usize].min(deg);
            (0..deg).map(|i| if i < sub { gen_val(rng, &q) } else { BigUint::zero() }).collect()
        }
        6 | 7 => (0..deg).map(|_| gen_val(rng, &q)).collect(),
        _ => (0..deg).map(|_| gen_rand(rng, &q)).collect(),
    }
}
