//! Jubjub, instantiated from the public macros the way the crate documents it (as zkstd/tests/jubjub.rs does):
//! the twisted Edwards code has no other instance in the repository.
#![allow(clippy::all)]
use zkstd::macros::{curve::edwards::*, field::*};
type Bits256Limbs = [u64; 4];
use zkstd::arithmetic::bits_256::*;
use zkstd::arithmetic::edwards::*;
use zkstd::common::*;

#[derive(Clone, Copy, Decode, Encode)]
pub struct BlsScalar(pub Bits256Limbs);

pub const BLS_SCALAR_MODULUS: [u64; 4] = [
    0xffffffff00000001,
    0x53bda402fffe5bfe,
    0x3339d80809a1d805,
    0x73eda753299d7d48,
];

pub const BLS_SCALAR_GENERATOR: [u64; 4] = [
    0x0000000efffffff1,
    0x17e363d300189c0f,
    0xff9c57876f8457b0,
    0x351332208fc5a8c4,
];

pub const BLS_SCALAR_MULTIPLICATIVE_GENERATOR: BlsScalar = BlsScalar([
    0x0000000efffffff1,
    0x17e363d300189c0f,
    0xff9c57876f8457b0,
    0x351332208fc5a8c4,
]);

pub const BLS_SCALAR_R: [u64; 4] = [
    0x00000001fffffffe,
    0x5884b7fa00034802,
    0x998c4fefecbc4ff5,
    0x1824b159acc5056f,
];

pub const BLS_SCALAR_R2: [u64; 4] = [
    0xc999e990f3f29c6d,
    0x2b6cedcb87925c23,
    0x05d314967254398f,
    0x0748d9d99f59ff11,
];

pub const BLS_SCALAR_R3: [u64; 4] = [
    0xc62c1807439b73af,
    0x1b3e0d188cf06990,
    0x73d13c71c7b5f418,
    0x6e2a5bb9c8db33e9,
];

pub const BLS_SCALAR_INV: u64 = 0xfffffffeffffffff;

pub const S: usize = 32;

pub const ROOT_OF_UNITY: BlsScalar = BlsScalar([
    0xb9b58d8c5f0e466a,
    0x5b1b4c801819d7ec,
    0x0af53ae352a31e64,
    0x5bf3adda19e9b27b,
]);

pub const EDWARDS_D: BlsScalar = BlsScalar::to_mont_form([
    0x01065fd6d6343eb1,
    0x292d7f6d37579d26,
    0xf5fd9207e6bd7fd4,
    0x2a9318e74bfa2b48,
]);

const X: BlsScalar = BlsScalar::to_mont_form([
    0x4df7b7ffec7beaca,
    0x2e3ebb21fd6c54ed,
    0xf1fbf02d0fd6cce6,
    0x3fd2814c43ac65a6,
]);

const Y: BlsScalar = BlsScalar::to_mont_form([
    0x0000000000000012,
    000000000000000000,
    000000000000000000,
    000000000000000000,
]);

const T: BlsScalar = BlsScalar::to_mont_form([
    0x07b6af007a0b6822b,
    0x04ebe6448d1acbcb8,
    0x036ae4ae2c669cfff,
    0x0697235704b95be33,
]);

impl SigUtils<32> for BlsScalar {
    fn to_bytes(self) -> [u8; Self::LENGTH] {
        // value = raw / 2^256 mod p, by big integers
        thread_local!(static C: (num_bigint::BigUint, num_bigint::BigUint) = {
            let p = crate::big::bls_r();
            let ri = crate::big::mod_inv(&(crate::big::pow2(256) % &p), &p).unwrap();
            (p, ri)
        });
        C.with(|(p, ri)| crate::big::le32(&(crate::big::from_limbs(&self.0) * ri % p)))
    }
    fn from_bytes(bytes: [u8; Self::LENGTH]) -> Option<Self> {
        let v = num_bigint::BigUint::from_bytes_le(&bytes);
        let p = crate::big::bls_r();
        if v >= p {
            return None;
        }
        let m = v * crate::big::pow2(256) % p;
        Some(Self(crate::big::limbs::<4>(&m)))
    }
}

impl BlsScalar {
    pub const fn to_mont_form(val: [u64; 4]) -> Self {
        Self(to_mont_form(
            val,
            BLS_SCALAR_R2,
            BLS_SCALAR_MODULUS,
            BLS_SCALAR_INV,
        ))
    }

    pub(crate) const fn montgomery_reduce(self) -> [u64; 4] {
        mont(
            [self.0[0], self.0[1], self.0[2], self.0[3], 0, 0, 0, 0],
            BLS_SCALAR_MODULUS,
            BLS_SCALAR_INV,
        )
    }


}

#[derive(Clone, Copy, Debug, Encode, Decode)]
pub struct JubjubAffine {
    x: BlsScalar,
    y: BlsScalar,
}

impl Add for JubjubAffine {
    type Output = JubjubExtended;

    fn add(self, rhs: JubjubAffine) -> Self::Output {
        add_projective_point(self.to_extended(), rhs.to_extended())
    }
}

impl Neg for JubjubAffine {
    type Output = Self;

    fn neg(self) -> Self {
        Self {
            x: -self.x,
            y: self.y,
        }
    }
}

impl Sub for JubjubAffine {
    type Output = JubjubExtended;

    fn sub(self, rhs: JubjubAffine) -> Self::Output {
        add_projective_point(self.to_extended(), rhs.neg().to_extended())
    }
}

impl Mul<BlsScalar> for JubjubAffine {
    type Output = JubjubExtended;

    fn mul(self, rhs: BlsScalar) -> Self::Output {
        scalar_point(self.to_extended(), &rhs)
    }
}

impl Mul<JubjubAffine> for BlsScalar {
    type Output = JubjubExtended;

    fn mul(self, rhs: JubjubAffine) -> Self::Output {
        scalar_point(rhs.to_extended(), &self)
    }
}

#[derive(Clone, Copy, Debug, Encode, Decode)]
pub struct JubjubExtended {
    x: BlsScalar,
    y: BlsScalar,
    t: BlsScalar,
    z: BlsScalar,
}

impl Add for JubjubExtended {
    type Output = JubjubExtended;

    fn add(self, rhs: JubjubExtended) -> Self::Output {
        add_projective_point(self, rhs)
    }
}

impl Neg for JubjubExtended {
    type Output = Self;

    fn neg(self) -> Self {
        Self {
            x: -self.x,
            y: self.y,
            t: -self.t,
            z: self.z,
        }
    }
}

impl Sub for JubjubExtended {
    type Output = JubjubExtended;

    fn sub(self, rhs: JubjubExtended) -> Self::Output {
        add_projective_point(self, rhs.neg())
    }
}

impl Mul<BlsScalar> for JubjubExtended {
    type Output = JubjubExtended;

    fn mul(self, rhs: BlsScalar) -> Self::Output {
        scalar_point(self, &rhs)
    }
}

impl Mul<JubjubExtended> for BlsScalar {
    type Output = JubjubExtended;

    fn mul(self, rhs: JubjubExtended) -> Self::Output {
        scalar_point(rhs, &self)
    }
}

impl SigUtils<32> for JubjubAffine {
    fn to_bytes(self) -> [u8; Self::LENGTH] {
        let mut tmp = SigUtils::to_bytes(self.y);
        let x = SigUtils::to_bytes(self.x);
        tmp[31] |= x[0] << 7;
        tmp
    }
    fn from_bytes(_: [u8; Self::LENGTH]) -> Option<Self> {
        None
    }
}
fft_field_operation!(
    BlsScalar,
    BLS_SCALAR_MODULUS,
    BLS_SCALAR_GENERATOR,
    BLS_SCALAR_MULTIPLICATIVE_GENERATOR,
    BLS_SCALAR_INV,
    ROOT_OF_UNITY,
    BLS_SCALAR_R,
    BLS_SCALAR_R2,
    BLS_SCALAR_R3,
    S
);

twisted_edwards_curve_operation!(
    BlsScalar,
    BlsScalar,
    EDWARDS_D,
    JubjubAffine,
    JubjubExtended,
    X,
    Y,
    T
);
impl crate::big::KField for BlsScalar {
    const NAME: &'static str = "BlsScalar";
    fn modulus() -> num_bigint::BigUint {
        crate::big::bls_r()
    }
    fn raw(&self) -> [u64; 4] {
        self.0
    }
    fn from_raw(l: [u64; 4]) -> Self {
        BlsScalar(l)
    }
}
