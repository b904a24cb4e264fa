//! Bridges between the code's points and the oracle's points.
use crate::big::*;
use crate::curve::*;
use crate::ext::Tower;
use bn_254::*;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use rand_core::RngCore;
use zkstd::common::*;

pub trait KCurve: 'static {
    const NAME: &'static str;
    type O: OField + Clone + Send + Sync + 'static;
    type B: PrimeField + Copy + 'static;
    type S: KField;
    type A: BNAffine<Base = Self::B, Scalar = Self::S, Extended = Self::P> + Group + CurveGroup<Base = Self::B> + Copy + 'static;
    type P: BNProjective<Base = Self::B, Scalar = Self::S, Affine = Self::A> + Group + CurveGroup<Base = Self::B> + Copy + 'static;
    fn oracle() -> Weier<Self::O>;
    fn b(e: &<Self::O as OField>::E) -> Self::B;
    fn e(b: Self::B) -> <Self::O as OField>::E;
    fn zero() -> <Self::O as OField>::E {
        Self::oracle().f.int(0)
    }
    fn order() -> BigUint {
        Self::S::modulus()
    }
    fn generator() -> Pt<<Self::O as OField>::E>;
    /// the affine code point for an oracle point
    fn aff(p: &Pt<<Self::O as OField>::E>) -> Self::A {
        match p {
            None => Self::A::ADDITIVE_IDENTITY,
            Some((x, y)) => <Self::A as BNAffine>::new_unchecked(Self::b(x), Self::b(y)),
        }
    }
    /// a projective representative scaled by z (identity: (0, z, 0))
    fn proj(p: &Pt<<Self::O as OField>::E>, z: &<Self::O as OField>::E) -> Self::P {
        let f = Self::oracle().f;
        match p {
            None => <Self::P as BNProjective>::new_unchecked(Self::b(&f.int(0)), Self::b(z), Self::b(&f.int(0))),
            Some((x, y)) => <Self::P as BNProjective>::new_unchecked(Self::b(&f.mul(x, z)), Self::b(&f.mul(y, z)), Self::b(z)),
        }
    }
    fn obs_a(a: Self::A) -> Pt<<Self::O as OField>::E> {
        if a.is_identity() {
            None
        } else {
            Some((Self::e(a.get_x()), Self::e(a.get_y())))
        }
    }
    fn obs_p(p: Self::P) -> Pt<<Self::O as OField>::E> {
        let f = Self::oracle().f;
        let (x, y, z) = (Self::e(p.get_x()), Self::e(p.get_y()), Self::e(p.get_z()));
        let zi = f.inv(&z)?;
        Some((f.mul(&x, &zi), f.mul(&y, &zi)))
    }
    fn gen_z(rng: &mut dyn RngCore) -> <Self::O as OField>::E {
        let f = Self::oracle().f;
        if rng.next_u64() % 3 == 0 {
            return f.int(1);
        }
        loop {
            let z = f.gen(rng);
            if !f.is_zero(&z) {
                return z;
            }
        }
    }
}
pub type Po<C> = Pt<<<C as KCurve>::O as OField>::E>;

pub struct G1;
impl KCurve for G1 {
    const NAME: &'static str = "G1";
    type O = Fp;
    type B = Fq;
    type S = Fr;
    type A = G1Affine;
    type P = G1Projective;
    fn oracle() -> Weier<Fp> {
        g1_curve()
    }
    fn b(e: &BigUint) -> Fq {
        Fq::of(e)
    }
    fn e(b: Fq) -> BigUint {
        b.big()
    }
    fn generator() -> Pt<BigUint> {
        Some((BigUint::one(), BigUint::from(2u32)))
    }
}
pub struct Grumpkin;
impl KCurve for Grumpkin {
    const NAME: &'static str = "Grumpkin";
    type O = Fp;
    type B = Fr;
    type S = Fq;
    type A = grumpkin::Affine;
    type P = grumpkin::Projective;
    fn oracle() -> Weier<Fp> {
        grumpkin_curve()
    }
    fn b(e: &BigUint) -> Fr {
        Fr::of(e)
    }
    fn e(b: Fr) -> BigUint {
        b.big()
    }
    fn generator() -> Pt<BigUint> {
        // x = 1, y = sqrt(-16) as published for Grumpkin
        Some((BigUint::one(), hex("0x2cf135e7506a45d632d270d45f1181294833fc48d823f272c")))
    }
}
pub struct G2;
impl KCurve for G2 {
    const NAME: &'static str = "G2";
    type O = Fp2;
    type B = Fq2;
    type S = Fr;
    type A = G2Affine;
    type P = G2Projective;
    fn oracle() -> Weier<Fp2> {
        g2_curve()
    }
    fn b(e: &(BigUint, BigUint)) -> Fq2 {
        Fq2::from_coeffs(&[e.0.clone(), e.1.clone()])
    }
    fn e(b: Fq2) -> (BigUint, BigUint) {
        let c = b.coeffs();
        (c[0].clone(), c[1].clone())
    }
    fn generator() -> Pt<(BigUint, BigUint)> {
        // EIP-197 generator
        let h = |s: &str| BigUint::parse_bytes(s.as_bytes(), 10).unwrap();
        Some((
            (h("10857046999023057135944570762232829481370756359578518086990519993285655852781"), h("11559732032986387107991004021392285783925812861821192530917403151452391805634")),
            (h("8495653923123431417604973247489272438418190587263600148770280649306958101930"), h("4082367875863433681332203403145435568316851327593401208105741076214120093531")),
        ))
    }
}
/// order of the twist's full group divided by r: 2q - r
pub fn g2_cofactor() -> BigUint {
    q_mod() * 2u32 - r_mod()
}
/// a pool of points: random points plus special ones, with the identity first
pub fn pool<C: KCurve>(rng: &mut dyn RngCore, n: usize) -> Vec<Po<C>> {
    let o = C::oracle();
    let mut v: Vec<Po<C>> = vec![None, C::generator(), o.neg(&C::generator())];
    // x = 0, when the curve has such a point
    if let Some(y) = o.f.sqrt(&o.b) {
        v.push(Some((o.f.int(0), y.clone())));
        v.push(o.neg(&Some((o.f.int(0), y))));
    }
    while v.len() < n {
        let p = o.rand(rng);
        let k = rng.next_u64() % 4;
        v.push(p.clone());
        match k {
            0 => v.push(o.neg(&p)),
            1 => v.push(o.add(&p, &p)),
            _ => {}
        }
    }
    // BN curves with j = 0: multiply x by a cube root of unity, same y
    let w = cube_root::<C>();
    let extra: Vec<Po<C>> = v.iter().rev().take(3).map(|p| p.as_ref().map(|(x, y)| (o.f.mul(x, &w), y.clone()))).collect();
    v.extend(extra);
    v
}
/// a primitive cube root of unity in the base field
pub fn cube_root<C: KCurve>() -> <C::O as OField>::E {
    let f = C::oracle().f;
    // (-1 + sqrt(-3)) / 2
    let m3 = f.sub(&f.int(0), &f.int(3));
    let s = f.sqrt(&m3).expect("j=0 curve");
    f.mul(&f.sub(&s, &f.int(1)), &f.inv(&f.int(2)).unwrap())
}
pub fn is_zero_e<C: KCurve>(e: &<C::O as OField>::E) -> bool {
    C::oracle().f.is_zero(e)
}
#[allow(dead_code)]
fn _z() -> BigUint {
    BigUint::zero()
}
