//! Affine oracles for the curve groups, over an oracle field (Fp, or Fp2 = Fp[u]/(u^2+1)).
use crate::big::*;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use rand_core::RngCore;

pub trait OField: Clone {
    type E: Clone + PartialEq + std::fmt::Debug;
    fn add(&self, a: &Self::E, b: &Self::E) -> Self::E;
    fn sub(&self, a: &Self::E, b: &Self::E) -> Self::E;
    fn mul(&self, a: &Self::E, b: &Self::E) -> Self::E;
    fn inv(&self, a: &Self::E) -> Option<Self::E>;
    fn int(&self, n: u64) -> Self::E;
    fn is_zero(&self, a: &Self::E) -> bool;
    fn gen(&self, rng: &mut dyn RngCore) -> Self::E;
    fn sqrt(&self, a: &Self::E) -> Option<Self::E>;
    fn neg(&self, a: &Self::E) -> Self::E {
        self.sub(&self.int(0), a)
    }
}
impl OField for Fp {
    type E = BigUint;
    fn add(&self, a: &BigUint, b: &BigUint) -> BigUint {
        Fp::add(self, a, b)
    }
    fn sub(&self, a: &BigUint, b: &BigUint) -> BigUint {
        Fp::sub(self, a, b)
    }
    fn mul(&self, a: &BigUint, b: &BigUint) -> BigUint {
        Fp::mul(self, a, b)
    }
    fn inv(&self, a: &BigUint) -> Option<BigUint> {
        Fp::inv(self, a)
    }
    fn int(&self, n: u64) -> BigUint {
        BigUint::from(n) % &self.p
    }
    fn is_zero(&self, a: &BigUint) -> bool {
        a.is_zero()
    }
    fn gen(&self, mut rng: &mut dyn RngCore) -> BigUint {
        gen_val(&mut rng, &self.p)
    }
    fn sqrt(&self, a: &BigUint) -> Option<BigUint> {
        sqrt_mod(a, &self.p)
    }
}
/// Tonelli–Shanks on big integers
pub fn sqrt_mod(a: &BigUint, p: &BigUint) -> Option<BigUint> {
    let a = a % p;
    if a.is_zero() {
        return Some(a);
    }
    if legendre(&a, p) != 1 {
        return None;
    }
    let mut q = p - 1u32;
    let mut s = 0u64;
    while !q.bit(0) {
        q >>= 1;
        s += 1;
    }
    let mut z = BigUint::from(2u32);
    while legendre(&z, p) != -1 {
        z += 1u32;
    }
    let mut m = s;
    let mut c = z.modpow(&q, p);
    let mut t = a.modpow(&q, p);
    let mut r = a.modpow(&((&q + 1u32) >> 1), p);
    while !t.is_one() {
        let mut i = 0;
        let mut t2 = t.clone();
        while !t2.is_one() {
            t2 = &t2 * &t2 % p;
            i += 1;
        }
        let mut b = c.clone();
        for _ in 0..(m - i - 1) {
            b = &b * &b % p;
        }
        m = i;
        c = &b * &b % p;
        t = t * &c % p;
        r = r * b % p;
    }
    Some(r)
}
#[derive(Clone, Debug)]
pub struct Fp2 {
    pub b: Fp,
}
impl OField for Fp2 {
    type E = (BigUint, BigUint);
    fn add(&self, a: &Self::E, b: &Self::E) -> Self::E {
        (self.b.add(&a.0, &b.0), self.b.add(&a.1, &b.1))
    }
    fn sub(&self, a: &Self::E, b: &Self::E) -> Self::E {
        (self.b.sub(&a.0, &b.0), self.b.sub(&a.1, &b.1))
    }
    fn mul(&self, a: &Self::E, b: &Self::E) -> Self::E {
        let f = &self.b;
        (f.sub(&f.mul(&a.0, &b.0), &f.mul(&a.1, &b.1)), f.add(&f.mul(&a.0, &b.1), &f.mul(&a.1, &b.0)))
    }
    fn inv(&self, a: &Self::E) -> Option<Self::E> {
        let f = &self.b;
        let n = f.add(&f.mul(&a.0, &a.0), &f.mul(&a.1, &a.1));
        let i = f.inv(&n)?;
        Some((f.mul(&a.0, &i), f.mul(&f.neg(&a.1), &i)))
    }
    fn int(&self, n: u64) -> Self::E {
        (BigUint::from(n), BigUint::zero())
    }
    fn is_zero(&self, a: &Self::E) -> bool {
        a.0.is_zero() && a.1.is_zero()
    }
    fn gen(&self, mut rng: &mut dyn RngCore) -> Self::E {
        let a = gen_val(&mut rng, &self.b.p);
        let b = gen_val(&mut rng, &self.b.p);
        (a, b)
    }
    fn sqrt(&self, a: &Self::E) -> Option<Self::E> {
        // x^2 - y^2 = a0, 2xy = a1
        let f = &self.b;
        if a.1.is_zero() {
            if let Some(x) = sqrt_mod(&a.0, &f.p) {
                return Some((x, BigUint::zero()));
            }
            return sqrt_mod(&f.neg(&a.0), &f.p).map(|y| (BigUint::zero(), y));
        }
        let n = sqrt_mod(&f.add(&f.mul(&a.0, &a.0), &f.mul(&a.1, &a.1)), &f.p)?;
        let half = f.inv(&BigUint::from(2u32)).unwrap();
        for nn in [n.clone(), f.neg(&n)] {
            let x2 = f.mul(&f.add(&a.0, &nn), &half);
            if let Some(x) = sqrt_mod(&x2, &f.p) {
                if x.is_zero() {
                    continue;
                }
                let y = f.mul(&a.1, &f.inv(&f.add(&x, &x)).unwrap());
                let c = (x, y);
                if &self.mul(&c, &c) == a {
                    return Some(c);
                }
            }
        }
        None
    }
}
pub type Pt<E> = Option<(E, E)>;

/// y^2 = x^3 + b
#[derive(Clone)]
pub struct Weier<F: OField> {
    pub f: F,
    pub b: F::E,
}
impl<F: OField> Weier<F> {
    pub fn on_curve(&self, x: &F::E, y: &F::E) -> bool {
        let f = &self.f;
        f.mul(y, y) == f.add(&f.mul(&f.mul(x, x), x), &self.b)
    }
    pub fn neg(&self, a: &Pt<F::E>) -> Pt<F::E> {
        a.as_ref().map(|(x, y)| (x.clone(), self.f.neg(y)))
    }
    pub fn add(&self, a: &Pt<F::E>, b: &Pt<F::E>) -> Pt<F::E> {
        let f = &self.f;
        let (Some((x1, y1)), Some((x2, y2))) = (a, b) else {
            return if a.is_none() { b.clone() } else { a.clone() };
        };
        let l = if x1 == x2 {
            if f.is_zero(&f.add(y1, y2)) {
                return None;
            }
            f.mul(&f.mul(&f.int(3), &f.mul(x1, x1)), &f.inv(&f.add(y1, y1)).unwrap())
        } else {
            f.mul(&f.sub(y2, y1), &f.inv(&f.sub(x2, x1)).unwrap())
        };
        let x3 = f.sub(&f.sub(&f.mul(&l, &l), x1), x2);
        let y3 = f.sub(&f.mul(&l, &f.sub(x1, &x3)), y1);
        Some((x3, y3))
    }
    /// textbook double-and-add with affine steps
    pub fn mul_slow(&self, a: &Pt<F::E>, k: &BigUint) -> Pt<F::E> {
        let mut r = None;
        for i in (0..k.bits()).rev() {
            r = self.add(&r, &r);
            if k.bit(i) {
                r = self.add(&r, a);
            }
        }
        r
    }
    /// double-and-add in Jacobian coordinates (a = 0), one inversion at the end
    pub fn mul(&self, a: &Pt<F::E>, k: &BigUint) -> Pt<F::E> {
        let f = &self.f;
        let (x2, y2) = a.clone()?;
        let mut r: Option<(F::E, F::E, F::E)> = None;
        for i in (0..k.bits()).rev() {
            r = r.and_then(|(x, y, z)| {
                if f.is_zero(&y) {
                    return None;
                }
                let (xx, yy) = (f.mul(&x, &x), f.mul(&y, &y));
                let s = f.mul(&f.int(4), &f.mul(&x, &yy));
                let m = f.add(&f.add(&xx, &xx), &xx);
                let x3 = f.sub(&f.sub(&f.mul(&m, &m), &s), &s);
                let y4 = f.mul(&f.int(8), &f.mul(&yy, &yy));
                let y3 = f.sub(&f.mul(&m, &f.sub(&s, &x3)), &y4);
                let z3 = f.mul(&f.add(&y, &y), &z);
                Some((x3, y3, z3))
            });
            if k.bit(i) {
                r = match r {
                    None => Some((x2.clone(), y2.clone(), f.int(1))),
                    Some((x, y, z)) => {
                        let zz = f.mul(&z, &z);
                        let (u, s) = (f.mul(&x2, &zz), f.mul(&y2, &f.mul(&zz, &z)));
                        let (h, rr) = (f.sub(&u, &x), f.sub(&s, &y));
                        if f.is_zero(&h) {
                            // same or opposite point: go through the affine law
                            let zi = f.inv(&z).unwrap();
                            let zi2 = f.mul(&zi, &zi);
                            let p = Some((f.mul(&x, &zi2), f.mul(&y, &f.mul(&zi2, &zi))));
                            self.add(&p, a).map(|(x, y)| (x, y, f.int(1)))
                        } else {
                            let hh = f.mul(&h, &h);
                            let hhh = f.mul(&hh, &h);
                            let v = f.mul(&x, &hh);
                            let x3 = f.sub(&f.sub(&f.sub(&f.mul(&rr, &rr), &hhh), &v), &v);
                            let y3 = f.sub(&f.mul(&rr, &f.sub(&v, &x3)), &f.mul(&y, &hhh));
                            Some((x3, y3, f.mul(&z, &h)))
                        }
                    }
                };
            }
        }
        let (x, y, z) = r?;
        let zi = f.inv(&z)?;
        let zi2 = f.mul(&zi, &zi);
        Some((f.mul(&x, &zi2), f.mul(&y, &f.mul(&zi2, &zi))))
    }
    /// a random point on the curve (not necessarily in a subgroup)
    pub fn rand(&self, rng: &mut dyn RngCore) -> Pt<F::E> {
        loop {
            let x = self.f.gen(rng);
            let r = self.f.add(&self.f.mul(&self.f.mul(&x, &x), &x), &self.b);
            if let Some(y) = self.f.sqrt(&r) {
                let y = if rng.next_u64() & 1 == 0 { y } else { self.f.neg(&y) };
                return Some((x, y));
            }
        }
    }
}
/// a x^2 + y^2 = 1 + d x^2 y^2 with a = -1
#[derive(Clone)]
pub struct TwEd {
    pub f: Fp,
    pub d: BigUint,
}
impl TwEd {
    pub fn on_curve(&self, x: &BigUint, y: &BigUint) -> bool {
        let f = &self.f;
        let (xx, yy) = (f.mul(x, x), f.mul(y, y));
        f.sub(&yy, &xx) == f.add(&BigUint::one(), &f.mul(&self.d, &f.mul(&xx, &yy)))
    }
    pub fn add(&self, a: &(BigUint, BigUint), b: &(BigUint, BigUint)) -> (BigUint, BigUint) {
        let f = &self.f;
        let t = f.mul(&self.d, &f.mul(&f.mul(&a.0, &b.0), &f.mul(&a.1, &b.1)));
        let x = f.mul(&f.add(&f.mul(&a.0, &b.1), &f.mul(&a.1, &b.0)), &f.inv(&f.add(&BigUint::one(), &t)).unwrap());
        let y = f.mul(&f.add(&f.mul(&a.1, &b.1), &f.mul(&a.0, &b.0)), &f.inv(&f.sub(&BigUint::one(), &t)).unwrap());
        (x, y)
    }
    pub fn mul(&self, a: &(BigUint, BigUint), k: &BigUint) -> (BigUint, BigUint) {
        let mut r = (BigUint::zero(), BigUint::one());
        for i in (0..k.bits()).rev() {
            r = self.add(&r, &r);
            if k.bit(i) {
                r = self.add(&r, a);
            }
        }
        r
    }
    pub fn rand(&self, rng: &mut dyn RngCore) -> (BigUint, BigUint) {
        let f = &self.f;
        let mut rng = rng;
        loop {
            let y = gen_val(&mut rng, &f.p);
            let yy = f.mul(&y, &y);
            // x^2 = (y^2-1)/(1+d y^2)
            let den = f.add(&BigUint::one(), &f.mul(&self.d, &yy));
            let Some(di) = f.inv(&den) else { continue };
            let x2 = f.mul(&f.sub(&yy, &BigUint::one()), &di);
            if let Some(x) = sqrt_mod(&x2, &f.p) {
                return (if rng.next_u64() & 1 == 0 { x } else { f.neg(&x) }, y);
            }
        }
    }
}
pub fn g1_curve() -> Weier<Fp> {
    Weier { f: Fp::new(q_mod()), b: BigUint::from(3u32) }
}
pub fn grumpkin_curve() -> Weier<Fp> {
    Weier { f: Fp::new(r_mod()), b: r_mod() - 17u32 }
}
/// b' = 3/(9+u)
pub fn g2_curve() -> Weier<Fp2> {
    let f = Fp2 { b: Fp::new(q_mod()) };
    let b = f.mul(&f.int(3), &f.inv(&(BigUint::from(9u32), BigUint::one())).unwrap());
    Weier { f, b }
}
