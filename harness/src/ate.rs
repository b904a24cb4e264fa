//! Textbook optimal ate pairing on BN254 over big integers: affine Miller loop on the twist with the
//! plain binary expansion of 6u+2, lines untwisted into Fq12 = Fq[w]/(w^12-18w^6+82), and one plain
//! exponentiation by (q^12-1)/r. Shares no formula with the code under test.
use crate::big::*;
use crate::curve::*;
use crate::ext::*;
use num_bigint::BigUint;
use num_traits::{One, Zero};

type E2 = (BigUint, BigUint);
pub type P1 = Pt<BigUint>;
pub type P2 = Pt<E2>;

pub struct Ate {
    c: Weier<Fp2>,
    /// xi^((q-1)/3), xi^((q-1)/2)
    fx: E2,
    fy: E2,
    loop_count: BigUint,
    pub exp: BigUint,
}
fn pow2e(f: &Fp2, a: &E2, e: &BigUint) -> E2 {
    let mut r = f.int(1);
    for i in (0..e.bits()).rev() {
        r = f.mul(&r, &r);
        if e.bit(i) {
            r = f.mul(&r, a);
        }
    }
    r
}
impl Ate {
    pub fn new() -> Ate {
        let c = g2_curve();
        let q = q_mod();
        let xi = (BigUint::from(9u32), BigUint::one());
        let fx = pow2e(&c.f, &xi, &((&q - 1u32) / 3u32));
        let fy = pow2e(&c.f, &xi, &((&q - 1u32) / 2u32));
        let exp = (q.pow(12) - 1u32) / r_mod();
        Ate { c, fx, fy, loop_count: BigUint::from(4965661367192848881u64) * 6u32 + 2u32, exp }
    }
    fn frob(&self, p: &P2) -> P2 {
        let f = &self.c.f;
        p.as_ref().map(|(x, y)| {
            let cj = |e: &E2| (e.0.clone(), f.b.neg(&e.1));
            (f.mul(&cj(x), &self.fx), f.mul(&cj(y), &self.fy))
        })
    }
    /// line through t and r (tangent when equal), at the affine G1 point, and t + r
    fn line(&self, t: &P2, r: &P2, p: &(BigUint, BigUint)) -> (Poly, P2) {
        let f = &self.c.f;
        let (Some((x1, y1)), Some((x2, y2))) = (t, r) else { return (pone(), self.c.add(t, r)) };
        let sum = self.c.add(t, r);
        if x1 == x2 && y1 != y2 {
            return (pone(), sum); // vertical: killed by the final exponentiation
        }
        let l = if x1 == x2 {
            f.mul(&f.mul(&f.int(3), &f.mul(x1, x1)), &f.inv(&f.add(y1, y1)).unwrap())
        } else {
            f.mul(&f.sub(y2, y1), &f.inv(&f.sub(x2, x1)).unwrap())
        };
        // yp - l*xp*w + (l*x1 - y1)*w^3, with coefficients a + b*u placed at w^i and w^(i+6) - 9 w^i
        let mut o = vec![BigUint::zero(); 12];
        let mut put = |e: usize, c: &E2| {
            o[e] = f.b.add(&o[e], &f.b.sub(&c.0, &(&c.1 * 9u32 % &f.b.p)));
            o[e + 6] = f.b.add(&o[e + 6], &c.1);
        };
        put(0, &(p.1.clone(), BigUint::zero()));
        put(1, &f.neg(&f.mul(&l, &(p.0.clone(), BigUint::zero()))));
        put(3, &f.sub(&f.mul(&l, x1), y1));
        (o, sum)
    }
    /// the Miller function, up to factors killed by the final exponentiation
    pub fn miller(&self, p: &P1, q: &P2) -> Poly {
        let (Some(p), Some(_)) = (p, q) else { return pone() };
        let mut f = pone();
        let mut t = q.clone();
        for i in (0..self.loop_count.bits() - 1).rev() {
            let (l, n) = self.line(&t, &t, p);
            f = pmul(&pmul(&f, &f), &l);
            t = n;
            if self.loop_count.bit(i) {
                let (l, n) = self.line(&t, q, p);
                f = pmul(&f, &l);
                t = n;
            }
        }
        let q1 = self.frob(q);
        let q2 = self.c.neg(&self.frob(&q1));
        let (l, n) = self.line(&t, &q1, p);
        f = pmul(&f, &l);
        let (l, _) = self.line(&n, &q2, p);
        pmul(&f, &l)
    }
    pub fn pairing(&self, p: &P1, q: &P2) -> Poly {
        ppow(&self.miller(p, q), &self.exp)
    }
}
impl Default for Ate {
    fn default() -> Self {
        Self::new()
    }
}
