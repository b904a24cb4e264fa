//! P22: evaluation domains and polynomials: transforms, cosets, vanishing polynomial, arithmetic.
use kmon::g16::*;
use kmon::prelude::*;
use kmon::ensure;
use bn_254::Fr;
use zkstd::common::*;

#[cfg(kogarashi_verif)]
mod hooked {
    use super::*;
    use kmon::eqv;
    use zkgroth16::verif::{poly::*, Domain};
    pub fn omega(k: u64) -> Fr {
        let r = Fp::new(r_mod());
        Fr::of(&r.pow(&Fr::ROOT_OF_UNITY.big(), &pow2(Fr::S as u64 - k)))
    }
    pub fn horner(c: &[Fr], x: Fr) -> Fr {
        c.iter().rev().fold(Fr::zero(), |a, c| a * x + *c)
    }
    pub fn trim(mut v: Vec<Fr>) -> Vec<Fr> {
        while v.last().map_or(false, |x| *x == Fr::zero()) {
            v.pop();
        }
        v
    }
    pub fn poly(rng: &mut ChaCha20Rng, len: usize) -> Vec<Fr> {
        let r = r_mod();
        match below(rng, 6) {
            0 => vec![Fr::zero(); len],
            1 => (0..len).map(|i| if i + 1 == len { Fr::one() } else { Fr::zero() }).collect(),
            2 => (0..len).map(|_| -Fr::one()).collect(),
            3 => (0..len).map(|i| if i % 3 == 0 { Fr::zero() } else { Fr::of(&gen_val(rng, &r)) }).collect(),
            _ => (0..len).map(|_| Fr::of(&gen_val(rng, &r))).collect(),
        }
    }
    pub fn transforms(cx: &mut Cx, k: u64, reps: u64) {
        let n = 1usize << k;
        let mut rng = ChaCha20Rng::seed_from_u64(cx.rng.next_u64());
        let d = match guard(|| Domain::new(k as usize)) {
            Ok(d) => d,
            Err(e) => {
                cx.case(("domain", k), true, || fail("domain", format!("no domain of size 2^{k}: {e}")));
                return;
            }
        };
        let w = omega(k);
        let g = Fr::MULTIPLICATIVE_GENERATOR;
        for rep in 0..reps {
            let len = match rep % 4 {
                0 => n,
                1 => n - 1,
                2 => below(&mut rng, n as u64 + 1) as usize,
                _ => n / 2 + 1,
            };
            let c = poly(&mut rng, len);
            let key: Vec<u8> = c.iter().flat_map(|x| x.to_raw_bytes()).collect();
            cx.count("transforms of 2^k points, sum of k", k);
            cx.sample(|| format!("k={k} len={len} first={:?}", c.first()));
            cx.case((k, key), len > 0, || {
                // evaluation on the domain and on the coset, by Horner
                let ev = d.dft(c.clone());
                let cev = d.coset_dft(c.clone());
                eqv!((ev.len(), cev.len()), (n, n), "k={k}: number of values");
                let step = if n > 256 { n / 64 + 1 } else { 1 };
                let mut x = Fr::one();
                for i in 0..n {
                    if i % step == 0 {
                        ensure!(ev[i] == horner(&c, x), "k={k} len={len}: value {i} of the transform");
                        ensure!(cev[i] == horner(&c, x * g), "k={k} len={len}: value {i} on the coset");
                    }
                    x *= w;
                }
                ensure!(x == Fr::one(), "k={k}: the root of unity has another order");
                // inverses
                ensure!(trim(d.idft(ev.clone())) == trim(c.clone()), "k={k} len={len}: inverse transform");
                ensure!(trim(d.coset_idft(cev.clone())) == trim(c.clone()), "k={k} len={len}: inverse transform on the coset");
                // arbitrary values: the interpolating polynomial has these values
                let mut full = c.clone();
                full.resize(n, Fr::one());
                ensure!(d.dft(d.idft(full.clone())) == full, "k={k}: interpolation");
                ensure!(d.coset_dft(d.coset_idft(full.clone())) == full, "k={k}: interpolation on the coset");
                // vanishing polynomial
                ensure!(d.z(&w) == Fr::zero() && d.z(&Fr::one()) == Fr::zero(), "k={k}: the vanishing polynomial on the domain");
                let t = full[0] + w;
                ensure!(d.z(&t).big() == Fp::new(r_mod()).sub(&t.big().modpow(&BigUint::from(n), &r_mod()), &BigUint::one()), "k={k}: vanishing polynomial at {t:?}");
                let q = d.divide_by_z_on_coset(full.clone());
                let zc = d.z(&g);
                ensure!(zc != Fr::zero(), "k={k}: the coset meets the domain");
                ensure!(q.len() == n && q.iter().zip(&full).all(|(a, b)| *a * zc == *b), "k={k}: division by the vanishing polynomial");
                Ok(())
            });
        }
    }
    /// h with a b - c = h z, for a, b, c agreeing on the domain
    pub fn quotient(cx: &mut Cx) {
        for _ in 0..cx.n(40, 800) {
            let k = 1 + below(&mut cx.rng, 6);
            let n = 1usize << k;
            let mut rng = ChaCha20Rng::seed_from_u64(cx.rng.next_u64());
            let d = Domain::new(k as usize);
            let (a, b) = (poly(&mut rng, n), poly(&mut rng, n));
            cx.case((k, format!("{a:?}{b:?}")), true, || {
                let (av, bv) = (d.dft(a.clone()), d.dft(b.clone()));
                let c = d.idft(av.iter().zip(&bv).map(|(x, y)| *x * *y).collect());
                let (ac, bc, cc) = (d.coset_dft(a.clone()), d.coset_dft(b.clone()), d.coset_dft(c.clone()));
                let h = &(&PointsValue(ac) * &PointsValue(bc)) - &PointsValue(cc);
                let h = trim(d.coset_idft(d.divide_by_z_on_coset(h.0)));
                ensure!(h.len() <= n - 1, "k={k}: the quotient has {} coefficients", h.len());
                for _ in 0..3 {
                    let x = Fr::of(&gen_rand(&mut rng, &r_mod()));
                    ensure!(horner(&a, x) * horner(&b, x) - horner(&c, x) == horner(&h, x) * d.z(&x), "k={k}: a b - c = h z at {x:?}");
                }
                Ok(())
            });
        }
    }
    pub fn arithmetic(cx: &mut Cx) {
        for _ in 0..cx.n(600, 20_000) {
            if cx.full() {
                break;
            }
            let mut rng = ChaCha20Rng::seed_from_u64(cx.rng.next_u64());
            let (la, lb) = (below(&mut rng, 10) as usize, below(&mut rng, 10) as usize);
            let a = poly(&mut rng, la);
            let mut b = if below(&mut rng, 4) == 0 { a.clone() } else { poly(&mut rng, lb) };
            if below(&mut rng, 4) == 0 {
                // cancel the leading coefficients
                for (x, y) in b.iter_mut().zip(&a) {
                    if below(&mut rng, 2) == 0 {
                        *x = if below(&mut rng, 2) == 0 { -*y } else { *y };
                    }
                }
            }
            let any = Fr::of(&gen_rand(&mut rng, &r_mod()));
            let s = *pick(&mut rng, &[Fr::zero(), Fr::one(), -Fr::one(), any]);
            let x = Fr::of(&gen_val(&mut rng, &r_mod()));
            cx.sample(|| format!("{a:?} {b:?}"));
            cx.case((format!("{a:?}{b:?}{s:?}{x:?}")), !(a.is_empty() && b.is_empty()), || {
                let (p, q) = (Coefficients(a.clone()), Coefficients(b.clone()));
                let n = a.len().max(b.len());
                let at = |v: &[Fr], i: usize| v.get(i).copied().unwrap_or_else(Fr::zero);
                let lift = |f: &dyn Fn(Fr, Fr) -> Fr| (0..n).map(|i| f(at(&a, i), at(&b, i))).collect::<Vec<_>>();
                let sum = lift(&|x, y| x + y);
                let dif = lift(&|x, y| x - y);
                let pro = lift(&|x, y| x * y);
                let t = |c: Coefficients<Fr>| trim(c.0);
                eqv!(t(p.clone() + q.clone()), trim(sum.clone()), "{a:?} + {b:?}");
                eqv!(t(&p + &q), trim(sum.clone()), "&{a:?} + &{b:?}");
                eqv!(t(p.clone() - q.clone()), trim(dif.clone()), "{a:?} - {b:?}");
                eqv!(t(&p * &s), trim(a.iter().map(|x| *x * s).collect()), "{a:?} * {s:?}");
                eqv!(t(vec![p.clone(), q.clone(), p.clone()].into_iter().sum()), trim((0..n).map(|i| at(&a, i) + at(&b, i) + at(&a, i)).collect()), "sum of {a:?}, {b:?}, {a:?}");
                eqv!((&PointsValue(a.clone()) - &PointsValue(b.clone())).0, dif, "values {a:?} - {b:?}");
                eqv!((&PointsValue(a.clone()) * &PointsValue(b.clone())).0, pro, "values {a:?} * {b:?}");
                eqv!(p.evaluate(&x), horner(&a, x), "{a:?} at {x:?}");
                eqv!(Coefficients::new(a.clone()).degree(), trim(a.clone()).len().saturating_sub(1), "degree of {a:?}");
                eqv!(Coefficients::new(a.clone()).0, trim(a.clone()), "trimmed {a:?}");
                if !a.is_empty() {
                    // quotient by X - x
                    let d = p.divide(&x).0;
                    for _ in 0..2 {
                        let y = Fr::of(&gen_rand(&mut rng.clone(), &r_mod()));
                        ensure!(horner(&d, y) * (y - x) == horner(&a, y) - horner(&a, x), "{a:?} divided by X - {x:?}");
                    }
                }
                let e = below(&mut rng.clone(), 1 << 20);
                eqv!(Coefficients::t(e, x).big(), Fp::new(r_mod()).sub(&x.big().modpow(&BigUint::from(e), &r_mod()), &BigUint::one()), "{x:?}^{e} - 1");
                Ok(())
            });
        }
    }
    pub fn blind(cx: &mut Cx) {
        for _ in 0..cx.n(60, 1000) {
            let k = 2 + below(&mut cx.rng, 4);
            let n = 1usize << k;
            let mut rng = ChaCha20Rng::seed_from_u64(cx.rng.next_u64());
            let a = poly(&mut rng, n);
            let h = below(&mut rng, 3) as usize;
            cx.case((k, h, format!("{a:?}")), true, || {
                let mut p = Coefficients(a.clone());
                p.blind(h, &mut rng);
                let w = omega(k);
                let mut x = Fr::one();
                for i in 0..n {
                    ensure!(horner(&p.0, x) == horner(&a, x), "blinding changed value {i} on the domain");
                    x *= w;
                }
                eqv!(p.0.len(), n + h + 1, "coefficients after blinding");
                ensure!(p.0[n..].iter().all(|c| *c != Fr::zero()), "a blinding coefficient is zero");
                Ok(())
            });
        }
    }
    pub fn powers(cx: &mut Cx) {
        for k in 0..8usize {
            let seed = cx.rng.next_u64();
            cx.case((k, seed), true, || {
                let (r, d) = Coefficients::<Fr>::setup(k, ChaCha20Rng::seed_from_u64(seed));
                eqv!(d.len(), 1 << k, "number of powers");
                let mut x = Fr::one();
                for (i, v) in d.iter().enumerate() {
                    ensure!(*v == x, "power {i}");
                    x *= r;
                }
                // a polynomial with as many coefficients is evaluated by its commitment
                let p = poly(&mut ChaCha20Rng::seed_from_u64(seed), 1 << k);
                eqv!(Coefficients(p.clone()).commit(&d), horner(&p, r), "commitment to {p:?}");
                Ok(())
            });
        }
    }
}

/// The same through the public interface alone: keys and proofs over domains of every small size.
fn proofs(cx: &mut Cx) {
    for len in 0..cx.n(20, 60) {
        let s = Spec { shape: cx.rng.next_u64(), vals: cx.rng.next_u64(), len, lie: None, kind: Kind::Program };
        let cs = r1cs(&s);
        let seed = cx.rng.next_u64();
        cx.case(format!("{s:?}"), true, || {
            let Ok(Ok((mut p, v))) = guard(|| setup(&s, seed)) else { return fail("setup", format!("no keys for {s:?}")) };
            let Ok(proof) = with_spec(&s, || p.create_proof(&mut ChaCha20Rng::seed_from_u64(seed), Drawn(s.clone()))) else { return fail("prove", format!("no proof for {s:?}")) };
            ensure!(v.verify(&proof, &publics(&cs)).is_ok(), "{s:?}: rejected over a domain for {} constraints", cs.m());
            Ok(())
        });
    }
}

fn main() {
    let mut c = Check::new("P22", "distinct polynomials transformed, combined or divided");
    c.class("proofs", proofs);
    #[cfg(kogarashi_verif)]
    {
        use hooked::*;
        for k in 1..=8u64 {
            c.class(&format!("domain/2^{k}"), move |cx| {
                let r = if k <= 4 { cx.n(40, 1500) } else { cx.n(8, 200) };
                transforms(cx, k, r)
            });
        }
        for k in 9..=12u64 {
            c.class(&format!("domain/2^{k}"), move |cx| {
                let r = cx.n(1, 12);
                transforms(cx, k, r)
            });
        }
        c.heavy("domain/large", |cx| {
            for k in if cx.thorough() { 13..=19 } else { 13..=14 } {
                transforms(cx, k, 1)
            }
        });
        c.class("quotient", quotient);
        c.class("arithmetic", arithmetic);
        c.class("blind", blind);
        c.class("powers", powers);
    }
    c.run()
}
