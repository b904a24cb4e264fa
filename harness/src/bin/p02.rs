//! P02: inversion, division, exponentiation, square roots and roots of unity.
use bn_254::{Fq, Fr};
use kmon::prelude::*;
use kmon::{ensure, eqv};
use zkstd::common::*;

fn agree<F: KField>(got: F, want: &BigUint, what: &str) -> R {
    ensure!(canonical(&got), "{what}: {} result not reduced: {:x?}", F::NAME, got.raw());
    ensure!(&got.big() == want, "{what} in {}: got {:#x} want {:#x}", F::NAME, got.big(), want);
    Ok(())
}
/// exponents: random, sparse, boundary
fn gen_exp(rng: &mut impl RngCore, p: &BigUint) -> BigUint {
    match rng.next_u64() % 9 {
        0 => BigUint::from(rng.next_u64() % 6),
        1 => p - 1u32,
        2 => p - 2u32,
        3 => p.clone(),
        4 => pow2(256) - 1u32 - BigUint::from(rng.next_u64() % 3),
        5 => pow2(rng.next_u64() % 256),
        6 => pat_big(rng, 4, p, &pow2(256)),
        7 => { let k = 1 + rng.next_u64() % 256; rand_big(rng, k) }
        _ => rand_big(rng, 256),
    }
}
macro_rules! classes {
    ($c:ident, $F:ident) => {{
        let n = stringify!($F);
        $c.sharded(&format!("{n}/invert-div"), 2, |cx| {
            let f = Fp::new(<$F as KField>::modulus());
            for _ in 0..cx.n(6_000, 150_000) {
                if cx.full() { break }
                let (x, y) = (gen_val(&mut cx.rng, &f.p), gen_val(&mut cx.rng, &f.p));
                let (a, b) = ($F::of(&x), $F::of(&y));
                cx.sample(|| format!("a={x:#x} b={y:#x}"));
                cx.case((&x, &y), !x.is_zero() && !y.is_zero(), || {
                    match (f.inv(&x), Group::invert(a)) {
                        (None, None) => {}
                        (Some(i), Some(g)) => {
                            agree(g, &i, &format!("invert({x:#x})"))?;
                            ensure!(g * a == $F::one(), "x * x^-1 != 1 for {x:#x}");
                        }
                        (w, g) => return Err(format!("invert({x:#x}): got {g:?} want {w:x?}").into()),
                    }
                    if let Some(i) = f.inv(&y) {
                        let w = f.mul(&x, &i);
                        agree(a / b, &w, &format!("{x:#x} / {y:#x}"))?;
                        let mut t = a;
                        t /= b;
                        agree(t, &w, &format!("{x:#x} /= {y:#x}"))?;
                        ensure!((a / b) * b == a, "(a/b)*b != a for {x:#x}, {y:#x}");
                    }
                    Ok(())
                });
            }
        });
        $c.sharded(&format!("{n}/pow"), 2, |cx| {
            let f = Fp::new(<$F as KField>::modulus());
            for _ in 0..cx.n(4_000, 100_000) {
                if cx.full() { break }
                let x = gen_val(&mut cx.rng, &f.p);
                let e = gen_exp(&mut cx.rng, &f.p);
                let a = $F::of(&x);
                cx.case((&x, &e), x > BigUint::one() && e > BigUint::one(), || {
                    agree(a.pow_vartime(&limbs::<4>(&e)), &f.pow(&x, &e), &format!("pow_vartime({x:#x}, {e:#x})"))
                });
            }
        });
        $c.class(&format!("{n}/pow-of-2"), |cx| {
            let f = Fp::new(<$F as KField>::modulus());
            for i in 0..cx.n(3_000, 60_000) {
                if cx.full() { break }
                let e = if i < 300 { i } else { match below(&mut cx.rng, 4) { 0 => 1u64 << below(&mut cx.rng, 64), 1 => u64::MAX - below(&mut cx.rng, 5), _ => cx.rng.next_u64() } };
                cx.case(e, e > 0, || agree($F::pow_of_2(e), &f.pow(&BigUint::from(2u32), &BigUint::from(e)), &format!("pow_of_2({e})")));
            }
        });
        $c.sharded(&format!("{n}/sqrt"), 2, |cx| {
            let f = Fp::new(<$F as KField>::modulus());
            let two_adic: Vec<BigUint> = {
                // elements of every 2-power order: exercise each branch of Tonelli-Shanks
                let mut t = &f.p - 1u32; let mut s = 0; while !t.bit(0) { t >>= 1; s += 1; }
                let mut g = BigUint::from(2u32); while legendre(&g, &f.p) != -1 { g += 1u32; }
                let mut z = f.pow(&g, &t); let mut v = vec![];
                for _ in 0..=s { v.push(z.clone()); z = f.mul(&z, &z); } v
            };
            for i in 0..cx.n(2_500, 60_000) {
                if cx.full() { break }
                let x = match i % 5 {
                    0 => gen_val(&mut cx.rng, &f.p),
                    1 => { let y = gen_val(&mut cx.rng, &f.p); f.mul(&y, &y) }
                    2 => pick(&mut cx.rng, &two_adic).clone(),
                    3 => { let y = gen_rand(&mut cx.rng, &f.p); let z = pick(&mut cx.rng, &two_adic).clone(); f.mul(&f.mul(&y, &y), &z) }
                    _ => BigUint::from(i / 5),
                };
                let a = $F::of(&x);
                let l = legendre(&x, &f.p);
                cx.count(match l { 0 => "sqrt of zero", 1 => "sqrt of residues", _ => "sqrt of non-residues" }, 1);
                cx.case(&x, !x.is_zero(), || {
                    match a.sqrt() {
                        Some(s) => {
                            ensure!(l != -1, "sqrt({x:#x}) in {n} = {s:?} although it is a non-residue", n = <$F as KField>::NAME);
                            ensure!(canonical(&s) && f.mul(&s.big(), &s.big()) == x, "sqrt({x:#x}) = {s:?} does not square back", );
                        }
                        None => ensure!(l == -1, "sqrt({x:#x}) = None although it is a square (in {})", <$F as KField>::NAME),
                    }
                    Ok(())
                });
            }
        });
    }};
}
fn main() {
    let mut c = Check::new(
        "P02",
        "each case is an operand (and exponent) run through invert / division / power / square root and judged by big-integer arithmetic (extended Euclid, modpow, Euler criterion, square-back); non-trivial: operand and exponent above one, or operand non-zero",
    );
    c.assume("num-bigint modpow is correct");
    classes!(c, Fr);
    classes!(c, Fq);
    c.class("Fr/pow-u64", |cx| {
        let f = Fp::new(r_mod());
        for i in 0..cx.n(6_000, 150_000) {
            if cx.full() { break }
            let x = gen_val(&mut cx.rng, &f.p);
            let e = if i % 3 == 0 { below(&mut cx.rng, 40) } else { cx.rng.next_u64() >> below(&mut cx.rng, 64) };
            let a = Fr::of(&x);
            cx.case((&x, e), x > BigUint::one() && e > 1, || agree(FftField::pow(a, e), &f.pow(&x, &BigUint::from(e)), &format!("pow({x:#x},{e})")));
        }
    });
    c.class("Fr/roots-of-unity", |cx| {
        let f = Fp::new(r_mod());
        let rm1 = &f.p - 1u32;
        let s = rm1.trailing_zeros().unwrap();
        cx.case("S", true, || { eqv!(<Fr as FftField>::S as u64, s, "FftField::S of Fr"); Ok(()) });
        cx.case("two-adicity", true, || { eqv!(bn_254::TWO_ADACITY as u64, s, "published two-adicity of the scalar field"); Ok(()) });
        cx.case("root-order", true, || {
            for (w, n) in [(<Fr as FftField>::ROOT_OF_UNITY, "trait ROOT_OF_UNITY"), (bn_254::ROOT_OF_UNITY, "ROOT_OF_UNITY")] {
                let w = w.big();
                ensure!(f.pow(&w, &pow2(s)).is_one(), "{n} is not a 2^S-th root of unity");
                ensure!(!f.pow(&w, &pow2(s - 1)).is_one(), "{n} is not primitive");
            }
            Ok(())
        });
        cx.case("generator", true, || {
            let fs = ["2", "3", "13", "29", "983", "11003", "237073", "405928799", "1670836401704629", "13818364434197438864469338081"];
            let mut rest = rm1.clone();
            for q in fs {
                let q = BigUint::parse_bytes(q.as_bytes(), 10).unwrap();
                ensure!((&rm1 % &q).is_zero(), "harness: {q} does not divide r-1");
                while (&rest % &q).is_zero() { rest /= &q }
                for (g, n) in [(<Fr as FftField>::MULTIPLICATIVE_GENERATOR, "trait generator"), (bn_254::MULTIPLICATIVE_GENERATOR, "MULTIPLICATIVE_GENERATOR")] {
                    ensure!(!f.pow(&g.big(), &(&rm1 / &q)).is_one(), "{n} lies in the subgroup of index {q}");
                }
            }
            ensure!(rest.is_one(), "harness: factorisation of r-1 incomplete");
            Ok(())
        });
        // every domain size: w^(2^(S-k)) generates exactly the 2^k domain
        for k in 0..=s {
            cx.case(("domain", k), true, || {
                let mut w = <Fr as FftField>::ROOT_OF_UNITY;
                for _ in k..s { w = PrimeField::square(w) }
                let mut t = w;
                for _ in 1..k { t = PrimeField::square(t) }
                if k > 0 { ensure!(t == -Fr::one(), "root for domain 2^{k} has the wrong order") } else { ensure!(w == Fr::one(), "trivial domain") }
                Ok(())
            });
        }
    });
    c.run()
}
