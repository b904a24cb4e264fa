//! P06: Fq2, Fq6 and Fq12 are the fields Fq[w]/(w^12-18w^6+82) restricted to their subfields.
use bn_254::{Fq, Fq12, Fq2, Fq6};
use kmon::prelude::*;
use kmon::{ensure, eqv};
use std::cmp::Ordering;
use std::sync::Arc;
use zkstd::common::*;

fn agree<T: Tower>(got: T, want: &Poly, what: &str) -> R {
    let w = from_w(want, T::DEG).ok_or_else(|| Fail::from("oracle left the subfield"))?;
    let g = got.coeffs();
    ensure!(g == w, "{what} in {}: got {g:x?} want {w:x?}", T::NAME);
    ensure!(got == T::from_coeffs(&w), "{what} in {}: right coefficients but not ==", T::NAME);
    Ok(())
}
fn neg(a: &Poly) -> Poly {
    psub(&vec![BigUint::zero(); 12], a)
}

macro_rules! tower {
    ($c:ident, $T:ident, $deg:expr, $frob:ident) => {{
        let n = stringify!($T);
        $c.sharded(&format!("{n}/ring"), 2, move |cx| {
            for _ in 0..cx.n(10_000, 250_000) {
                if cx.full() { break }
                let (x, y) = (gen_tower(&mut cx.rng, $deg), if below(&mut cx.rng, 12) == 0 { vec![] } else { gen_tower(&mut cx.rng, $deg) });
                let y = if y.is_empty() { x.clone() } else { y };
                let (a, b) = ($T::from_coeffs(&x), $T::from_coeffs(&y));
                let (p, q) = (to_w(&x), to_w(&y));
                let (s, d, m) = (padd(&p, &q), psub(&p, &q), pmul(&p, &q));
                cx.sample(|| format!("{n} a={x:x?} b={y:x?}"));
                let nz = x.iter().any(|v| !v.is_zero()) && y.iter().any(|v| !v.is_zero());
                cx.case((&x, &y), nz, || {
                    let w = |o: &str| format!("{o} on a={x:x?} b={y:x?}");
                    agree(a + b, &s, &w("a+b"))?;
                    agree(&a + &b, &s, &w("&a+&b"))?;
                    agree(&a + b, &s, &w("&a+b"))?;
                    let mut t = a; t += b; agree(t, &s, &w("a+=b"))?;
                    agree(a - b, &d, &w("a-b"))?;
                    let mut t = a; t -= b; agree(t, &d, &w("a-=b"))?;
                    let mut t = a; t -= &b; agree(t, &d, &w("a-=&b"))?;
                    agree(a * b, &m, &w("a*b"))?;
                    let mut t = a; t *= b; agree(t, &m, &w("a*=b"))?;
                    agree(-a, &neg(&p), &w("-a"))?;
                    let z = vec![BigUint::zero(); 12];
                    agree($T::zero(), &z, "zero")?;
                    agree($T::ADDITIVE_IDENTITY, &z, "ADDITIVE_IDENTITY")?;
                    agree($T::one(), &pone(), "one")?;
                    agree($T::MULTIPLICATIVE_IDENTITY, &pone(), "MULTIPLICATIVE_IDENTITY")?;
                    agree(PrimeField::double(a), &padd(&p, &p), &w("double"))?;
                    agree(PrimeField::square(a), &pmul(&p, &p), &w("square"))?;
                    let mut t = a; t.double_assign(); agree(t, &padd(&p, &p), &w("double_assign"))?;
                    let mut t = a; t.square_assign(); agree(t, &pmul(&p, &p), &w("square_assign"))?;
                    ensure!((a == b) == (x == y) && (a != b) == (x != y), "{}", w("equality"));
                    ensure!(PrimeField::is_zero(a) == x.iter().all(|v| v.is_zero()), "{}", w("is_zero"));
                    // order: total, consistent with equality, most significant coefficient first
                    let want = x.iter().rev().zip(y.iter().rev()).map(|(u, v)| Fq::of(u).cmp(&Fq::of(v))).find(|o| *o != Ordering::Equal).unwrap_or(Ordering::Equal);
                    eqv!(a.cmp(&b), want, "{}", w("cmp"));
                    eqv!(a.partial_cmp(&b), Some(want), "{}", w("partial_cmp"));
                    ensure!((a < b) == (want == Ordering::Less) && (a <= b) == (want != Ordering::Greater) && (a > b) == (want == Ordering::Greater) && (a >= b) == (want != Ordering::Less), "{}", w("comparison operators"));
                    Ok(())
                });
            }
        });
        // operator forms taking references, each its own class: they are separate implementations
        $c.class(&format!("{n}/by-reference"), |cx| {
            for _ in 0..cx.n(3_000, 60_000) {
                if cx.full() { break }
                let (x, y) = (gen_tower(&mut cx.rng, $deg), gen_tower(&mut cx.rng, $deg));
                let (a, b) = ($T::from_coeffs(&x), $T::from_coeffs(&y));
                let (p, q) = (to_w(&x), to_w(&y));
                let (s, d, m) = (padd(&p, &q), psub(&p, &q), pmul(&p, &q));
                cx.case((&x, &y), x != y, || {
                    let w = |o: &str| format!("{o} on a={x:x?} b={y:x?}");
                    agree(&a - &b, &d, &w("&a-&b"))?;
                    agree(a - &b, &d, &w("a-&b"))?;
                    agree(&a - b, &d, &w("&a-b"))?;
                    agree(&a * &b, &m, &w("&a*&b"))?;
                    agree(a * &b, &m, &w("a*&b"))?;
                    let mut t = a; t *= &b; agree(t, &m, &w("a*=&b"))?;
                    agree(a + &b, &s, &w("a+&b"))?;
                    let mut t = a; t += &b; agree(t, &s, &w("a+=&b"))
                });
            }
        });
        $c.heavy(&format!("{n}/invert-div"), |cx| {
            for _ in 0..cx.n(800, 25_000) {
                if cx.full() { break }
                let (x, y) = (gen_tower(&mut cx.rng, $deg), gen_tower(&mut cx.rng, $deg));
                let (a, b) = ($T::from_coeffs(&x), $T::from_coeffs(&y));
                let (p, q) = (to_w(&x), to_w(&y));
                cx.case((&x, &y), x.iter().any(|v| !v.is_zero()), || {
                    match Group::invert(a) {
                        None => ensure!(x.iter().all(|v| v.is_zero()), "invert({x:x?}) is None"),
                        Some(i) => {
                            ensure!(!x.iter().all(|v| v.is_zero()), "invert(0) is {i:?}");
                            agree($T::one(), &pmul(&p, &to_w(&i.coeffs())), &format!("a*invert(a) a={x:x?}"))?;
                        }
                    }
                    if y.iter().all(|v| v.is_zero()) {
                        ensure!(guard(|| a / b).is_err(), "a/0 returned a value");
                        return Ok(());
                    }
                    let r = a / b;
                    eqv!(pmul(&to_w(&r.coeffs()), &q), p, "(a/b)*b a={x:x?} b={y:x?}");
                    let mut t = a; t /= b;
                    ensure!(t == r, "a/=b differs from a/b on a={x:x?} b={y:x?}");
                    Ok(())
                });
            }
        });
        let fr = $frob.clone();
        $c.class(&format!("{n}/frobenius"), move |cx| {
            for _ in 0..cx.n(3_000, 60_000) {
                if cx.full() { break }
                let x = gen_tower(&mut cx.rng, $deg);
                let a = $T::from_coeffs(&x);
                cx.case(&x, x[1..].iter().any(|v| !v.is_zero()), || agree(a.frobenius_map(), &fr.apply(&to_w(&x)), &format!("frobenius_map({x:x?})")));
            }
        });
        $c.class(&format!("{n}/random"), |cx| {
            let mut seen = std::collections::HashSet::new();
            for _ in 0..cx.n(300, 5_000) {
                let mut r = ChaCha20Rng::seed_from_u64(cx.rng.next_u64());
                let (mut r1, mut r2) = (r.clone(), r.clone());
                let _ = r.next_u64();
                cx.case(cx.evals, true, || {
                    let (a, b) = ($T::random(&mut r1), $T::random(&mut r2));
                    ensure!(a == b, "random is not a function of the generator");
                    ensure!(a.coeffs().iter().all(|v| v < &q_mod()), "random coefficient not canonical");
                    ensure!(seen.insert(a.coeffs()), "random repeated a value");
                    ensure!(a.coeffs().iter().collect::<std::collections::HashSet<_>>().len() == $deg, "random coefficients are not independent");
                    Ok(())
                });
            }
        });
    }};
}

fn main() {
    let mut c = Check::new("P06", "operands non-zero (ring), non-zero (inverse), outside Fq (Frobenius), distinct inputs");
    c.assume("Fq itself is judged by P01-P03");
    let frob = Arc::new(Frob::new());
    tower!(c, Fq2, 2, frob);
    tower!(c, Fq6, 6, frob);
    tower!(c, Fq12, 12, frob);
    let fr = frob.clone();
    // the published coefficients: v^2 raised to q^i is the i-th one times v^2
    let fc = frob.clone();
    c.class("Frobenius-coefficients", move |cx| {
        let mut v = vec![BigUint::zero(); 12];
        v[4] = BigUint::one();
        let mut p = v.clone();
        for (i, k) in bn_254::params::FROBENIUS_COEFF_FQ6_C2.iter().enumerate() {
            cx.case(i, i > 0, || {
                eqv!(pmul(&to_w(&k.coeffs()), &v), p, "coefficient {i} of v^2");
                Ok(())
            });
            p = fc.apply(&p);
        }
        cx.case("b3", true, || {
            eqv!(bn_254::params::PARAM_B3.big(), BigUint::from(9u32), "three times b");
            eqv!((bn_254::params::BN_X, bn_254::params::BN_X_IS_NEGATIVE), (4965661367192848881, false), "curve parameter");
            Ok(())
        });
    });
    c.class("Fq12/conjugate", move |cx| {
        // conjugation is the sixth power of Frobenius
        for _ in 0..cx.n(400, 8_000) {
            let x = gen_tower(&mut cx.rng, 12);
            let a = Fq12::from_coeffs(&x);
            let fr = &fr;
            cx.case(&x, x[6..].iter().any(|v| !v.is_zero()), || {
                let mut p = to_w(&x);
                for _ in 0..6 { p = fr.apply(&p) }
                agree(a.conjugate(), &p, &format!("conjugate({x:x?})"))
            });
        }
    });
    c.class("sparse-multiplication", |cx| {
        for _ in 0..cx.n(6_000, 120_000) {
            if cx.full() { break }
            let x = gen_tower(&mut cx.rng, 12);
            let (c0, c3, c4) = (gen_tower(&mut cx.rng, 2), gen_tower(&mut cx.rng, 2), gen_tower(&mut cx.rng, 2));
            let a = Fq12::from_coeffs(&x);
            let x6 = gen_tower(&mut cx.rng, 6);
            let a6 = Fq6::from_coeffs(&x6);
            let f2 = |v: &Vec<BigUint>| Fq2::from_coeffs(v);
            cx.case((&x, &c0, &c3, &c4, &x6), c0.iter().chain(&c3).chain(&c4).any(|v| !v.is_zero()), || {
                let z = || vec![BigUint::zero(); 2];
                let flat = |parts: [Vec<BigUint>; 6]| to_w(&parts.concat());
                let s = flat([c0.clone(), z(), z(), c3.clone(), c4.clone(), z()]);
                agree(a.mul_by_034(f2(&c0), f2(&c3), f2(&c4)), &pmul(&to_w(&x), &s), &format!("mul_by_034 a={x:x?} {c0:x?} {c3:x?} {c4:x?}"))?;
                let s = flat([c0.clone(), c3.clone(), z(), z(), z(), z()]);
                agree(a6.mul_by_01(f2(&c0), f2(&c3)), &pmul(&to_w(&x6), &s), &format!("mul_by_01 a={x6:x?} {c0:x?} {c3:x?}"))?;
                let s = flat([z(), c3.clone(), z(), z(), z(), z()]);
                agree(a6.mul_by_1(f2(&c3)), &pmul(&to_w(&x6), &s), &format!("mul_by_1 a={x6:x?} {c3:x?}"))
            });
        }
    });
    c.heavy("Fq2/sqrt", |cx| {
        let q = q_mod();
        let o = Fp2 { b: Fp::new(q.clone()) };
        for _ in 0..cx.n(1_500, 40_000) {
            if cx.full() { break }
            let mut x = gen_tower(&mut cx.rng, 2);
            let kind = below(&mut cx.rng, 4);
            let y = (x[0].clone(), x[1].clone());
            if kind == 1 { let s = o.mul(&y, &y); x = vec![s.0, s.1] }
            if kind == 2 { x[1] = BigUint::zero() }
            if kind == 3 { x[0] = BigUint::zero() }
            let a = Fq2::from_coeffs(&x);
            // a is a square in Fq2 iff its norm is a square in Fq
            let norm = (&x[0] * &x[0] + &x[1] * &x[1]) % &q;
            let is_sq = legendre(&norm, &q) != -1;
            cx.count(if is_sq { "squares" } else { "non-squares" }, 1);
            cx.case(&x, x.iter().any(|v| !v.is_zero()), || {
                match a.sqrt() {
                    Some(r) => {
                        ensure!(is_sq, "sqrt({x:x?}) of a non-square returned {r:?}");
                        agree(a, &pmul(&to_w(&r.coeffs()), &to_w(&r.coeffs())), &format!("sqrt({x:x?})^2"))
                    }
                    None => { ensure!(!is_sq, "sqrt({x:x?}) of a square is None"); Ok(()) }
                }
            });
        }
    });
    c.class("Fq2/pow_vartime", |cx| {
        for _ in 0..cx.n(150, 4_000) {
            let x = gen_tower(&mut cx.rng, 2);
            let e = match below(&mut cx.rng, 3) { 0 => BigUint::from(below(&mut cx.rng, 6)), _ => pat_big(&mut cx.rng, 4, &q_mod(), &pow2(256)) };
            cx.case((&x, &e), !e.is_zero(), || agree(Fq2::from_coeffs(&x).pow_vartime(&limbs::<4>(&e)), &ppow(&to_w(&x), &e), &format!("pow {x:x?}^{e:#x}")));
        }
    });
    c.class("Fq2/lexicographically-largest", |cx| {
        let q = q_mod();
        for _ in 0..cx.n(8_000, 200_000) {
            if cx.full() { break }
            let x = gen_tower(&mut cx.rng, 2);
            let half = (&q - 1u32) / 2u32;
            let want = x[1] > half || (x[1].is_zero() && x[0] > half);
            cx.case(&x, x.iter().any(|v| !v.is_zero()), || {
                eqv!(Fq2::from_coeffs(&x).lexicographically_largest(), want, "lexicographically_largest({x:x?})");
                Ok(())
            });
        }
    });
    c.run()
}
