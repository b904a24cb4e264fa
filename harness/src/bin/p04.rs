//! P04: the `ff` trait implementations obey the contract of the `ff` crate and agree with the native field.
use bn_254::{Fq, Fr};
use ff::derive::subtle::{Choice, ConditionallySelectable, ConstantTimeEq};
use ff::{Field as FF, PrimeField as FPF, PrimeFieldBits};
use kmon::prelude::*;
use kmon::{ensure, eqv};

fn agree<F: KField>(got: F, want: &BigUint, what: &str) -> R {
    ensure!(canonical(&got), "{what}: {} result not reduced: {:x?}", F::NAME, got.raw());
    ensure!(&got.big() == want, "{what} in {}: got {:#x} want {:#x}", F::NAME, got.big(), want);
    Ok(())
}
fn opt<T>(c: ff::derive::subtle::CtOption<T>) -> Option<T> { c.into() }

macro_rules! classes {
    ($c:ident, $F:ident) => {{
        let n = stringify!($F);
        $c.class(&format!("{n}/ff-arithmetic"), |cx| {
            let f = Fp::new(<$F as KField>::modulus());
            for _ in 0..cx.n(30_000, 400_000) {
                if cx.full() { break }
                let (x, y) = (gen_val(&mut cx.rng, &f.p), gen_val(&mut cx.rng, &f.p));
                let (a, b) = ($F::of(&x), $F::of(&y));
                cx.sample(|| format!("a={x:#x} b={y:#x}"));
                cx.case((&x, &y), !x.is_zero(), || {
                    agree(FF::square(&a), &f.mul(&x, &x), "ff square")?;
                    agree(FF::cube(&a), &f.mul(&f.mul(&x, &x), &x), "ff cube")?;
                    agree(FF::double(&a), &f.add(&x, &x), "ff double")?;
                    ensure!(bool::from(FF::is_zero(&a)) == x.is_zero() && FF::is_zero_vartime(&a) == x.is_zero(), "ff is_zero({x:#x})");
                    ensure!(bool::from(a.ct_eq(&b)) == (x == y), "ct_eq({x:#x},{y:#x})");
                    ensure!(bool::from(a.ct_eq(&a)), "ct_eq not reflexive on {x:#x}");
                    // near-equal operands: exactly one raw limb differs
                    for i in 0..4 {
                        let mut l = a.raw();
                        l[i] ^= 1;
                        ensure!(!bool::from(a.ct_eq(&$F::from_raw(l))), "ct_eq ignores limb {i} of {x:#x}");
                    }
                    agree($F::conditional_select(&a, &b, Choice::from(0)), &x, "conditional_select 0")?;
                    agree($F::conditional_select(&a, &b, Choice::from(1)), &y, "conditional_select 1")?;
                    Ok(())
                });
            }
        });
        $c.class(&format!("{n}/ff-pow"), |cx| {
            let f = Fp::new(<$F as KField>::modulus());
            for _ in 0..cx.n(1500, 30_000) {
                if cx.full() { break }
                let (x, e) = (gen_val(&mut cx.rng, &f.p), gen_val(&mut cx.rng, &f.p));
                let a = $F::of(&x);
                cx.case((&x, &e), x > BigUint::one() && e > BigUint::one(), || {
                    let l = limbs::<4>(&e);
                    agree(FF::pow(&a, l), &f.pow(&x, &e), "ff pow")?;
                    agree(FF::pow_vartime(&a, l), &f.pow(&x, &e), "ff pow_vartime")
                });
            }
        });
        $c.class(&format!("{n}/ff-invert"), |cx| {
            let f = Fp::new(<$F as KField>::modulus());
            for i in 0..cx.n(6_000, 100_000) {
                if cx.full() { break }
                let x = if i == 0 { BigUint::zero() } else { gen_val(&mut cx.rng, &f.p) };
                let a = $F::of(&x);
                cx.case(&x, !x.is_zero(), || match (f.inv(&x), opt(FF::invert(&a))) {
                    (None, None) => Ok(()),
                    (Some(i), Some(g)) => agree(g, &i, &format!("ff invert({x:#x})")),
                    (w, g) => Err(format!("ff invert({x:#x}): got {g:?} want {w:x?}").into()),
                });
            }
        });
        $c.class(&format!("{n}/ff-sqrt"), |cx| {
            let f = Fp::new(<$F as KField>::modulus());
            for i in 0..cx.n(800, 20_000) {
                if cx.full() { break }
                let x = match i % 3 { 0 => gen_val(&mut cx.rng, &f.p), 1 => { let y = gen_val(&mut cx.rng, &f.p); f.mul(&y, &y) } _ => BigUint::from(i / 3) };
                let y = if i % 7 == 0 { BigUint::zero() } else { gen_val(&mut cx.rng, &f.p) };
                let (a, b) = ($F::of(&x), $F::of(&y));
                let l = legendre(&x, &f.p);
                cx.case((&x, &y), !x.is_zero(), || {
                    match opt(FF::sqrt(&a)) {
                        Some(s) => ensure!(l != -1 && f.mul(&s.big(), &s.big()) == x, "ff sqrt({x:#x}) = {s:?}"),
                        None => ensure!(l == -1, "ff sqrt({x:#x}) = None for a square"),
                    }
                    let (c, s) = <$F as FF>::sqrt_ratio(&a, &b);
                    let c = bool::from(c);
                    let s2 = f.mul(&s.big(), &s.big());
                    let g = <$F as FPF>::ROOT_OF_UNITY.big();
                    match f.inv(&y) {
                        _ if x.is_zero() => ensure!(c && s2.is_zero(), "sqrt_ratio(0,{y:#x})"),
                        None => ensure!(!c && s2.is_zero(), "sqrt_ratio({x:#x},0)"),
                        Some(yi) => {
                            let q = f.mul(&x, &yi);
                            if legendre(&q, &f.p) == 1 { ensure!(c && s2 == q, "sqrt_ratio({x:#x},{y:#x}) on a square") }
                            else { ensure!(!c && s2 == f.mul(&q, &g), "sqrt_ratio({x:#x},{y:#x}) on a non-square") }
                        }
                    }
                    let (c, s) = FF::sqrt_alt(&a);
                    ensure!(bool::from(c) == (l != -1), "sqrt_alt flag of {x:#x}");
                    if l != -1 { ensure!(f.mul(&s.big(), &s.big()) == x, "sqrt_alt value of {x:#x}") }
                    Ok(())
                });
            }
        });
        $c.class(&format!("{n}/ff-repr"), |cx| {
            let f = Fp::new(<$F as KField>::modulus());
            for _ in 0..cx.n(30_000, 400_000) {
                if cx.full() { break }
                let v = match below(&mut cx.rng, 5) { 0 => &f.p + BigUint::from(below(&mut cx.rng, 5)), 1 => rand_big(&mut cx.rng, 256), 2 => pat_big(&mut cx.rng, 4, &f.p, &pow2(256)), _ => gen_val(&mut cx.rng, &f.p) };
                cx.case(&v, !v.is_zero(), || {
                    let rep = le32(&v);
                    match opt(<$F as FPF>::from_repr(rep)) {
                        Some(x) => { ensure!(v < f.p, "from_repr accepted the non-canonical {v:#x}"); agree(x, &v, "from_repr")?; ensure!(x.to_repr() == rep, "to_repr(from_repr({v:#x}))") }
                        None => ensure!(v >= f.p, "from_repr refused the canonical {v:#x}"),
                    }
                    ensure!(<$F as FPF>::from_repr_vartime(rep).is_some() == (v < f.p), "from_repr_vartime({v:#x})");
                    if v < f.p {
                        let x = $F::of(&v);
                        ensure!(x.to_repr() == rep, "to_repr({v:#x})");
                        ensure!(bool::from(FPF::is_odd(&x)) == v.bit(0) && bool::from(FPF::is_even(&x)) != v.bit(0), "ff parity of {v:#x}");
                        let bits = x.to_le_bits();
                        for i in 0..256 { ensure!(bits[i] == v.bit(i as u64), "to_le_bits({v:#x})[{i}]") }
                        ensure!(<$F as FPF>::from_str_vartime(&v.to_string()) == Some(x), "from_str_vartime({v})");
                    }
                    let u = (v.iter_u64_digits().next().unwrap_or(0) as u128) << 64 | v.iter_u64_digits().nth(1).unwrap_or(0) as u128;
                    agree(<$F as FPF>::from_u128(u), &(BigUint::from(u) % &f.p), "from_u128")
                });
            }
        });
        $c.class(&format!("{n}/ff-constants"), |cx| {
            let f = Fp::new(<$F as KField>::modulus());
            let s = (&f.p - 1u32).trailing_zeros().unwrap();
            let t = (&f.p - 1u32) >> s;
            macro_rules! k { ($name:expr, $b:block) => { cx.case($name, true, || { $b; Ok(()) }) } }
            k!("ZERO/ONE", { agree(<$F as FF>::ZERO, &BigUint::zero(), "ff ZERO")?; agree(<$F as FF>::ONE, &BigUint::one(), "ff ONE")? });
            k!("MODULUS", { ensure!(hex(<$F as FPF>::MODULUS) == f.p, "ff MODULUS string") });
            k!("NUM_BITS", { eqv!(<$F as FPF>::NUM_BITS as u64, f.p.bits(), "NUM_BITS"); eqv!(<$F as FPF>::CAPACITY as u64, f.p.bits() - 1, "CAPACITY") });
            k!("S", { eqv!(<$F as FPF>::S as u64, s, "ff S") });
            k!("TWO_INV", { ensure!((<$F as FPF>::TWO_INV.big() * 2u32 % &f.p).is_one(), "TWO_INV") });
            k!("GENERATOR", { let g = <$F as FPF>::MULTIPLICATIVE_GENERATOR; ensure!(canonical(&g) && legendre(&g.big(), &f.p) == -1, "MULTIPLICATIVE_GENERATOR {g:?} is not a quadratic non-residue");
                // ROOT_OF_UNITY = GENERATOR^t and DELTA = GENERATOR^(2^S) for the same generator
                let g = g.big();
                ensure!(f.pow(&g, &t) == <$F as FPF>::ROOT_OF_UNITY.big(), "ROOT_OF_UNITY != MULTIPLICATIVE_GENERATOR^t");
                ensure!(f.pow(&g, &pow2(s)) == <$F as FPF>::DELTA.big(), "DELTA != MULTIPLICATIVE_GENERATOR^(2^S)") });
            k!("ROOT", { let w = <$F as FPF>::ROOT_OF_UNITY.big(); ensure!(f.pow(&w, &pow2(s)).is_one() && !f.pow(&w, &pow2(s - 1)).is_one(), "ROOT_OF_UNITY order") ;
                ensure!(f.mul(&w, &<$F as FPF>::ROOT_OF_UNITY_INV.big()).is_one(), "ROOT_OF_UNITY_INV") });
            k!("DELTA", { ensure!(f.pow(&<$F as FPF>::DELTA.big(), &t).is_one(), "DELTA order") });
            k!("char bits", { let b = <$F as PrimeFieldBits>::char_le_bits(); for i in 0..256 { ensure!(b[i] == f.p.bit(i as u64), "char_le_bits[{i}]") } });
            let seed = cx.rng.next_u64();
            cx.case("random", true, || {
                let mut r = ChaCha20Rng::seed_from_u64(seed);
                let v: std::collections::HashSet<_> = (0..200).map(|_| <$F as FF>::random(&mut r)).map(|x| { assert!(canonical(&x)); x.raw() }).collect();
                ensure!(v.len() == 200, "ff random repeats");
                Ok(())
            });
        });
    }};
}
fn main() {
    let mut c = Check::new(
        "P04",
        "each case is an element (or string, or constant) pushed through the ff / subtle trait methods and judged by the contract documented in ff 0.13 evaluated on big integers; non-trivial: the element is not zero",
    );
    classes!(c, Fr);
    classes!(c, Fq);
    c.run()
}
