//! P10: twisted Edwards curves (a = -1) built from the public macros follow the complete addition law,
//! for every operand kind, representative and special point, and keep the extended-coordinate invariant.
use kmon::jub::*;
use kmon::prelude::*;
use kmon::{ensure, eqv};
use zkstd::arithmetic::edwards as ed;
use zkstd::common::*;

type S = BlsScalar;
type A = JubjubAffine;
type E = JubjubExtended;
type Q = (BigUint, BigUint);

fn curve() -> TwEd {
    let f = Fp::new(bls_r());
    // d = -(10240/10241)
    let d = f.neg(&f.mul(&BigUint::from(10240u32), &f.inv(&BigUint::from(10241u32)).unwrap()));
    TwEd { f, d }
}
fn aff(p: &Q) -> A {
    A::from_raw_unchecked(S::of(&p.0), S::of(&p.1))
}
fn ext(p: &Q, z: &BigUint) -> E {
    let f = Fp::new(bls_r());
    E::new(S::of(&f.mul(&p.0, z)), S::of(&f.mul(&p.1, z)), S::of(&f.mul(&f.mul(&p.0, &p.1), z)), S::of(z))
}
fn id() -> Q {
    (BigUint::zero(), BigUint::one())
}
fn neg(p: &Q) -> Q {
    (Fp::new(bls_r()).neg(&p.0), p.1.clone())
}
fn okp(g: E, want: &Q, w: &str) -> R {
    let f = Fp::new(bls_r());
    let (x, y, t, z) = (g.get_x().big(), g.get_y().big(), g.get_t().big(), g.get_z().big());
    let zi = match f.inv(&z) { Some(i) => i, None => return fail("", format!("{w}: z = 0")) };
    let got = (f.mul(&x, &zi), f.mul(&y, &zi));
    ensure!(&got == want, "{w}: got {got:x?} want {want:x?}");
    ensure!(f.mul(&x, &y) == f.mul(&t, &z), "{w}: right point but x*y != t*z");
    ensure!(g == ext(want, &BigUint::from(3u32)), "{w}: right point but not ==");
    eqv!(g.is_identity(), want == &id(), "{w}: is_identity");
    ensure!(g.is_on_curve(), "{w}: result not on curve");
    Ok(())
}
fn oka(g: A, want: &Q, w: &str) -> R {
    let got = (g.get_x().big(), g.get_y().big());
    ensure!(&got == want, "{w}: got {got:x?} want {want:x?}");
    ensure!(g == aff(want), "{w}: not ==");
    eqv!(g.is_identity(), want == &id(), "{w}: is_identity");
    Ok(())
}
fn gen_z(rng: &mut ChaCha20Rng) -> BigUint {
    if below(rng, 3) == 0 { return BigUint::one() }
    loop {
        let z = gen_val(rng, &bls_r());
        if !z.is_zero() { return z }
    }
}
fn gen() -> Q {
    let f = Fp::new(bls_r());
    // y = 18, the even... x of the published generator
    let c = curve();
    let y = BigUint::from(18u32);
    let yy = f.mul(&y, &y);
    let x2 = f.mul(&f.sub(&yy, &BigUint::one()), &f.inv(&f.add(&BigUint::one(), &f.mul(&c.d, &yy))).unwrap());
    let x = sqrt_mod(&x2, &bls_r()).unwrap();
    let want = hex("0x3fd2814c43ac65a6f1fbf02d0fd6cce62e3ebb21fd6c54ed4df7b7ffec7beaca");
    (if x == want { x } else { f.neg(&x) }, y)
}
fn pool(rng: &mut ChaCha20Rng, n: usize) -> Vec<Q> {
    let c = curve();
    let f = c.f.clone();
    let i = sqrt_mod(&(bls_r() - 1u32), &bls_r()).unwrap();
    let mut v = vec![id(), gen(), neg(&gen()), (BigUint::zero(), bls_r() - 1u32), (i.clone(), BigUint::zero()), (f.neg(&i), BigUint::zero())];
    // the torsion part of a random point, and a mixed one
    let t = c.mul(&c.rand(rng), &jub_r());
    v.push(c.add(&t, &gen()));
    v.push(t);
    while v.len() < n {
        let p = c.rand(rng);
        match below(rng, 4) {
            0 => v.push(neg(&p)),
            1 => v.push(c.add(&p, &p)),
            2 => v.push(c.add(&p, &v[3].clone())),
            _ => {}
        }
        v.push(p);
    }
    v
}
fn main() {
    let mut c = Check::new("P10", "both operands different from the identity, distinct (points, representatives)");
    c.assume("Jubjub, instantiated from the public macros as in zkstd/tests/jubjub.rs, stands for twisted Edwards users");
    c.sharded("group-law", 4, |cx| {
        let o = curve();
        let mut ps = pool(&mut cx.rng, 30);
        for round in 0..cx.n(1_200, 30_000) {
            if cx.full() { break }
            if round % 400 == 399 { ps = pool(&mut cx.rng, 30) }
            let p = pick(&mut cx.rng, &ps).clone();
            let q = match below(&mut cx.rng, 6) { 0 => p.clone(), 1 => neg(&p), 2 => id(), _ => pick(&mut cx.rng, &ps).clone() };
            let (s, d, d2, p2) = (o.add(&p, &q), o.add(&p, &neg(&q)), o.add(&q, &neg(&p)), o.add(&p, &p));
            let (z1, z2) = (gen_z(&mut cx.rng), gen_z(&mut cx.rng));
            let (a, b, x, y) = (aff(&p), aff(&q), ext(&p, &z1), ext(&q, &z2));
            cx.sample(|| format!("P={p:x?} Q={q:x?} z1={z1:x} z2={z2:x}"));
            cx.case(format!("{p:?}{q:?}{z1}{z2}"), p != id() && q != id(), || {
                let w = |t: &str| format!("{t} on P={p:x?} Q={q:x?} z1={z1:x} z2={z2:x}");
                okp(a + b, &s, &w("A+A"))?; okp(x + y, &s, &w("E+E"))?; okp(a + y, &s, &w("A+E"))?; okp(x + b, &s, &w("E+A"))?;
                okp(a - b, &d, &w("A-A"))?; okp(x - y, &d, &w("E-E"))?; okp(a - y, &d, &w("A-E"))?; okp(x - b, &d, &w("E-A"))?;
                okp(y - x, &d2, &w("Q-P"))?;
                okp(&a + &b, &s, &w("&A+&A"))?; okp(a + &b, &s, &w("A+&A"))?; okp(&a + b, &s, &w("&A+A"))?;
                okp(&a - &b, &d, &w("&A-&A"))?; okp(a - &b, &d, &w("A-&A"))?; okp(&a - b, &d, &w("&A-A"))?;
                okp(&x + &y, &s, &w("&E+&E"))?; okp(x + &y, &s, &w("E+&E"))?; okp(&x + y, &s, &w("&E+E"))?;
                okp(&x - &y, &d, &w("&E-&E"))?; okp(x - &y, &d, &w("E-&E"))?; okp(&x - y, &d, &w("&E-E"))?;
                okp(&x + &b, &s, &w("&E+&A"))?; okp(x + &b, &s, &w("E+&A"))?; okp(&x + b, &s, &w("&E+A"))?;
                okp(&x - &b, &d, &w("&E-&A"))?; okp(x - &b, &d, &w("E-&A"))?; okp(&x - b, &d, &w("&E-A"))?;
                okp(&a + &y, &s, &w("&A+&E"))?; okp(a + &y, &s, &w("A+&E"))?; okp(&a + y, &s, &w("&A+E"))?;
                okp(&a - &y, &d, &w("&A-&E"))?; okp(a - &y, &d, &w("A-&E"))?; okp(&a - y, &d, &w("&A-E"))?;
                let mut t = x; t += y; okp(t, &s, &w("E+=E"))?;
                let mut t = x; t += &y; okp(t, &s, &w("E+=&E"))?;
                let mut t = x; t -= y; okp(t, &d, &w("E-=E"))?;
                let mut t = x; t -= &y; okp(t, &d, &w("E-=&E"))?;
                okp(ed::add_affine_point(a, b), &s, &w("add_affine_point"))?;
                okp(ed::add_mixed_point(a, y), &s, &w("add_mixed_point"))?;
                okp(ed::add_projective_point(x, y), &s, &w("add_projective_point"))?;
                okp(ed::double_affine_point(a), &p2, &w("double_affine_point"))?;
                okp(ed::double_projective_point(x), &p2, &w("double_projective_point"))?;
                okp(TwistedEdwardsAffine::double(a), &p2, &w("A.double"))?;
                okp(TwistedEdwardsExtended::double(x), &p2, &w("E.double"))?;
                okp(-x, &neg(&p), &w("-E"))?;
                oka(-a, &neg(&p), &w("-A"))?;
                match Group::invert(x) { None => ensure!(p == id(), "{}", w("invert(E) None")), Some(i) => okp(i, &neg(&p), &w("invert(E)"))? }
                match Group::invert(a) { None => ensure!(p.0.is_zero(), "{}", w("invert(A) None")), Some(i) => oka(i, &neg(&p), &w("invert(A)"))? }
                oka(A::from(x + y), &s, &w("to_affine(E+E)"))?;
                Ok(())
            });
        }
    });
    c.sharded("scalar-mul", 4, |cx| {
        let o = curve();
        let mut ps = pool(&mut cx.rng, 24);
        for round in 0..cx.n(60, 1_500) {
            if cx.full() { break }
            if round % 50 == 49 { ps = pool(&mut cx.rng, 24) }
            let p = pick(&mut cx.rng, &ps).clone();
            let k = match below(&mut cx.rng, 6) { 0 => jub_r(), 1 => jub_r() - 1u32, 2 => BigUint::from(below(&mut cx.rng, 40)), _ => gen_val(&mut cx.rng, &bls_r()) };
            let want = o.mul(&p, &k);
            let z = gen_z(&mut cx.rng);
            let (a, x, s) = (aff(&p), ext(&p, &z), S::of(&k));
            cx.sample(|| format!("P={p:x?} k={k:x}"));
            cx.case(format!("{p:?}{k}{z}"), p != id() && k > BigUint::one(), || {
                let w = |t: &str| format!("{t} on P={p:x?} k={k:x} z={z:x}");
                okp(x * s, &want, &w("E*s"))?; okp(s * x, &want, &w("s*E"))?; okp(a * s, &want, &w("A*s"))?; okp(s * a, &want, &w("s*A"))?;
                okp(x * &s, &want, &w("E*&s"))?; okp(&x * s, &want, &w("&E*s"))?; okp(&x * &s, &want, &w("&E*&s"))?;
                okp(s * &x, &want, &w("s*&E"))?; okp(&s * x, &want, &w("&s*E"))?; okp(&s * &x, &want, &w("&s*&E"))?;
                okp(a * &s, &want, &w("A*&s"))?; okp(&a * s, &want, &w("&A*s"))?; okp(&a * &s, &want, &w("&A*&s"))?;
                okp(s * &a, &want, &w("s*&A"))?; okp(&s * a, &want, &w("&s*A"))?; okp(&s * &a, &want, &w("&s*&A"))?;
                let mut t = x; t *= s; okp(t, &want, &w("E*=s"))?;
                let mut t = x; t *= &s; okp(t, &want, &w("E*=&s"))?;
                okp(ed::scalar_point(x, &s), &want, &w("scalar_point"))
            });
        }
    });
    c.sharded("validity", 2, |cx| {
        let o = curve();
        let f = o.f.clone();
        for i in 0..cx.n(1_000, 30_000) {
            if cx.full() { break }
            let (mut x, mut y) = if i % 3 == 0 { (gen_val(&mut cx.rng, &bls_r()), gen_val(&mut cx.rng, &bls_r())) } else { o.rand(&mut cx.rng) };
            match below(&mut cx.rng, 10) {
                0 => x = f.neg(&x),
                1 => y = f.neg(&y),
                2 => std::mem::swap(&mut x, &mut y),
                3 => x = BigUint::zero(),
                4 => y = BigUint::zero(),
                5 => y = f.add(&y, &BigUint::one()),
                6 => x = f.add(&x, &BigUint::one()),
                7 => { if let Some(i) = f.inv(&x) { x = i } }
                _ => {}
            }
            let want = o.on_curve(&x, &y);
            cx.count(if want { "on curve" } else { "off curve" }, 1);
            let z = gen_z(&mut cx.rng);
            let p = (x.clone(), y.clone());
            cx.case(format!("{x}{y}{z}"), true, || {
                eqv!(aff(&p).is_on_curve(), want, "affine {p:x?} is_on_curve");
                eqv!(ext(&p, &z).is_on_curve(), want, "extended {p:x?} z={z:x} is_on_curve");
                let (bx, by) = (S::of(&x), S::of(&y));
                for a in [A::from_x_and_y(bx, by), A::from_raw_unchecked(bx, by)] {
                    ensure!(a.get_x() == bx && a.get_y() == by, "affine constructor");
                }
                let e = E::from_x_and_y(bx, by);
                ensure!(e.get_x() == bx && e.get_y() == by && e.get_z() == S::one() && e.get_t() == bx * by, "extended from_x_and_y");
                eqv!(aff(&p).is_identity(), p == id(), "affine is_identity {p:x?}");
                eqv!(ext(&p, &z).is_identity(), p == id(), "extended is_identity {p:x?} z={z:x}");
                Ok(())
            });
        }
        cx.case("constants", true, || {
            eqv!(<A as TwistedEdwardsCurve>::PARAM_D.big(), o.d.clone(), "PARAM_D");
            eqv!(<E as TwistedEdwardsCurve>::PARAM_D.big(), o.d.clone(), "PARAM_D of extended");
            okp(E::ADDITIVE_IDENTITY, &id(), "identity")?; oka(A::ADDITIVE_IDENTITY, &id(), "affine identity")?;
            okp(E::default(), &id(), "default")?; oka(A::default(), &id(), "affine default")?;
            okp(E::ADDITIVE_GENERATOR, &gen(), "generator")?; oka(A::ADDITIVE_GENERATOR, &gen(), "affine generator")?;
            let z0 = E::new(S::one(), S::one(), S::one(), S::zero());
            ensure!(!z0.is_on_curve(), "z = 0 is on the curve");
            Ok(())
        });
    });
    c.class("equality-conversion-codec", |cx| {
        let f = Fp::new(bls_r());
        for _ in 0..cx.n(60, 1_500) {
            if cx.full() { break }
            let ps = pool(&mut cx.rng, 12);
            for _ in 0..30 {
                let p = pick(&mut cx.rng, &ps).clone();
                let q = match below(&mut cx.rng, 5) { 0 => neg(&p), 1 => (p.0.clone(), f.neg(&p.1)), 2 => pick(&mut cx.rng, &ps).clone(), _ => p.clone() };
                let (z1, z2) = (gen_z(&mut cx.rng), gen_z(&mut cx.rng));
                cx.case(format!("{p:?}{q:?}{z1}{z2}"), p != id(), || {
                    let (a, b, x, y) = (aff(&p), aff(&q), ext(&p, &z1), ext(&q, &z2));
                    eqv!(a == b, p == q, "affine == of {p:x?} {q:x?}");
                    eqv!(x == y, p == q, "extended == of {p:x?} {q:x?} z1={z1:x} z2={z2:x}");
                    okp(a.to_extended(), &p, "to_extended")?; okp(E::from(a), &p, "E::from(A)")?;
                    oka(x.to_affine(), &p, "to_affine")?; oka(A::from(x), &p, "A::from(E)")?;
                    let ea = a.encode();
                    ensure!(matches!(A::decode(&mut &ea[..]), Ok(d) if d == a), "affine codec {p:x?}");
                    let ex = x.encode();
                    ensure!(matches!(E::decode(&mut &ex[..]), Ok(d) if d.get_x() == x.get_x() && d.get_y() == x.get_y() && d.get_z() == x.get_z() && d.get_t() == x.get_t()), "extended codec {p:x?}");
                    eqv!(a.to_raw_bytes(), SigUtils::to_bytes(a).to_vec(), "to_raw_bytes");
                    Ok(())
                });
            }
        }
    });
    c.class("random", |cx| {
        let o = curve();
        for _ in 0..cx.n(20, 300) {
            let a = A::random(&mut cx.rng);
            let e = E::random(&mut cx.rng);
            cx.case(format!("{:?}", a.get_x().big()), true, || {
                let p = (a.get_x().big(), a.get_y().big());
                ensure!(o.on_curve(&p.0, &p.1), "random affine off curve");
                eqv!(o.mul(&p, &jub_r()), id(), "random affine outside the prime-order subgroup");
                ensure!(e.is_on_curve(), "random extended off curve");
                Ok(())
            });
        }
    });
    c.run()
}
