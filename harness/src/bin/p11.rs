//! P11: the pairing is bilinear and non-degenerate, sends the identity to the identity, agrees with
//! the textbook optimal ate pairing, and products of pairings in one Miller loop agree with their sum;
//! the target group obeys the group laws.
use bn_254::*;
use kmon::prelude::*;
use kmon::{ensure, eqv};
use zkstd::common::*;

fn w(g: Gt) -> Poly {
    to_w(&g.0.coeffs())
}
fn pick_scalar(rng: &mut ChaCha20Rng) -> BigUint {
    match below(rng, 6) {
        0 => BigUint::zero(),
        1 => BigUint::one(),
        2 => r_mod() - 1u32 - BigUint::from(below(rng, 3)),
        3 => BigUint::from(below(rng, 100)),
        _ => gen_val(rng, &r_mod()),
    }
}
fn gt_pow(g: Gt, k: &BigUint) -> Gt {
    let mut r = Gt::ADDITIVE_IDENTITY;
    for i in (0..k.bits()).rev() {
        r = r + r;
        if k.bit(i) { r = r + g }
    }
    r
}
fn pair(p: G1Affine, q: G2Affine) -> Gt {
    AteParing::pairing(p, q)
}
fn main() {
    let mut c = Check::new("P11", "pairs of points both different from the identity, distinct");
    c.assume("G2 inputs lie in the order-r subgroup, as the pairing requires; point arithmetic is judged by P07/P08");
    c.assume("the reference is f^((q^12-1)/r) of the textbook optimal ate Miller function with the tower of the crate");
    c.sharded("textbook-value", 4, |cx| {
        let ate = Ate::new();
        let (o1, o2) = (G1::oracle(), G2::oracle());
        for i in 0..cx.n(30, 800) {
            if cx.full() { break }
            let (a, b) = (pick_scalar(&mut cx.rng), pick_scalar(&mut cx.rng));
            let (mut p, q) = (o1.mul(&G1::generator(), &a), o2.mul(&G2::generator(), &b));
            if i % 3 == 1 { p = o1.rand(&mut cx.rng) }
            let want = ate.pairing(&p, &q);
            cx.sample(|| format!("P={p:x?} Q={q:x?}"));
            cx.case(format!("{p:?}{q:?}"), p.is_some() && q.is_some(), || {
                let g = pair(G1::aff(&p), G2::aff(&q));
                ensure!(w(g) == want, "e(P,Q) differs from the textbook optimal ate pairing for P={p:x?} Q={q:x?}");
                // as a Miller loop result, before the final exponentiation
                let m = AteParing::multi_miller_loop(&[(G1::aff(&p), G2PairingAffine::from(G2::aff(&q)))]);
                ensure!(ppow(&to_w(&m.coeffs()), &ate.exp) == want, "Miller value of P={p:x?} Q={q:x?}");
                Ok(())
            });
        }
    });
    c.sharded("final-exponentiation", 2, |cx| {
        let ate = Ate::new();
        for _ in 0..cx.n(20, 600) {
            if cx.full() { break }
            let v = gen_tower(&mut cx.rng, 12);
            if v.iter().all(|x| x.is_zero()) { continue }
            cx.case(format!("{v:?}"), v[1..].iter().any(|x| !x.is_zero()), || {
                let got = w(Fq12::from_coeffs(&v).final_exp());
                ensure!(got == ppow(&to_w(&v), &ate.exp), "final_exp({v:x?}) is not the (q^12-1)/r power");
                Ok(())
            });
        }
    });
    c.sharded("bilinear", 4, |cx| {
        let (o1, o2) = (G1::oracle(), G2::oracle());
        let base = pair(G1Affine::ADDITIVE_GENERATOR, G2Affine::ADDITIVE_GENERATOR);
        cx.case("generator", true, || {
            ensure!(base == Gt::ADDITIVE_GENERATOR, "e(G1,G2) is the generator of the target group");
            ensure!(base != Gt::ADDITIVE_IDENTITY, "e(G1,G2) = 1");
            ensure!(gt_pow(base, &r_mod()) == Gt::ADDITIVE_IDENTITY, "order of the generator");
            Ok(())
        });
        let table = |a: &BigUint| o1.mul(&G1::generator(), a);
        for _ in 0..cx.n(250, 6_000) {
            if cx.full() { break }
            let (a, b, a2, b2) = (pick_scalar(&mut cx.rng), pick_scalar(&mut cx.rng), pick_scalar(&mut cx.rng), pick_scalar(&mut cx.rng));
            let (p, q) = (table(&a), o2.mul(&G2::generator(), &b));
            let (p2, q2) = (table(&a2), o2.mul(&G2::generator(), &b2));
            let r = r_mod();
            cx.sample(|| format!("a={a:x} b={b:x} a'={a2:x} b'={b2:x}"));
            cx.case(format!("{a}|{b}|{a2}|{b2}"), p.is_some() && q.is_some(), || {
                let s = |t: &str| format!("{t}: P={a:x}G1 Q={b:x}G2 P'={a2:x}G1 Q'={b2:x}G2");
                let e = pair(G1::aff(&p), G2::aff(&q));
                ensure!(e == gt_pow(base, &((&a * &b) % &r)), "{}", s("e(aG1,bG2) = e(G1,G2)^ab"));
                eqv!(e == Gt::ADDITIVE_IDENTITY, p.is_none() || q.is_none(), "{}", s("e(P,Q) is the identity iff P or Q is"));
                let e1 = pair(G1::aff(&p2), G2::aff(&q));
                let e2 = pair(G1::aff(&p), G2::aff(&q2));
                ensure!(pair(G1::aff(&o1.add(&p, &p2)), G2::aff(&q)) == e + e1, "{}", s("e(P+P',Q) = e(P,Q)e(P',Q)"));
                ensure!(pair(G1::aff(&p), G2::aff(&o2.add(&q, &q2))) == e + e2, "{}", s("e(P,Q+Q') = e(P,Q)e(P,Q')"));
                let ne = pair(-G1::aff(&p), G2::aff(&q));
                ensure!(ne == -e && pair(G1::aff(&p), -G2::aff(&q)) == ne, "{}", s("negation"));
                ensure!(ne + e == Gt::ADDITIVE_IDENTITY, "{}", s("e(-P,Q)e(P,Q) = 1"));
                // through the code's own scalar multiplication
                let via = pair(G1Affine::from(G1Affine::ADDITIVE_GENERATOR * Fr::of(&a)), G2Affine::from(G2Affine::ADDITIVE_GENERATOR * Fr::of(&b)));
                ensure!(via == e, "{}", s("scalar multiples"));
                Ok(())
            });
        }
    });
    c.sharded("multi-miller", 4, |cx| {
        let (o1, o2) = (G1::oracle(), G2::oracle());
        let mut ps: Vec<(Po<G1>, BigUint)> = vec![(None, BigUint::zero())];
        let mut qs: Vec<(Po<G2>, BigUint)> = vec![(None, BigUint::zero())];
        for _ in 0..8 {
            let (a, b) = (gen_val(&mut cx.rng, &r_mod()), gen_val(&mut cx.rng, &r_mod()));
            ps.push((o1.mul(&G1::generator(), &a), a));
            qs.push((o2.mul(&G2::generator(), &b), b));
        }
        let base = Gt::ADDITIVE_GENERATOR;
        for i in 0..cx.n(250, 6_000) {
            if cx.full() { break }
            let k = if i < 8 { i as usize } else { below(&mut cx.rng, 9) as usize };
            let mut v: Vec<_> = (0..k).map(|_| (pick(&mut cx.rng, &ps).clone(), pick(&mut cx.rng, &qs).clone())).collect();
            if i % 5 == 4 && k >= 2 {
                // a product equal to one: e(P,Q) e(-P,Q)
                let t = v[0].clone();
                v[1] = ((o1.neg(&t.0 .0), (r_mod() - &t.0 .1) % r_mod()), t.1.clone());
            }
            let want = v.iter().fold(BigUint::zero(), |s, (a, b)| (s + &a.1 * &b.1) % r_mod());
            let pairs: Vec<_> = v.iter().map(|(a, b)| (G1::aff(&a.0), G2PairingAffine::from(G2::aff(&b.0)))).collect();
            cx.count("pairs", k as u64);
            cx.case(format!("{:?}", v.iter().map(|(a, b)| (a.1.clone(), b.1.clone())).collect::<Vec<_>>()), k > 1, || {
                let got = AteParing::multi_miller_loop(&pairs).final_exp();
                let d = || v.iter().map(|(a, b)| format!("({:x},{:x})", a.1, b.1)).collect::<Vec<_>>().join(" ");
                ensure!(got == gt_pow(base, &want), "product of pairings of [{}]", d());
                let sum = v.iter().fold(Gt::zero(), |s, (a, b)| s + pair(G1::aff(&a.0), G2::aff(&b.0)));
                ensure!(got == sum, "multi Miller loop differs from the separate pairings of [{}]", d());
                for ((a, b), (_, q)) in v.iter().zip(&pairs) {
                    eqv!(q.is_identity(), b.0.is_none(), "prepared identity");
                    let _ = a;
                }
                Ok(())
            });
        }
    });
    c.class("target-group", |cx| {
        let base = Gt::ADDITIVE_GENERATOR;
        for _ in 0..cx.n(120, 4_000) {
            if cx.full() { break }
            let (a, b) = (pick_scalar(&mut cx.rng), pick_scalar(&mut cx.rng));
            let r = r_mod();
            cx.case(format!("{a}|{b}"), !a.is_zero() && !b.is_zero(), || {
                let (x, y) = (gt_pow(base, &a), gt_pow(base, &b));
                let s = |t: &str| format!("{t} for exponents {a:x} {b:x}");
                let (wx, wy) = (w(x), w(y));
                let p = pmul(&wx, &wy);
                let inv_y = gt_pow(base, &((&r - &b) % &r));
                let q = pmul(&wx, &w(inv_y));
                for (t, v) in [("a+b", x + y), ("&a+&b", &x + &y), ("a+&b", x + &y), ("&a+b", &x + y), ("a*b", x * y)] { ensure!(w(v) == p, "{}", s(t)) }
                for (t, v) in [("a-b", x - y), ("&a-&b", &x - &y), ("a-&b", x - &y), ("&a-b", &x - y)] { ensure!(w(v) == q, "{}", s(t)) }
                let mut t = x; t += y; ensure!(w(t) == p, "{}", s("a+=b"));
                let mut t = x; t += &y; ensure!(w(t) == p, "{}", s("a+=&b"));
                let mut t = x; t -= y; ensure!(w(t) == q, "{}", s("a-=b"));
                let mut t = x; t -= &y; ensure!(w(t) == q, "{}", s("a-=&b"));
                let mut t = x; t *= y; ensure!(w(t) == p, "{}", s("a*=b"));
                ensure!(-y == inv_y && -&y == inv_y, "{}", s("-b"));
                ensure!(y.invert() == Some(inv_y), "{}", s("invert"));
                ensure!(w(x.double()) == pmul(&wx, &wx), "{}", s("double"));
                ensure!(x + Gt::zero() == x && Gt::zero() + x == x, "{}", s("zero"));
                eqv!(x == y, a == b, "{}", s("=="));
                ensure!(w(gt_pow(x, &r)) == pone(), "{}", s("order"));
                Ok(())
            });
        }
        for _ in 0..cx.n(3, 40) {
            let g = Gt::random(&mut cx.rng);
            cx.case(format!("{g:?}"), true, || {
                ensure!(ppow(&w(g), &r_mod()) == pone(), "random target group element outside the group");
                Ok(())
            });
        }
    });
    c.run()
}
