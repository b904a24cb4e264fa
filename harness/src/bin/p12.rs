//! P12: the subgroup check accepts exactly the points of the order-r group.
use bn_254::*;
use kmon::prelude::*;
use kmon::{ensure, eqv};
use zkstd::common::*;

fn main() {
    let mut c = Check::new("P12", "distinct points different from the identity; members and non-members are counted separately");
    c.assume("membership is decided by an independent multiplication by r; the twist has order r(2q-r)");
    c.sharded("G2/membership", 4, |cx| {
        let o = G2::oracle();
        let primes: Vec<BigUint> = ["10069", "5864401", "1875725156269", "197620364512881247228717050342013327560683201906968909"].iter().map(|s| BigUint::parse_bytes(s.as_bytes(), 10).unwrap()).collect();
        cx.case("cofactor", true, || {
            eqv!(primes.iter().product::<BigUint>(), g2_cofactor(), "harness: cofactor factorisation");
            Ok(())
        });
        // cofactor torsion: points of each prime order dividing it
        let n = r_mod() * g2_cofactor();
        let mut torsion: Vec<(Po<G2>, usize)> = vec![];
        for (i, l) in primes.iter().enumerate() {
            for _ in 0..2 {
                let t = o.mul(&o.rand(&mut cx.rng), &(&n / l));
                if t.is_some() { torsion.push((t, i)) }
            }
        }
        for _ in 0..cx.n(120, 8_000) {
            if cx.full() { break }
            let s = gen_val(&mut cx.rng, &r_mod());
            let member = o.mul(&G2::generator(), &s);
            let (p, kind) = match below(&mut cx.rng, 9) {
                0 | 1 => (o.rand(&mut cx.rng), "random curve point"),
                2 => (o.mul(&o.rand(&mut cx.rng), &g2_cofactor()), "cofactor-cleared point"),
                3 => (pick(&mut cx.rng, &torsion).0.clone(), "small-order cofactor point"),
                4 => (o.add(&member, &pick(&mut cx.rng, &torsion).0.clone()), "member plus cofactor torsion"),
                5 => (o.mul(&o.rand(&mut cx.rng), &r_mod()), "r times a random point"),
                _ => (member, "multiple of the generator"),
            };
            let want = o.mul(&p, &r_mod()).is_none();
            cx.count(kind, 1);
            cx.count(if want { "members" } else { "non-members" }, 1);
            cx.sample(|| format!("{kind}: {p:x?} member={want}"));
            cx.case(format!("{p:?}"), p.is_some(), || {
                eqv!(G2::aff(&p).is_torsion_free(), want, "{kind} {p:x?} is_torsion_free");
                // the same point after arithmetic in the code
                let q = G2Affine::from(G2::proj(&p, &o.f.int(7)));
                eqv!(q.is_torsion_free(), want, "{kind} {p:x?} is_torsion_free after normalisation");
                eqv!((-q).is_torsion_free(), want, "{kind} -{p:x?} is_torsion_free");
                Ok(())
            });
        }
    });
    c.class("G2/off-curve", |cx| {
        let o = G2::oracle();
        for _ in 0..cx.n(150, 5_000) {
            if cx.full() { break }
            let (mut x, mut y) = o.mul(&G2::generator(), &gen_val(&mut cx.rng, &r_mod())).unwrap_or_else(|| G2::generator().unwrap());
            match below(&mut cx.rng, 4) {
                0 => y = o.f.add(&y, &o.f.int(1)),
                1 => x = o.f.neg(&x),
                2 => std::mem::swap(&mut x, &mut y),
                _ => { x = o.f.gen(&mut cx.rng); y = o.f.gen(&mut cx.rng) }
            }
            if o.on_curve(&x, &y) { continue }
            let p = Some((x, y));
            cx.case(format!("{p:?}"), true, || {
                ensure!(!G2::aff(&p).is_torsion_free(), "off-curve {p:x?} accepted as a G2 member");
                Ok(())
            });
        }
    });
    c.class("G1/membership", |cx| {
        let o = G1::oracle();
        for i in 0..cx.n(600, 20_000) {
            if cx.full() { break }
            let p = if i % 2 == 0 { o.rand(&mut cx.rng) } else { Some((gen_val(&mut cx.rng, &q_mod()), gen_val(&mut cx.rng, &q_mod()))) };
            let want = p.as_ref().map_or(true, |(x, y)| o.on_curve(x, y));
            cx.count(if want { "members" } else { "non-members" }, 1);
            cx.case(format!("{p:?}"), true, || {
                eqv!(G1::aff(&p).is_torsion_free(), want, "G1 {p:x?} is_torsion_free");
                Ok(())
            });
        }
    });
    c.class("random-and-identity", |cx| {
        for _ in 0..cx.n(15, 300) {
            let (a, b) = (G1Affine::random(&mut cx.rng), G2Affine::random(&mut cx.rng));
            let (pa, pb) = (G1::obs_a(a), G2::obs_a(b));
            cx.case(format!("{pa:?}{pb:?}"), true, || {
                ensure!(a.is_torsion_free() && b.is_torsion_free(), "random member refused");
                ensure!(G2::oracle().mul(&pb, &r_mod()).is_none(), "random G2 point outside the subgroup");
                ensure!(G1::oracle().mul(&pa, &r_mod()).is_none(), "random G1 point outside the group");
                Ok(())
            });
        }
        cx.case("identity", true, || {
            ensure!(G1Affine::ADDITIVE_IDENTITY.is_torsion_free() && G2Affine::ADDITIVE_IDENTITY.is_torsion_free(), "identity refused");
            ensure!(G1Affine::ADDITIVE_GENERATOR.is_torsion_free() && G2Affine::ADDITIVE_GENERATOR.is_torsion_free(), "generator refused");
            Ok(())
        });
    });
    c.run()
}
