//! P09: point validity, equality, conversions between representations, and byte encodings.
use kmon::prelude::*;
use kmon::{ensure, eqv};
use zkstd::common::*;

macro_rules! suite {
    ($c:ident, $K:ident) => {{
        type K = $K;
        type A = <K as KCurve>::A;
        type P = <K as KCurve>::P;
        type B = <K as KCurve>::B;
        let n = K::NAME;
        $c.class(&format!("{n}/on-curve"), |cx| {
            let o = K::oracle();
            let f = o.f.clone();
            let w = cube_root::<K>();
            for i in 0..cx.n(1_500, 40_000) {
                if cx.full() { break }
                let (mut x, mut y) = if i % 7 == 0 { (f.gen(&mut cx.rng), f.gen(&mut cx.rng)) } else { o.rand(&mut cx.rng).unwrap() };
                match below(&mut cx.rng, 12) {
                    0 => x = f.mul(&x, &w),
                    1 => y = f.neg(&y),
                    2 => y = f.add(&y, &f.int(1)),
                    3 => x = f.neg(&x),
                    4 => std::mem::swap(&mut x, &mut y),
                    5 => x = f.int(0),
                    6 => y = f.int(0),
                    7 => { let c = f.gen(&mut cx.rng); let c2 = f.mul(&c, &c); x = f.mul(&x, &c2); y = f.mul(&y, &f.mul(&c2, &c)) } // a twist: other b
                    8 => { let z = f.gen(&mut cx.rng); x = f.mul(&x, &z); y = f.mul(&y, &z) }
                    _ => {}
                }
                let want = o.on_curve(&x, &y);
                let z = K::gen_z(&mut cx.rng);
                let pt = Some((x.clone(), y.clone()));
                cx.sample(|| format!("{} x={x:x?} y={y:x?} on={want}", K::NAME));
                if want { cx.count("on curve", 1) } else { cx.count("off curve", 1) }
                cx.case(format!("{x:?}{y:?}{z:?}"), true, || {
                    eqv!(K::aff(&pt).is_on_curve(), want, "{} affine ({x:x?},{y:x?}) is_on_curve", K::NAME);
                    eqv!(K::proj(&pt, &z).is_on_curve(), want, "{} projective ({x:x?},{y:x?}) z={z:x?} is_on_curve", K::NAME);
                    let (bx, by) = (K::b(&x), K::b(&y));
                    for a in [A::from_x_and_y(bx, by), <A as BNAffine>::new_unchecked(bx, by)] {
                        ensure!(a.get_x() == bx && a.get_y() == by && !a.is_identity(), "{} affine constructor of ({x:x?},{y:x?})", K::NAME);
                        eqv!(a.is_on_curve(), want, "{} from_x_and_y is_on_curve", K::NAME);
                    }
                    let p = P::from_x_and_y(bx, by);
                    ensure!(p.get_x() == bx && p.get_y() == by && p.get_z() == B::one() && !p.is_identity(), "{} projective from_x_and_y of ({x:x?},{y:x?})", K::NAME);
                    eqv!(p.is_on_curve(), want, "{} from_x_and_y is_on_curve", K::NAME);
                    Ok(())
                });
            }
            cx.case("identity", true, || {
                ensure!(A::ADDITIVE_IDENTITY.is_on_curve() && P::ADDITIVE_IDENTITY.is_on_curve(), "identity on curve");
                ensure!(A::ADDITIVE_GENERATOR.is_on_curve() && P::ADDITIVE_GENERATOR.is_on_curve(), "generator on curve");
                Ok(())
            });
        });
        $c.class(&format!("{n}/equality"), |cx| {
            let o = K::oracle();
            let f = o.f.clone();
            let ps = pool::<K>(&mut cx.rng, 24);
            let w = cube_root::<K>();
            for _ in 0..cx.n(2_000, 40_000) {
                if cx.full() { break }
                let p = pick(&mut cx.rng, &ps).clone();
                let q = match below(&mut cx.rng, 8) {
                    0 => o.neg(&p),                                                 // same x
                    1 => p.as_ref().map(|(x, y)| (f.mul(x, &w), y.clone())),        // same y
                    2 => None,
                    3 => p.as_ref().map(|(x, y)| (f.mul(x, &f.int(2)), f.mul(y, &f.int(2)))), // same x:y ratio
                    4 => pick(&mut cx.rng, &ps).clone(),
                    _ => p.clone(),
                };
                let (z1, z2) = (K::gen_z(&mut cx.rng), K::gen_z(&mut cx.rng));
                let want = p == q;
                if want { cx.count("equal", 1) } else { cx.count("different", 1) }
                cx.case(format!("{p:?}{q:?}{z1:?}{z2:?}"), p.is_some() || q.is_some(), || {
                    let (x, y) = (K::proj(&p, &z1), K::proj(&q, &z2));
                    let s = |t: &str| format!("{}: {t} of P={p:x?} (z={z1:x?}) and Q={q:x?} (z={z2:x?})", K::NAME);
                    eqv!(x == y, want, "{}", s("projective =="));
                    eqv!(y == x, want, "{}", s("projective == (swapped)"));
                    eqv!(x != y, !want, "{}", s("projective !="));
                    eqv!(K::aff(&p) == K::aff(&q), want, "{}", s("affine =="));
                    eqv!(K::aff(&p) != K::aff(&q), !want, "{}", s("affine !="));
                    eqv!(x.is_identity(), p.is_none(), "{}", s("is_identity"));
                    eqv!(K::aff(&p).is_identity(), p.is_none(), "{}", s("affine is_identity"));
                    // raw projective coordinates shared, points different
                    if let (Some((px, py)), false) = (&p, f.is_zero(&f.sub(&z1, &z2))) {
                        let u = <P as BNProjective>::new_unchecked(K::b(px), K::b(py), K::b(&z1));
                        let v = <P as BNProjective>::new_unchecked(K::b(px), K::b(py), K::b(&z2));
                        eqv!(u == v, f.is_zero(px) && f.is_zero(py), "{}", s("points sharing X and Y but not Z"));
                    }
                    Ok(())
                });
            }
        });
        $c.class(&format!("{n}/conversions"), |cx| {
            let o = K::oracle();
            for _ in 0..cx.n(40, 1_000) {
                for p in pool::<K>(&mut cx.rng, 20) {
                    let z = K::gen_z(&mut cx.rng);
                    let a = K::aff(&p);
                    cx.case(format!("{p:?}{z:?}"), p.is_some(), || {
                        for e in [a.to_extended(), P::from(a)] {
                            eqv!(K::obs_p(e), p.clone(), "{} affine to projective of {p:x?}", K::NAME);
                            eqv!(e.is_identity(), p.is_none(), "{} identity kept", K::NAME);
                            ensure!(e == K::proj(&p, &z), "{} to_extended({p:x?}) != same point with z={z:x?}", K::NAME);
                        }
                        let x = K::proj(&p, &z);
                        for b in [x.to_affine(), A::from(x), x.into()] {
                            eqv!(K::obs_a(b), p.clone(), "{} projective to affine of {p:x?} z={z:x?}", K::NAME);
                            ensure!(b == a, "{} to_affine({p:x?}) z={z:x?} not == affine", K::NAME);
                        }
                        eqv!(K::obs_p(<P as BNProjective>::new_unchecked(x.get_x(), x.get_y(), x.get_z())), p.clone(), "new_unchecked");
                        let _ = &o;
                        Ok(())
                    });
                }
            }
        });
        $c.class(&format!("{n}/codec"), |cx| {
            for _ in 0..cx.n(25, 600) {
                for p in pool::<K>(&mut cx.rng, 20) {
                    let z = K::gen_z(&mut cx.rng);
                    let (a, x) = (K::aff(&p), K::proj(&p, &z));
                    let cut = cx.rng.next_u64() as usize;
                    cx.case(format!("{p:?}{z:?}"), p.is_some(), || {
                        let ea = a.encode();
                        let da = A::decode(&mut &ea[..]);
                        ensure!(matches!(&da, Ok(d) if K::obs_a(*d) == p && *d == a), "{} affine SCALE round trip of {p:x?}", K::NAME);
                        let ex = x.encode();
                        let dx = P::decode(&mut &ex[..]);
                        ensure!(matches!(&dx, Ok(d) if d.get_x() == x.get_x() && d.get_y() == x.get_y() && d.get_z() == x.get_z()), "{} projective SCALE round trip of {p:x?} z={z:x?}", K::NAME);
                        ensure!(A::decode(&mut &ea[..cut % ea.len()]).is_err(), "{} truncated affine decodes", K::NAME);
                        ensure!(P::decode(&mut &ex[..cut % ex.len()]).is_err(), "{} truncated projective decodes", K::NAME);
                        // two points in a row stay separated
                        let two = (a, x).encode();
                        let (a2, x2) = <(A, P)>::decode(&mut &two[..]).map_err(|e| bad(format!("pair: {e:?}")))?;
                        ensure!(a2 == a && x2 == x, "{} pair round trip", K::NAME);
                        Ok(())
                    });
                }
            }
        });
    }};
}
/// the documented raw layout: x, y as little-endian Montgomery limbs, the infinity flag in byte 96
macro_rules! raw {
    ($c:ident, $K:ident, $P:ty) => {{
        type K = $K;
        type A = <K as KCurve>::A;
        type B = <K as KCurve>::B;
        $c.class(&format!("{}/raw-bytes", K::NAME), |cx| {
            for _ in 0..cx.n(40, 1_000) {
                for p in pool::<K>(&mut cx.rng, 20) {
                    let a = K::aff(&p);
                    let mut bytes = vec![0u8; A::RAW_SIZE];
                    let limb = |b: B, at: usize, v: &mut Vec<u8>| for (i, l) in b.inner().iter().enumerate() { v[at + 8 * i..at + 8 * i + 8].copy_from_slice(&l.to_le_bytes()) };
                    limb(a.get_x(), 0, &mut bytes);
                    limb(a.get_y(), 32, &mut bytes);
                    bytes[96] = p.is_none() as u8;
                    // bytes 64..96 are padding
                    cx.rng.fill_bytes(&mut bytes[64..96]);
                    cx.case(format!("{p:?}"), p.is_some(), || {
                        eqv!(A::RAW_SIZE, 97, "RAW_SIZE");
                        let d = A::from_slice_unchecked(&bytes);
                        eqv!(K::obs_a(d), p.clone(), "{} from_slice_unchecked of {p:x?}", K::NAME);
                        ensure!(d == a && d.is_on_curve(), "{} decoded raw point differs", K::NAME);
                        if p.is_some() {
                            let d = A::from_slice_unchecked(&bytes[..64]);
                            eqv!(K::obs_a(d), p.clone(), "{} from_slice_unchecked of 64 bytes of {p:x?}", K::NAME);
                        }
                        Ok(())
                    });
                }
            }
        });
        $c.class(&format!("{}/batch-normalize", K::NAME), |cx| {
            for _ in 0..cx.n(300, 6_000) {
                if cx.full() { break }
                let ps = pool::<K>(&mut cx.rng, 12);
                let k = below(&mut cx.rng, 20) as usize;
                let v: Vec<Po<K>> = (0..k).map(|_| if below(&mut cx.rng, 4) == 0 { None } else { pick(&mut cx.rng, &ps).clone() }).collect();
                let x: Vec<$P> = v.iter().map(|p| K::proj(p, &K::gen_z(&mut cx.rng))).collect();
                // the output slice holds unrelated points beforehand
                let mut out: Vec<A> = v.iter().map(|_| K::aff(pick(&mut cx.rng, &ps))).collect();
                cx.case(format!("{v:?}"), k > 1, || {
                    <$P>::batch_normalize(&x, &mut out);
                    for (i, p) in v.iter().enumerate() {
                        eqv!(K::obs_a(out[i]), p.clone(), "{} batch_normalize entry {i} of {v:x?}", K::NAME);
                    }
                    Ok(())
                });
            }
        });
    }};
}
fn bad(m: String) -> Fail {
    Fail::from(m)
}
fn main() {
    let mut c = Check::new("P09", "a point (or pair) that is not just the identity, distinct with its representative");
    c.assume("off-curve coordinates include near misses: twisted b, swapped, negated, scaled, cube-root multiples");
    { suite!(c, G1); raw!(c, G1, bn_254::G1Projective); }
    { suite!(c, G2); }
    { suite!(c, Grumpkin); raw!(c, Grumpkin, grumpkin::Projective); }
    c.class("Grumpkin/to-raw-bytes", |cx| {
        for _ in 0..cx.n(40, 1_000) {
            for p in pool::<Grumpkin>(&mut cx.rng, 20) {
                cx.case(format!("{p:?}"), p.is_some(), || {
                    let a = Grumpkin::aff(&p);
                    let b = a.to_raw_bytes();
                    let d = grumpkin::Affine::from_slice_unchecked(&b);
                    eqv!(Grumpkin::obs_a(d), p.clone(), "raw bytes round trip of {p:x?}");
                    ensure!(d == a, "raw bytes round trip not ==");
                    eqv!(b[96], p.is_none() as u8, "infinity flag");
                    Ok(())
                });
            }
        }
    });
    c.run()
}
