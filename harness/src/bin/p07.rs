//! P07: point addition, subtraction, doubling, negation and summation on G1, G2 and Grumpkin
//! follow the chord-and-tangent group law, for every operand kind and representative.
use kmon::prelude::*;
use kmon::{ensure, eqv};
use zkstd::common::*;

macro_rules! suite {
    ($c:ident, $K:ident) => {{
        type K = $K;
        type A = <K as KCurve>::A;
        type P = <K as KCurve>::P;
        let n = K::NAME;
        fn okp(got: P, want: &Po<K>, w: &str) -> R {
            let g = K::obs_p(got);
            ensure!(&g == want, "{}: {w}: got {g:x?} want {want:x?}", K::NAME);
            ensure!(got == K::proj(want, &K::oracle().f.int(1)), "{}: {w}: right point but not ==", K::NAME);
            ensure!(got.is_identity() == want.is_none(), "{}: {w}: is_identity", K::NAME);
            ensure!(got.is_on_curve(), "{}: {w}: result not on curve", K::NAME);
            Ok(())
        }
        fn oka(got: A, want: &Po<K>, w: &str) -> R {
            let g = K::obs_a(got);
            ensure!(&g == want, "{}: {w}: got {g:x?} want {want:x?}", K::NAME);
            ensure!(got == K::aff(want), "{}: {w}: right point but not ==", K::NAME);
            ensure!(got.is_identity() == want.is_none(), "{}: {w}: is_identity", K::NAME);
            Ok(())
        }
        $c.sharded(&format!("{n}/group-law"), 3, |cx| {
            let o = K::oracle();
            let mut ps = pool::<K>(&mut cx.rng, 24);
            for round in 0..cx.n(1_500, 40_000) {
                if cx.full() { break }
                if round % 400 == 399 { ps = pool::<K>(&mut cx.rng, 24) }
                let p = pick(&mut cx.rng, &ps).clone();
                let q = match below(&mut cx.rng, 6) {
                    0 => p.clone(),
                    1 => o.neg(&p),
                    2 => None,
                    _ => pick(&mut cx.rng, &ps).clone(),
                };
                let (s, d, d2, p2) = (o.add(&p, &q), o.add(&p, &o.neg(&q)), o.add(&q, &o.neg(&p)), o.add(&p, &p));
                let (z1, z2) = (K::gen_z(&mut cx.rng), K::gen_z(&mut cx.rng));
                let (a, b) = (K::aff(&p), K::aff(&q));
                let (x, y) = (K::proj(&p, &z1), K::proj(&q, &z2));
                cx.sample(|| format!("{} P={p:x?} Q={q:x?} z1={z1:x?} z2={z2:x?}", K::NAME));
                cx.case((format!("{p:?}{q:?}{z1:?}{z2:?}")), p.is_some() && q.is_some(), || {
                    let w = |t: &str| format!("{t} on P={p:x?} Q={q:x?} z1={z1:x?} z2={z2:x?}");
                    okp(a + b, &s, &w("A+A"))?;
                    okp(a + y, &s, &w("A+P"))?;
                    okp(x + b, &s, &w("P+A"))?;
                    okp(x + y, &s, &w("P+P"))?;
                    okp(a - b, &d, &w("A-A"))?;
                    okp(a - y, &d, &w("A-P"))?;
                    okp(x - b, &d, &w("P-A"))?;
                    okp(x - y, &d, &w("P-P"))?;
                    okp(y - x, &d2, &w("Q-P"))?;
                    let mut t = x; t += y; okp(t, &s, &w("P+=P"))?;
                    let mut t = x; t += b; okp(t, &s, &w("P+=A"))?;
                    let mut t = x; t -= y; okp(t, &d, &w("P-=P"))?;
                    let mut t = x; t -= b; okp(t, &d, &w("P-=A"))?;
                    okp(BNProjective::double(x), &p2, &w("double(P)"))?;
                    okp(-x, &o.neg(&p), &w("-P"))?;
                    oka(-a, &o.neg(&p), &w("-A"))?;
                    oka(A::from(x + y), &s, &w("to_affine(P+P)"))?;
                    match Group::invert(x) { None => ensure!(p.is_none(), "{}", w("invert(P) None")), Some(i) => okp(i, &o.neg(&p), &w("invert(P)"))? }
                    match Group::invert(a) { None => ensure!(p.is_none(), "{}", w("invert(A) None")), Some(i) => oka(i, &o.neg(&p), &w("invert(A)"))? }
                    Ok(())
                });
            }
        });
        $c.class(&format!("{n}/by-reference"), |cx| {
            let o = K::oracle();
            let ps = pool::<K>(&mut cx.rng, 24);
            for _ in 0..cx.n(500, 12_000) {
                if cx.full() { break }
                let (p, q) = (pick(&mut cx.rng, &ps).clone(), pick(&mut cx.rng, &ps).clone());
                let (s, d) = (o.add(&p, &q), o.add(&p, &o.neg(&q)));
                let (z1, z2) = (K::gen_z(&mut cx.rng), K::gen_z(&mut cx.rng));
                let (a, b) = (K::aff(&p), K::aff(&q));
                let (x, y) = (K::proj(&p, &z1), K::proj(&q, &z2));
                cx.case((format!("{p:?}{q:?}{z1:?}{z2:?}")), p.is_some() && q.is_some() && s.is_some() && d.is_some(), || {
                    let w = |t: &str| format!("{t} on P={p:x?} Q={q:x?} z1={z1:x?} z2={z2:x?}");
                    okp(&a + &b, &s, &w("&A+&A"))?; okp(a + &b, &s, &w("A+&A"))?; okp(&a + b, &s, &w("&A+A"))?;
                    okp(&a - &b, &d, &w("&A-&A"))?; okp(a - &b, &d, &w("A-&A"))?; okp(&a - b, &d, &w("&A-A"))?;
                    okp(&x + &y, &s, &w("&P+&P"))?; okp(x + &y, &s, &w("P+&P"))?; okp(&x + y, &s, &w("&P+P"))?;
                    okp(&x - &y, &d, &w("&P-&P"))?; okp(x - &y, &d, &w("P-&P"))?; okp(&x - y, &d, &w("&P-P"))?;
                    okp(&x + &b, &s, &w("&P+&A"))?; okp(x + &b, &s, &w("P+&A"))?; okp(&x + b, &s, &w("&P+A"))?;
                    okp(&x - &b, &d, &w("&P-&A"))?; okp(x - &b, &d, &w("P-&A"))?; okp(&x - b, &d, &w("&P-A"))?;
                    okp(&a + &y, &s, &w("&A+&P"))?; okp(a + &y, &s, &w("A+&P"))?; okp(&a + y, &s, &w("&A+P"))?;
                    okp(&a - &y, &d, &w("&A-&P"))?; okp(a - &y, &d, &w("A-&P"))?; okp(&a - y, &d, &w("&A-P"))?;
                    let mut t = x; t += &y; okp(t, &s, &w("P+=&P"))?;
                    let mut t = x; t += &b; okp(t, &s, &w("P+=&A"))?;
                    let mut t = x; t -= &y; okp(t, &d, &w("P-=&P"))?;
                    let mut t = x; t -= &b; okp(t, &d, &w("P-=&A"))
                });
            }
        });
        $c.class(&format!("{n}/affine-double"), |cx| {
            let o = K::oracle();
            for _ in 0..cx.n(8, 200) {
                for p in pool::<K>(&mut cx.rng, 24) {
                    cx.case(format!("{p:?}"), p.is_some(), || okp(BNAffine::double(K::aff(&p)), &o.add(&p, &p), &format!("double(A) {p:x?}")));
                }
            }
        });
        $c.class(&format!("{n}/sum"), |cx| {
            let o = K::oracle();
            let ps = pool::<K>(&mut cx.rng, 20);
            for _ in 0..cx.n(60, 2_000) {
                if cx.full() { break }
                let k = below(&mut cx.rng, 9);
                let mut v: Vec<Po<K>> = (0..k).map(|_| pick(&mut cx.rng, &ps).clone()).collect();
                if k > 2 && below(&mut cx.rng, 2) == 0 { let t = o.neg(&v[0]); v[1] = t }
                let want = v.iter().fold(None, |a, b| o.add(&a, b));
                let code: Vec<P> = v.iter().map(|p| K::proj(p, &K::gen_z(&mut cx.rng))).collect();
                cx.case(format!("{v:?}"), k > 1, || {
                    okp(code.iter().sum::<P>(), &want, &format!("sum of refs {v:x?}"))?;
                    okp(code.iter().copied().sum::<P>(), &want, &format!("sum {v:x?}"))
                });
            }
        });
        // chains of random operations followed by the oracle: intermediate representatives are whatever the code produced
        $c.class(&format!("{n}/chains"), |cx| {
            let o = K::oracle();
            let ps = pool::<K>(&mut cx.rng, 20);
            for _ in 0..cx.n(60, 2_000) {
                if cx.full() { break }
                let mut regs: Vec<(P, A, Po<K>)> = (0..3).map(|_| { let p = pick(&mut cx.rng, &ps).clone(); (K::proj(&p, &K::gen_z(&mut cx.rng)), K::aff(&p), p) }).collect();
                let ops: Vec<(u64, usize, usize)> = (0..12).map(|_| (below(&mut cx.rng, 6), below(&mut cx.rng, 3) as usize, below(&mut cx.rng, 3) as usize)).collect();
                cx.case(format!("{ops:?}{:?}", regs.iter().map(|r| r.2.clone()).collect::<Vec<_>>()), true, || {
                    for (op, i, j) in &ops {
                        let (x, a, p) = regs[*i].clone();
                        let (y, b, q) = regs[*j].clone();
                        let (r, w) = match op {
                            0 => (x + y, o.add(&p, &q)),
                            1 => (x - b, o.add(&p, &o.neg(&q))),
                            2 => (BNProjective::double(x), o.add(&p, &p)),
                            3 => (a + b, o.add(&p, &q)),
                            4 => (b - x, o.add(&q, &o.neg(&p))),
                            _ => (-x + b, o.add(&q, &o.neg(&p))),
                        };
                        okp(r, &w, &format!("step {op} {i} {j} of {ops:?}"))?;
                        regs[*i] = (r, A::from(r), w);
                    }
                    Ok(())
                });
            }
        });
        $c.class(&format!("{n}/constants"), |cx| {
            let o = K::oracle();
            cx.case("constants", true, || {
                okp(P::ADDITIVE_IDENTITY, &None, "projective identity")?;
                oka(A::ADDITIVE_IDENTITY, &None, "affine identity")?;
                okp(P::default(), &None, "projective default")?;
                oka(A::default(), &None, "affine default")?;
                okp(P::ADDITIVE_GENERATOR, &K::generator(), "projective generator")?;
                oka(A::ADDITIVE_GENERATOR, &K::generator(), "affine generator")?;
                eqv!(K::e(<A as BNCurve>::PARAM_B), o.b.clone(), "PARAM_B of affine");
                eqv!(K::e(<P as BNCurve>::PARAM_B), o.b.clone(), "PARAM_B of projective");
                let b3 = o.f.mul(&o.b, &o.f.int(3));
                eqv!(K::e(<A as BNCurve>::PARAM_3B), b3.clone(), "PARAM_3B of affine");
                eqv!(K::e(<P as BNCurve>::PARAM_3B), b3, "PARAM_3B of projective");
                Ok(())
            });
        });
    }};
}
fn main() {
    let mut c = Check::new("P07", "both operands different from the identity, distinct (points, representatives)");
    c.assume("field arithmetic is judged by P01-P06; points are handed over through new_unchecked and read back through get_x/get_y/get_z");
    { suite!(c, G1); }
    { suite!(c, G2); }
    { suite!(c, Grumpkin); }
    c.run()
}
