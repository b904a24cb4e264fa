//! P08: scalar multiplication on G1, G2 and Grumpkin is repeated addition, and the groups have
//! the order of their scalar field.
use kmon::prelude::*;
use kmon::{ensure, eqv};
use zkstd::common::*;

fn gen_scalar(rng: &mut ChaCha20Rng, n: &BigUint) -> BigUint {
    match below(rng, 8) {
        0 => BigUint::from(below(rng, 20)),
        1 => n - 1u32 - BigUint::from(below(rng, 20)),
        2 => pow2(below(rng, 253)),
        // long runs of ones and alternating digits: carries in the signed-digit recoding
        3 => {
            let (a, b) = (below(rng, 250), below(rng, 250));
            let (lo, hi) = (a.min(b), a.max(b) + 1);
            pow2(hi) - pow2(lo)
        }
        4 => {
            let mut v = BigUint::zero();
            let k = 1 + below(rng, 4);
            let mut i = below(rng, k);
            while i < 253 { v += pow2(i); i += k }
            v % n
        }
        _ => gen_val(rng, n),
    }
}

macro_rules! suite {
    ($c:ident, $K:ident) => {{
        type K = $K;
        type S = <K as KCurve>::S;
        type A = <K as KCurve>::A;
        type P = <K as KCurve>::P;
        let n = K::NAME;
        fn okp(got: P, want: &Po<K>, w: &str) -> R {
            let g = K::obs_p(got);
            ensure!(&g == want, "{}: {w}: got {g:x?} want {want:x?}", K::NAME);
            ensure!(got.is_on_curve() && got.is_identity() == want.is_none(), "{}: {w}: on-curve/identity flags", K::NAME);
            Ok(())
        }
        $c.sharded(&format!("{n}/scalar-mul"), 3, |cx| {
            let o = K::oracle();
            let ps = pool::<K>(&mut cx.rng, 16);
            for _ in 0..cx.n(150, 6_000) {
                if cx.full() { break }
                let p = pick(&mut cx.rng, &ps).clone();
                let k = gen_scalar(&mut cx.rng, &K::order());
                let want = o.mul(&p, &k);
                let s = S::of(&k);
                let (a, x) = (K::aff(&p), K::proj(&p, &K::gen_z(&mut cx.rng)));
                cx.sample(|| format!("{} k={k:#x} P={p:x?}", K::NAME));
                cx.case(format!("{p:?}{k}"), p.is_some() && k > BigUint::one(), || {
                    let w = |t: &str| format!("{t} k={k:#x} P={p:x?}");
                    okp(a * s, &want, &w("A*k"))?;
                    okp(s * a, &want, &w("k*A"))?;
                    okp(x * s, &want, &w("P*k"))?;
                    okp(s * x, &want, &w("k*P"))?;
                    let mut t = x; t *= s; okp(t, &want, &w("P*=k"))
                });
            }
        });
        $c.class(&format!("{n}/scalar-mul-by-reference"), |cx| {
            let o = K::oracle();
            let ps = pool::<K>(&mut cx.rng, 16);
            for _ in 0..cx.n(40, 1_000) {
                if cx.full() { break }
                let p = pick(&mut cx.rng, &ps).clone();
                let k = gen_scalar(&mut cx.rng, &K::order());
                let want = o.mul(&p, &k);
                let s = S::of(&k);
                let (a, x) = (K::aff(&p), K::proj(&p, &K::gen_z(&mut cx.rng)));
                cx.case(format!("{p:?}{k}"), p.is_some() && k > BigUint::one(), || {
                    let w = |t: &str| format!("{t} k={k:#x} P={p:x?}");
                    okp(a * &s, &want, &w("A*&k"))?; okp(&a * s, &want, &w("&A*k"))?; okp(&a * &s, &want, &w("&A*&k"))?;
                    okp(s * &a, &want, &w("k*&A"))?; okp(&s * a, &want, &w("&k*A"))?; okp(&s * &a, &want, &w("&k*&A"))?;
                    okp(x * &s, &want, &w("P*&k"))?; okp(&x * s, &want, &w("&P*k"))?; okp(&x * &s, &want, &w("&P*&k"))?;
                    okp(s * &x, &want, &w("k*&P"))?; okp(&s * x, &want, &w("&k*P"))?; okp(&s * &x, &want, &w("&k*&P"))?;
                    let mut t = x; t *= &s; okp(t, &want, &w("P*=&k"))
                });
            }
        });
        // distributivity and associativity inside the prime-order group, with scalars reduced by the field
        $c.class(&format!("{n}/module-laws"), |cx| {
            let o = K::oracle();
            let nn = K::order();
            for _ in 0..cx.n(150, 4_000) {
                if cx.full() { break }
                let (k, l) = (gen_scalar(&mut cx.rng, &nn), gen_scalar(&mut cx.rng, &nn));
                let (s, t) = (S::of(&k), S::of(&l));
                let g = A::ADDITIVE_GENERATOR;
                cx.case((&k, &l), k > BigUint::one() && l > BigUint::one(), || {
                    let w = format!("k={k:#x} l={l:#x}");
                    ensure!(g * s + g * t == g * (s + t), "kG+lG != (k+l)G, {w}");
                    ensure!((g * s) * t == g * (s * t), "l(kG) != (lk)G, {w}");
                    ensure!(g * s - g * t == g * (s - t), "kG-lG != (k-l)G, {w}");
                    ensure!(g * (-s) == -(g * s), "(-k)G != -(kG), {w}");
                    Ok(())
                });
            }
            cx.case("order", true, || {
                let g = K::generator();
                ensure!(o.mul(&g, &nn).is_none(), "oracle: order*G is not the identity");
                let m1 = S::of(&(&nn - 1u32));
                okp(P::ADDITIVE_GENERATOR * m1 + A::ADDITIVE_GENERATOR, &None, "order*G")?;
                okp(P::ADDITIVE_GENERATOR * S::zero(), &None, "0*G")?;
                eqv!(K::obs_p(P::ADDITIVE_IDENTITY * m1), None, "k*identity");
                Ok(())
            });
        });
        $c.class(&format!("{n}/random-points"), |cx| {
            let o = K::oracle();
            let nn = K::order();
            let mut seen = std::collections::HashSet::new();
            for _ in 0..cx.n(30, 600) {
                let mut r = ChaCha20Rng::seed_from_u64(cx.rng.next_u64());
                cx.case(cx.evals, true, || {
                    for p in [K::obs_a(A::random(&mut r)), K::obs_p(P::random(&mut r))] {
                        let (x, y) = p.clone().ok_or_else(|| Fail::from("random point is the identity"))?;
                        ensure!(o.on_curve(&x, &y), "random point is off the curve");
                        ensure!(o.mul(&p, &nn).is_none(), "random point is outside the prime-order group");
                        ensure!(seen.insert(format!("{p:?}")), "random point repeated");
                    }
                    Ok(())
                });
            }
        });
        $c.class(&format!("{n}/oracle-selftest"), |cx| {
            let o = K::oracle();
            let ps = pool::<K>(&mut cx.rng, 12);
            for i in 0..cx.n(12, 200) {
                let p = pick(&mut cx.rng, &ps).clone();
                let k = if i < 6 { BigUint::from(i) } else { gen_scalar(&mut cx.rng, &K::order()) };
                cx.case(format!("{p:?}{k}"), false, || { eqv!(o.mul(&p, &k), o.mul_slow(&p, &k), "oracle multiplications differ"); Ok(()) });
            }
        });
    }};
}
fn main() {
    let mut c = Check::new("P08", "scalar above one and point not the identity, distinct (point, scalar)");
    c.assume("group law judged by P07, scalar field by P01-P03");
    { suite!(c, G1); }
    { suite!(c, G2); }
    { suite!(c, Grumpkin); }
    c.run()
}
