//! P23: multi-scalar multiplication equals the sum of the products, for every length and every mixture of operands.
use kmon::g16::*;
use kmon::prelude::*;
use kmon::ensure;
use zkstd::common::*;

#[cfg(kogarashi_verif)]
mod hooked {
    use super::*;
    use zkgroth16::verif::msm;
    /// scalars with digits that fill, skip or overlap bucket windows
    fn scalar(rng: &mut ChaCha20Rng, r: &BigUint) -> BigUint {
        match below(rng, 8) {
            0 => BigUint::zero(),
            1 => BigUint::one(),
            2 => r - 1u32,
            3 => pow2(below(rng, 254)) % r,
            4 => (pow2(below(rng, 254)) - 1u32) % r,
            5 => BigUint::from(rng.next_u32() & 0xff),
            _ => gen_val(rng, r),
        }
    }
    /// many terms over points with known logarithms: one product is the oracle
    pub fn long<A>(cx: &mut Cx, name: &str, lens: &[usize], reps: u64, order: BigUint)
    where
        A: BNAffine + Group,
        A::Scalar: KField,
        A::Extended: From<A> + PartialEq + std::fmt::Debug,
    {
        let g = A::ADDITIVE_GENERATOR.to_extended();
        let mul = |s: &BigUint| -> A::Extended {
            let mut acc = A::Extended::ADDITIVE_IDENTITY;
            for i in (0..s.bits()).rev() {
                acc = acc.double();
                if s.bit(i) {
                    acc = acc + g;
                }
            }
            acc
        };
        let mut logs = vec![BigUint::zero(), BigUint::one(), &order - 1u32];
        while logs.len() < 96 {
            logs.push(gen_rand(&mut cx.rng, &order));
        }
        let pool: Vec<A> = logs.iter().map(|d| A::from(mul(d))).collect();
        for &len in lens {
            for rep in 0..reps {
                if cx.full() {
                    return;
                }
                let seed = cx.rng.next_u64();
                let mut rng = ChaCha20Rng::seed_from_u64(seed);
                let idx: Vec<usize> = (0..len).map(|_| below(&mut rng, 96) as usize).collect();
                let ss: Vec<BigUint> = (0..len).map(|_| if rep % 2 == 0 { gen_rand(&mut rng, &order) } else { scalar(&mut rng, &order) }).collect();
                let log = idx.iter().zip(&ss).fold(BigUint::zero(), |a, (i, s)| a + &logs[*i] * s) % &order;
                let pts: Vec<A> = idx.iter().map(|i| pool[*i]).collect();
                let coeffs: Vec<A::Scalar> = ss.iter().map(A::Scalar::of).collect();
                cx.count("terms", len as u64);
                cx.sample(|| format!("{name} len={len} seed={seed}"));
                cx.case((name.to_string(), len, seed), true, || {
                    ensure!(msm(&pts, &coeffs) == mul(&log), "{name}: {len} terms (seed {seed}, repetition {rep}) sum to something else");
                    Ok(())
                });
            }
        }
    }
    pub fn run<A>(cx: &mut Cx, name: &str, lens: &[usize], reps: u64, order: BigUint)
    where
        A: BNAffine + Group,
        A::Scalar: KField,
        A::Extended: From<A> + PartialEq + std::fmt::Debug,
    {
        for &len in lens {
            for rep in 0..reps {
                if cx.full() {
                    return;
                }
                let mut rng = ChaCha20Rng::seed_from_u64(cx.rng.next_u64());
                let style = rep % 6;
                let g = A::ADDITIVE_GENERATOR;
                let mul = |p: A, s: &BigUint| -> A::Extended {
                    // plain double-and-add over the group law
                    let mut acc = A::Extended::ADDITIVE_IDENTITY;
                    for i in (0..s.bits()).rev() {
                        acc = acc.double();
                        if s.bit(i) {
                            acc = acc + p.to_extended();
                        }
                    }
                    acc
                };
                let base = A::from(mul(g, &gen_rand(&mut rng, &order)));
                let mut pts: Vec<A> = vec![];
                let mut cur = base.to_extended();
                for i in 0..len {
                    cur = cur + g.to_extended();
                    let p = A::from(cur);
                    pts.push(match style {
                        0 => base,
                        1 => if i % 2 == 0 { base } else { -base },
                        2 if below(&mut rng, 3) == 0 => A::ADDITIVE_IDENTITY,
                        3 if i > 0 && below(&mut rng, 3) == 0 => pts[below(&mut rng, i as u64) as usize],
                        _ => p,
                    });
                }
                let shared = scalar(&mut rng, &order);
                let ss: Vec<BigUint> = (0..len).map(|_| if style == 1 || style == 4 && below(&mut rng, 2) == 0 { shared.clone() } else { scalar(&mut rng, &order) }).collect();
                let coeffs: Vec<A::Scalar> = ss.iter().map(A::Scalar::of).collect();
                let want = pts.iter().zip(&ss).fold(A::Extended::ADDITIVE_IDENTITY, |a, (p, s)| a + mul(*p, s));
                cx.count("terms", len as u64);
                cx.sample(|| format!("{name} len={len} style={style} first scalar {:?}", ss.first()));
                cx.case((name.to_string(), len, format!("{ss:?}"), style), len > 0, || {
                    ensure!(msm(&pts, &coeffs) == want, "{name}: {len} terms, style {style}, scalars {ss:x?}");
                    // as many terms as the shorter side has
                    if len > 1 {
                        let m = 1 + below(&mut rng, len as u64 - 1) as usize;
                        let part = pts[..m].iter().zip(&ss).fold(A::Extended::ADDITIVE_IDENTITY, |a, (p, s)| a + mul(*p, s));
                        ensure!(msm(&pts, &coeffs[..m]) == part, "{name}: {m} scalars for {len} points, style {style}, scalars {ss:x?}");
                    }
                    Ok(())
                });
            }
        }
    }
}

/// through proofs: public and private wires enter by multi-scalar multiplications of their own
fn proofs(cx: &mut Cx) {
    for len in [1u64, 2, 3, 4, 5, 30, 31, 32, 33] {
        let s = Spec { shape: cx.rng.next_u64(), vals: cx.rng.next_u64(), len, lie: None, kind: Kind::Wide };
        let cs = r1cs(&s);
        let seed = cx.rng.next_u64();
        cx.case(format!("{s:?}"), true, || {
            let Ok(Ok((mut p, v))) = guard(|| setup(&s, seed)) else { return fail("setup", format!("no keys for {s:?}")) };
            let Ok(proof) = with_spec(&s, || p.create_proof(&mut ChaCha20Rng::seed_from_u64(seed), Drawn(s.clone()))) else { return fail("prove", format!("no proof for {s:?}")) };
            ensure!(v.verify(&proof, &publics(&cs)).is_ok(), "{s:?}: rejected with {} public inputs", cs.l() - 1);
            Ok(())
        });
    }
}

fn main() {
    let mut c = Check::new("P23", "distinct (points, scalars); identity, equal and opposite points and degenerate scalars included");
    c.class("proofs", proofs);
    #[cfg(kogarashi_verif)]
    {
        use hooked::{long, run};
        const SMALL: &[usize] = &[0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 30, 31, 32, 33, 47, 63, 64, 65];
        for i in 0..4 {
            c.heavy(&format!("g1/short~{i}"), |cx| { let n = cx.n(6, 90); run::<bn_254::G1Affine>(cx, "G1", SMALL, n, r_mod()) });
            c.heavy(&format!("g2/short~{i}"), |cx| { let n = cx.n(2, 30); run::<bn_254::G2Affine>(cx, "G2", SMALL, n, r_mod()) });
            c.heavy(&format!("grumpkin/short~{i}"), |cx| { let n = cx.n(4, 60); run::<grumpkin::Affine>(cx, "Grumpkin", SMALL, n, q_mod()) });
        }
        // the window width follows the logarithm of the length: lengths around every power of two
        for k in 7..=14u32 {
            c.heavy(&format!("g1/2^{k}"), move |cx| {
                let n = cx.n(if k < 11 { 4 } else { 2 }, 8);
                let l = 1usize << k;
                long::<bn_254::G1Affine>(cx, "G1", &[l - 1, l, l + l / 3], n, r_mod())
            });
        }
        for k in [8u32, 11, 12, 13] {
            c.heavy(&format!("g2/2^{k}"), move |cx| { let n = cx.n(1, 6); long::<bn_254::G2Affine>(cx, "G2", &[(1usize << k) + 5], n, r_mod()) });
            c.heavy(&format!("grumpkin/2^{k}"), move |cx| { let n = cx.n(1, 6); long::<grumpkin::Affine>(cx, "Grumpkin", &[(1usize << k) + 5], n, q_mod()) });
        }
        if c.thorough() {
            for k in 15..=18u32 {
                c.heavy(&format!("g1/2^{k}"), move |cx| long::<bn_254::G1Affine>(cx, "G1", &[1usize << k], 2, r_mod()));
            }
        }
    }
    c.run()
}
