//! P17: the constraint system of a circuit depends on its structure only, never on the values.
use kmon::prelude::*;
use kmon::{ensure, eqv};
use zkstd::circuit::CircuitDriver;

fn driver<C, K>(c: &mut Check, dn: &'static str)
where
    C: CircuitDriver + 'static,
    C::Scalar: KField,
    K: KCurve<O = Fp, B = C::Scalar>,
{
    for name in NAMES {
        let (q, t) = match *name {
            "scalar-point" => (10, 300),
            n if LARGE.contains(&n) => (60, 2_000),
            _ => (300, 15_000),
        };
        c.class(&format!("{dn}/{name}"), move |cx| {
            for _ in 0..cx.n(q, t) {
                if cx.full() {
                    break;
                }
                let s = cx.rng.next_u64();
                let vs: Vec<u64> = (0..3).map(|_| cx.rng.next_u64()).collect();
                let Ok(bs) = guard(|| vs.iter().map(|v| build::<C, K>(name, &mut ChaCha20Rng::seed_from_u64(s), &mut ChaCha20Rng::seed_from_u64(*v))).collect::<Vec<_>>()) else { continue };
                cx.count("structures", 1);
                cx.sample(|| format!("{} // {}", bs[0].desc, bs[1].desc));
                cx.case((name, s), true, || {
                    for b in &bs[1..] {
                        let (a, d) = (&bs[0], &b.desc);
                        eqv!((b.cs.m(), b.cs.l(), b.cs.m_l_1()), (a.cs.m(), a.cs.l(), a.cs.m_l_1()), "sizes for [{}] and [{d}]", a.desc);
                        let (x, y) = (a.cs.matrices(), b.cs.matrices());
                        ensure!(x == y, "matrices differ for [{}] and [{d}]", a.desc);
                    }
                    Ok(())
                });
            }
        });
    }
}

fn main() {
    let mut c = Check::new("P17", "distinct circuit structures, each built with three independent value sets");
    c.assume("constants are part of the structure and equal in the three builds");
    driver::<zkgroth16::Bn254Driver, Grumpkin>(&mut c, "bn254");
    driver::<zknova::GrumpkinDriver, G1>(&mut c, "grumpkin");
    c.run()
}
