//! P16: no satisfying witness gives a gadget another result than the right one.
use kmon::prelude::*;
use kmon::ensure;
use zkstd::circuit::CircuitDriver;
use zkstd::matrix::DenseVectors;

fn driver<C, K>(c: &mut Check, dn: &'static str)
where
    C: CircuitDriver + 'static,
    C::Scalar: KField,
    K: KCurve<O = Fp, B = C::Scalar>,
{
    for name in NAMES {
        let (q, t, budget) = match *name {
            "scalar-point" => (6, 60, 24),
            n if LARGE.contains(&n) => (80, 1_500, 60),
            _ => (600, 20_000, 400),
        };
        let shards = if *name == "scalar-point" { 2 } else { 1 };
        c.sharded(&format!("{dn}/{name}"), shards, move |cx| {
            let budget = cx.n(budget, budget * 4);
            for _ in 0..cx.n(q, t) {
                if cx.full() {
                    break;
                }
                let (s, v, k) = (cx.rng.next_u64(), cx.rng.next_u64(), cx.rng.next_u64());
                let Ok(b) = guard(|| build::<C, K>(name, &mut ChaCha20Rng::seed_from_u64(s), &mut ChaCha20Rng::seed_from_u64(v))) else { continue };
                let sys = System::of(&b.cs);
                let z = System::z(&b.cs);
                let fixed = b.fixed(&z);
                let f = Forger::new(&sys);
                let mut got = (0, 0, 0);
                cx.sample(|| b.desc.clone());
                cx.case(&b.desc, true, || {
                    let ms = b.cs.matrices();
                    let real_sat = |z: &[C::Scalar]| {
                        let d = DenseVectors::new(z.to_vec());
                        let (m, l) = (b.cs.m(), b.cs.l());
                        (ms.0.prod(m, l, &d) * ms.1.prod(m, l, &d)).get() == ms.2.prod(m, l, &d).get()
                    };
                    let mut judge = |zz: &[C::Scalar]| -> R {
                        ensure!(real_sat(zz), "harness: forged assignment is not accepted by the code's own matrices");
                        if !b.holds {
                            return fail("", format!("{}: the relation is false, yet a witness satisfies the constraints", b.desc));
                        }
                        b.judge(&sys, zz)
                    };
                    if b.holds {
                        for plan in b.plans() {
                            got.2 += 1;
                            if let Some(fz) = f.run(&fixed, &z, &plan) {
                                if sys.broken(&fz.z).is_empty() {
                                    judge(&fz.z)?;
                                }
                            }
                        }
                        let g = f.attack(&mut ChaCha20Rng::seed_from_u64(k), &fixed, &z, budget, &mut judge)?;
                        got.0 += g.0;
                        got.1 += g.1;
                        ensure!(real_sat(&z), "honest assignment refused");
                    } else {
                        // satisfy a false statement: start from the dishonest inputs, let the adversary choose everything else
                        let mut r = ChaCha20Rng::seed_from_u64(k);
                        for i in 0..(budget / 4).max(8) {
                            let mut plan = std::collections::BTreeMap::new();
                            if i > 0 {
                                for _ in 0..1 + below(&mut r, 3) {
                                    let w = below(&mut r, z.len() as u64) as usize;
                                    if !fixed.contains_key(&w) {
                                        plan.insert(w, C::Scalar::of(&gen_val(&mut r, &C::Scalar::modulus())));
                                    }
                                }
                            }
                            got.0 += 1;
                            if let Some(fz) = f.run(&fixed, &z, &plan) {
                                if sys.broken(&fz.z).is_empty() {
                                    got.1 += 1;
                                    judge(&fz.z)?;
                                }
                            }
                        }
                    }
                    Ok(())
                });
                cx.count("forged assignments tried", got.0 + got.2);
                cx.count("alias bit strings tried", got.2);
                cx.count("forged assignments satisfying all constraints", got.1);
                cx.count(if b.holds { "true relations" } else { "false relations" }, 1);
            }
        });
    }
}

fn main() {
    let mut c = Check::new("P16", "distinct (gadget, operand kinds, values), each attacked with many forged witnesses");
    c.assume("inputs of the gadget are fixed; point operands are valid points; the adversary deviates in 1-4 free wires and repairs the rest by propagation");
    driver::<zkgroth16::Bn254Driver, Grumpkin>(&mut c, "bn254");
    driver::<zknova::GrumpkinDriver, G1>(&mut c, "grumpkin");
    c.run()
}
