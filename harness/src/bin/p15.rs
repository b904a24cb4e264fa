//! P15: every gadget computes its function: right values, and satisfied exactly when the stated relation is true.
use kmon::prelude::*;
use kmon::{ensure, eqv};
use zkstd::circuit::CircuitDriver;

fn driver<C, K>(c: &mut Check, dn: &'static str)
where
    C: CircuitDriver + 'static,
    C::Scalar: KField,
    K: KCurve<O = Fp, B = C::Scalar>,
{
    for name in NAMES {
        let (q, t) = match *name {
            "scalar-point" => (24, 900),
            n if LARGE.contains(&n) => (200, 8_000),
            _ => (700, 40_000),
        };
        c.class(&format!("{dn}/{name}"), move |cx| {
            for _ in 0..cx.n(q, t) {
                if cx.full() {
                    break;
                }
                let (s, v) = (cx.rng.next_u64(), cx.rng.next_u64());
                let built = guard(|| build::<C, K>(name, &mut ChaCha20Rng::seed_from_u64(s), &mut ChaCha20Rng::seed_from_u64(v)));
                let b = match built {
                    Ok(b) => b,
                    Err(e) => {
                        cx.case((s, v), true, || fail("panic", format!("{name} (shape {s:x}, values {v:x}) panicked: {e}")));
                        continue;
                    }
                };
                cx.count(if b.holds { "true relations" } else { "false relations" }, 1);
                cx.count("constraints", b.cs.m());
                cx.sample(|| b.desc.clone());
                cx.case(&b.desc, true, || {
                    eqv!(b.cs.is_sat(), b.holds, "{}: is_sat", b.desc);
                    if b.holds {
                        let sys = System::of(&b.cs);
                        let z = System::z(&b.cs);
                        b.judge(&sys, &z)?;
                        ensure!(sys.broken(&z).is_empty(), "{}: published rows are not satisfied", b.desc);
                    }
                    Ok(())
                });
            }
        });
    }
}

fn main() {
    let mut c = Check::new("P15", "distinct (gadget, operand kinds, values); both true and false relations are driven");
    c.assume("point operands are valid points; bits given to a gadget are bits");
    driver::<zkgroth16::Bn254Driver, Grumpkin>(&mut c, "bn254");
    driver::<zknova::GrumpkinDriver, G1>(&mut c, "grumpkin");
    c.run()
}
