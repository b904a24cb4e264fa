//! P13: a constraint system is satisfied exactly when every relation stated on it holds.
use kmon::prelude::*;
use kmon::{ensure, eqv};
use zkstd::circuit::prelude::*;
use zkstd::common::*;

#[derive(Clone)]
struct V<F: PrimeField>(FieldAssignment<F>, BigUint);

fn program<C: CircuitDriver>(cx: &mut Cx, len: u64)
where
    C::Scalar: KField,
{
    type S<C> = <C as CircuitDriver>::Scalar;
    let p = S::<C>::modulus();
    let o = Fp::new(p.clone());
    let mut rng = ChaCha20Rng::seed_from_u64(cx.rng.next_u64());
    let seed_key = rng.next_u64();
    // how many false relations the program states: none, exactly one, or several
    let mode = below(&mut rng, 4);
    let lie_at = below(&mut rng, len);
    let mut cs: R1cs<C> = R1cs::default();
    let mut vs: Vec<V<S<C>>> = vec![];
    let mut want = true;
    let mut relations = 0u64;
    let mut log: Vec<String> = vec![];
    let mut values_ok: R = Ok(());
    let k = |b: &BigUint| S::<C>::of(b);
    for i in 0..len {
        let lie = match mode {
            0 => false,
            1 | 2 => i >= lie_at && want,
            _ => below(&mut rng, 5) == 0,
        };
        let any = |rng: &mut ChaCha20Rng, vs: &Vec<V<S<C>>>| vs[below(rng, vs.len() as u64) as usize].clone();
        let op = if vs.len() < 3 { below(&mut rng, 3) } else { below(&mut rng, 18) };
        let delta = |rng: &mut ChaCha20Rng| loop {
            let d = match below(rng, 4) {
                0 => BigUint::one(),
                1 => &p - 1u32,
                _ => gen_val(rng, &p),
            };
            if !d.is_zero() {
                break d;
            }
        };
        match op {
            0 => {
                let v = gen_val(&mut rng, &p);
                vs.push(V(FieldAssignment::instance(&mut cs, k(&v)), v));
                log.push("instance".into());
            }
            1 => {
                let v = gen_val(&mut rng, &p);
                vs.push(V(FieldAssignment::witness(&mut cs, k(&v)), v));
                log.push("witness".into());
            }
            2 => {
                let v = gen_val(&mut rng, &p);
                vs.push(V(FieldAssignment::constant(&k(&v)), v));
                log.push("constant".into());
            }
            3 => {
                let (a, b) = (any(&mut rng, &vs), any(&mut rng, &vs));
                vs.push(V(FieldAssignment::mul(&mut cs, &a.0, &b.0), o.mul(&a.1, &b.1)));
                log.push("mul".into());
            }
            4 => {
                let a = any(&mut rng, &vs);
                vs.push(V(FieldAssignment::square(&mut cs, &a.0), o.mul(&a.1, &a.1)));
                log.push("square".into());
            }
            5 => {
                let (a, b) = (any(&mut rng, &vs), any(&mut rng, &vs));
                vs.push(V(FieldAssignment::add(&mut cs, &a.0, &b.0), o.add(&a.1, &b.1)));
                log.push("add".into());
            }
            6 => {
                let (a, b) = (any(&mut rng, &vs), any(&mut rng, &vs));
                vs.push(V(&a.0 + &b.0, o.add(&a.1, &b.1)));
                log.push("+".into());
            }
            7 => {
                let (a, b) = (any(&mut rng, &vs), any(&mut rng, &vs));
                vs.push(V(&a.0 - &b.0, o.sub(&a.1, &b.1)));
                log.push("-".into());
            }
            8 => {
                let a = any(&mut rng, &vs);
                vs.push(V(-&a.0, o.neg(&a.1)));
                log.push("neg".into());
            }
            // stated relations
            n => {
                relations += 1;
                let (a, b) = (any(&mut rng, &vs), any(&mut rng, &vs));
                let (mut left, mut name) = (BigUint::zero(), "");
                // value the third operand must have
                match n {
                    9 | 10 => {
                        left = o.mul(&a.1, &b.1);
                        name = "mul_gate"
                    }
                    11 => {
                        left = o.add(&a.1, &b.1);
                        name = "add_gate"
                    }
                    12 => {
                        left = o.sub(&a.1, &b.1);
                        name = "sub_gate"
                    }
                    13 => {
                        left = a.1.clone();
                        name = "equal_gate"
                    }
                    14 => {
                        left = a.1.clone();
                        name = "enforce_eq"
                    }
                    15 => {
                        left = a.1.clone();
                        name = "enforce_eq_constant"
                    }
                    _ => {}
                }
                if n >= 16 {
                    // conditional equality with an explicit bit
                    let bit = below(&mut rng, 2) as u8;
                    let (same, cond) = (below(&mut rng, 2) == 0, bit == 1);
                    let y = if same && !lie { a.1.clone() } else if cond && !lie { a.1.clone() } else { o.add(&a.1, &delta(&mut rng)) };
                    let holds = !cond || y == a.1;
                    want &= holds;
                    let yv = if below(&mut rng, 2) == 0 { FieldAssignment::witness(&mut cs, k(&y)) } else { FieldAssignment::constant(&k(&y)) };
                    let bw = if below(&mut rng, 2) == 0 { BinaryAssignment::witness(&mut cs, bit) } else { BinaryAssignment::instance(&mut cs, bit) };
                    FieldAssignment::conditional_enforce_equal(&mut cs, &a.0, &yv, &bw);
                    log.push(format!("cond_eq(bit={bit},{holds})"));
                    continue;
                }
                let right = if lie { o.add(&left, &delta(&mut rng)) } else { left.clone() };
                want &= right == left;
                let c: FieldAssignment<S<C>> = match below(&mut rng, 4) {
                    0 => FieldAssignment::constant(&k(&right)),
                    1 => FieldAssignment::instance(&mut cs, k(&right)),
                    2 => {
                        // a compound expression with the right value
                        let part = any(&mut rng, &vs);
                        let rest = FieldAssignment::witness(&mut cs, k(&o.sub(&right, &part.1)));
                        &part.0 + &rest
                    }
                    _ => FieldAssignment::witness(&mut cs, k(&right)),
                };
                match n {
                    9 => cs.mul_gate(a.0.inner(), b.0.inner(), c.inner()),
                    10 => cs.mul_gate(b.0.inner(), a.0.inner(), c.inner()),
                    11 => cs.add_gate(a.0.inner(), b.0.inner(), c.inner()),
                    12 => cs.sub_gate(a.0.inner(), b.0.inner(), c.inner()),
                    13 => cs.equal_gate(a.0.inner(), c.inner()),
                    14 => FieldAssignment::enforce_eq(&mut cs, &a.0, &c),
                    _ => FieldAssignment::enforce_eq_constant(&mut cs, &a.0, &k(&right)),
                }
                log.push(format!("{name}({})", right == left));
            }
        }
        if let Some(v) = vs.last() {
            if values_ok.is_ok() && v.0.value(&cs).big() != v.1 {
                values_ok = fail("value", format!("step {i} of {log:?}: value {:x} want {:x}", v.0.value(&cs).big(), v.1));
            }
        }
    }
    // every expression still denotes its value at the end
    cx.count(if want { "satisfied programs" } else { "violated programs" }, 1);
    cx.count("stated relations", relations);
    cx.count("constraints", cs.m());
    cx.sample(|| format!("{log:?} satisfied={want}"));
    cx.case(seed_key, relations > 0, || {
        values_ok?;
        for (i, v) in vs.iter().enumerate() {
            if v.0.value(&cs).big() != v.1 {
                return fail("value", format!("expression {i} of {log:?} changed its value to {:x}, want {:x}", v.0.value(&cs).big(), v.1));
            }
        }
        eqv!(cs.is_sat(), want, "is_sat of {log:?}");
        // the published rows say the same
        let (a, b, c) = cs.evaluate();
        ensure!(a.len() == b.len() && b.len() == c.len() && a.len() as u64 == cs.m(), "row evaluations: {} {} {} rows, m={}", a.len(), b.len(), c.len(), cs.m());
        eqv!(a.iter().zip(&b).zip(&c).all(|((a, b), c)| *a * *b == *c), want, "row evaluations of {log:?}");
        let sys = System::of(&cs);
        eqv!(sys.broken(&System::z(&cs)).is_empty(), want, "published columns of {log:?}");
        ensure!(cs.x()[0] == S::<C>::one(), "the first public wire is the constant one");
        Ok(())
    });
}

fn driver<C: CircuitDriver + 'static>(c: &mut Check, name: &'static str)
where
    C::Scalar: KField,
{
    c.sharded(&format!("{name}/programs"), 2, |cx| {
        for _ in 0..cx.n(5000, 150_000) {
            if cx.full() {
                break;
            }
            let len = 1 + below(&mut cx.rng, 24);
            program::<C>(cx, len);
        }
    });
    c.class(&format!("{name}/long-programs"), |cx| {
        for _ in 0..cx.n(150, 4000) {
            if cx.full() {
                break;
            }
            let len = 100 + below(&mut cx.rng, 150);
            program::<C>(cx, len);
        }
    });
    // exactly one false relation among n, at every position
    c.class(&format!("{name}/single-false-row"), |cx| {
        for n in 1..cx.n(24, 70) {
            for bad in 0..n {
                if cx.full() {
                    return;
                }
                let kind = below(&mut cx.rng, 3);
                cx.case((n, bad, kind), true, || {
                    let mut cs: R1cs<C> = R1cs::default();
                    for i in 0..n {
                        let v = C::Scalar::from(i + 2);
                        let a = if i % 2 == 0 { FieldAssignment::instance(&mut cs, v) } else { FieldAssignment::witness(&mut cs, v) };
                        let d = if i == bad { C::Scalar::one() } else { zero_f::<C::Scalar>() };
                        let (sq, tw) = (v * v + d, v + v + d);
                        match kind {
                            0 => {
                                let s = FieldAssignment::witness(&mut cs, sq);
                                cs.mul_gate(a.inner(), a.inner(), s.inner());
                            }
                            1 => {
                                let s = FieldAssignment::instance(&mut cs, tw);
                                cs.add_gate(a.inner(), a.inner(), s.inner());
                            }
                            _ => FieldAssignment::enforce_eq_constant(&mut cs, &a, &(v + d)),
                        }
                    }
                    ensure!(!cs.is_sat(), "{n} relations, number {bad} is false (kind {kind}), reported satisfied");
                    Ok(())
                });
            }
        }
    });
    c.class(&format!("{name}/empty"), |cx| {
        cx.case("empty", true, || {
            let cs: R1cs<C> = R1cs::default();
            ensure!(cs.is_sat(), "a system without relations is satisfied");
            eqv!((cs.m(), cs.l(), cs.m_l_1()), (0, 1, 0), "sizes of the empty system");
            Ok(())
        });
    });
}

fn main() {
    let mut c = Check::new("P13", "programs that state at least one relation, distinct");
    c.assume("the shadow values are integers modulo the field, computed beside the code");
    driver::<zkgroth16::Bn254Driver>(&mut c, "groth16-bn254");
    driver::<zknova::Bn254Driver>(&mut c, "nova-bn254");
    driver::<zknova::GrumpkinDriver>(&mut c, "nova-grumpkin");
    c.run()
}
