//! P19: Groth16 soundness as seen by a verifier: acceptance exactly when the proof equation holds for that statement.
use kmon::g16::*;
use kmon::prelude::*;
use kmon::{ensure, eqv};
use bn_254::{Fr, G1Affine, G1Projective, G2Affine};
use zkgroth16::{Error, Proof, Prover, Verifier};
use zkstd::common::*;

struct Key {
    spec: Spec,
    seed: u64,
    prover: Prover,
    verifier: Verifier,
}
fn key(cx: &mut Cx, kind: Kind, len: u64) -> Option<Key> {
    let spec = Spec { shape: cx.rng.next_u64(), vals: cx.rng.next_u64(), len, lie: None, kind };
    let seed = cx.rng.next_u64();
    let (prover, verifier) = guard(|| setup(&spec, seed).ok()).ok()??;
    Some(Key { spec, seed, prover, verifier })
}
fn prove(k: &mut Key, inst: &Spec, seed: u64) -> Option<Proof> {
    guard(|| with_spec(inst, || k.prover.create_proof(&mut ChaCha20Rng::seed_from_u64(seed), Drawn(inst.clone())).ok())).ok()?
}
fn any_kind(cx: &mut Cx) -> (Kind, u64) {
    match below(&mut cx.rng, 8) {
        0 => (Kind::Wide, 1 + below(&mut cx.rng, 9)),
        1 => (Kind::Unused, 1 + below(&mut cx.rng, 4)),
        2 | 3 => {
            let n = *pick(&mut cx.rng, SMALL);
            (Kind::Gadget(n), 0)
        }
        _ => (Kind::Program, 1 + below(&mut cx.rng, 14)),
    }
}

fn false_statements(cx: &mut Cx) {
    for _ in 0..cx.n(24, 400) {
        if cx.full() {
            break;
        }
        let len = 1 + below(&mut cx.rng, 18);
        let gadget = below(&mut cx.rng, 3) == 0;
        let kind = if gadget { Kind::Gadget(*pick(&mut cx.rng, &["is-eq", "range-check-bits", "conditional-enforce-equal", "enforce-eq", "point-assert-equal", "inputize"])) } else { Kind::Program };
        let Some(mut k) = key(cx, kind, len) else { continue };
        for _ in 0..4 {
            let mut inst = k.spec.clone();
            inst.vals = cx.rng.next_u64();
            inst.lie = if gadget { None } else { Some(below(&mut cx.rng, len)) };
            let cs = r1cs(&inst);
            if sat(&cs) {
                continue;
            }
            let seed = cx.rng.next_u64();
            cx.count("false statements", 1);
            cx.sample(|| format!("false: {inst:?}"));
            cx.case(format!("{inst:?}"), true, || {
                if let Some(p) = prove(&mut k, &inst, seed) {
                    ensure!(k.verifier.verify(&p, &publics(&cs)).is_err(), "a proof of the false statement {inst:?} (m={}) was accepted", cs.m());
                }
                Ok(())
            });
        }
    }
}

fn wrong_inputs(cx: &mut Cx) {
    for _ in 0..cx.n(24, 400) {
        if cx.full() {
            break;
        }
        let (kind, len) = any_kind(cx);
        let Some(mut k) = key(cx, kind, len) else { continue };
        let inst = k.spec.clone();
        let cs = r1cs(&inst);
        if !sat(&cs) {
            continue;
        }
        let x = publics(&cs);
        let seed = cx.rng.next_u64();
        let Some(p) = prove(&mut k, &inst, seed) else { continue };
        if k.verifier.verify(&p, &x).is_err() {
            // completeness is another property's business
            continue;
        }
        for j in 0..8u64 {
            let mut y = x.clone();
            let i = if y.is_empty() { 0 } else { below(&mut cx.rng, y.len() as u64) as usize };
            let what = match (j, y.len()) {
                (0..=3, 1..) => {
                    let d = match j {
                        0 => Fr::one(),
                        1 => -Fr::one(),
                        2 => -y[i].double(),
                        _ => Fr::of(&gen_rand(&mut cx.rng, &r_mod())),
                    };
                    y[i] += d;
                    "one input changed"
                }
                (4, 2..) => {
                    let e = below(&mut cx.rng, y.len() as u64) as usize;
                    y.swap(i, e);
                    "two inputs swapped"
                }
                (5, 2..) => {
                    y.rotate_left(1);
                    "inputs rotated"
                }
                (6, 1..) => {
                    y = y.iter().map(|v| -*v).collect();
                    "inputs negated"
                }
                (7, 1..) => {
                    let n = y.len();
                    y[n - 1] += Fr::one();
                    "last input changed"
                }
                _ => continue,
            };
            if y == x {
                continue;
            }
            // an input no constraint of the circuit mentions is part of the statement all the same
            let d: Vec<Fr> = x.iter().zip(&y).map(|(a, b)| *a - *b).collect();
            cx.count(if invisible(&cs, &d) { "wrong inputs no relation mentions" } else { "wrong inputs" }, 1);
            cx.sample(|| format!("{what}: {inst:?}"));
            cx.case((format!("{inst:?}"), j, i), true, || {
                ensure!(k.verifier.verify(&p, &y).is_err(), "{inst:?}: proof for {x:?} accepted for {y:?} ({what})");
                Ok(())
            });
        }
        // number of inputs
        let lens: Vec<usize> = [0, x.len().saturating_sub(1), x.len() + 1, x.len() + 7, 2 * x.len() + 1].into_iter().filter(|n| *n != x.len()).collect();
        for n in lens {
            let zero_pad = below(&mut cx.rng, 2) == 0;
            let y: Vec<Fr> = (0..n).map(|i| if i < x.len() { x[i] } else if zero_pad { Fr::zero() } else { Fr::one() }).collect();
            cx.count("wrong number of inputs", 1);
            cx.case((format!("{inst:?}"), "len", n), true, || {
                match guard(|| k.verifier.verify(&p, &y)) {
                    Ok(Err(Error::InconsistentPublicInputsLen { expected, provided })) => {
                        eqv!((expected, provided), (x.len(), n), "reported lengths");
                        Ok(())
                    }
                    Ok(r) => fail("length", format!("{n} inputs instead of {}: {r:?}", x.len())),
                    Err(e) => fail("length", format!("{n} inputs instead of {}: panicked: {e}", x.len())),
                }
            });
        }
    }
}

fn cross(cx: &mut Cx) {
    for _ in 0..cx.n(12, 250) {
        if cx.full() {
            break;
        }
        let (kind, len) = any_kind(cx);
        let Some(mut k1) = key(cx, kind, len) else { continue };
        let inst = k1.spec.clone();
        let cs = r1cs(&inst);
        if !sat(&cs) {
            continue;
        }
        let x = publics(&cs);
        let (s2, pr) = (cx.rng.next_u64(), cx.rng.next_u64());
        let Some(p) = prove(&mut k1, &inst, pr) else { continue };
        // another ceremony for the same circuit
        let Some((_, v2)) = guard(|| setup(&inst, s2).ok()).ok().flatten() else { continue };
        cx.count("keys of another ceremony", 1);
        cx.case((format!("{inst:?}"), s2), true, || {
            ensure!(v2.verify(&p, &x).is_err(), "a proof of {inst:?} was accepted by the key of another ceremony");
            Ok(())
        });
        // another circuit, as many inputs, same randomness
        let mut other = inst.clone();
        for _ in 0..20 {
            other.shape = cx.rng.next_u64();
            let ocs = r1cs(&other);
            if ocs.l() == cs.l() && format!("{:?}", ocs.matrices()) != format!("{:?}", cs.matrices()) {
                let mut z = ocs.clone();
                let _ = &mut z;
                let Some((_, v3)) = guard(|| setup(&other, k1.seed).ok()).ok().flatten() else { break };
                // the same proof equation arises only if the input columns agree
                let ((a1, b1, c1), _) = cs.z_vectors(cs.l(), cs.m_l_1());
                let ((a2, b2, c2), _) = ocs.z_vectors(ocs.l(), ocs.m_l_1());
                if format!("{:?}", (a1, b1, c1, cs.m().max(2).next_power_of_two())) == format!("{:?}", (a2, b2, c2, ocs.m().max(2).next_power_of_two())) {
                    break;
                }
                // ... or if they differ only where the inputs do not see it
                let lin = |c: &zkstd::r1cs::R1cs<zkgroth16::Bn254Driver>| {
                    let ((a, b, d), _) = c.z_vectors(c.l(), c.m_l_1());
                    let z = c.x().iter().take(1).copied().chain(x.iter().copied()).collect::<Vec<_>>();
                    let mut out = std::collections::BTreeMap::new();
                    for (t, m) in [a, b, d].iter().enumerate() {
                        for (col, zi) in m.iter().zip(&z) {
                            for (v, r) in col {
                                *out.entry((t, *r)).or_insert_with(Fr::zero) += *v * *zi;
                            }
                        }
                    }
                    out.retain(|_, v| *v != Fr::zero());
                    format!("{out:?}")
                };
                if lin(&cs) == lin(&ocs) {
                    break;
                }
                cx.count("keys of another circuit", 1);
                cx.case((format!("{inst:?}"), other.shape), true, || {
                    ensure!(v3.verify(&p, &x).is_err(), "a proof of {inst:?} was accepted by the key of {other:?}");
                    Ok(())
                });
                break;
            }
        }
    }
}

/// The verifier decides exactly the proof equation: with the trapdoor, triples that satisfy it by construction
/// (for any inputs, true or not) and triples that miss it by a chosen amount.
#[cfg(kogarashi_verif)]
fn equation(cx: &mut Cx) {
    use zkgroth16::verif::*;
    for _ in 0..cx.n(10, 150) {
        if cx.full() {
            break;
        }
        let (kind, len) = any_kind(cx);
        let Some(k) = key(cx, kind, len) else { continue };
        let Some(t) = trapdoor(k.seed, &k.prover) else {
            cx.count("setups whose secrets could not be recognised", 1);
            continue;
        };
        let n = r1cs(&k.spec).l() - 1;
        let (g1, g2) = (G1Affine::ADDITIVE_GENERATOR, G2Affine::ADDITIVE_GENERATOR);
        let di = t.delta.invert().unwrap();
        for _ in 0..3 {
            let r = r_mod();
            let x: Vec<Fr> = (0..n).map(|_| Fr::of(&gen_val(&mut cx.rng, &r))).collect();
            let ic = x.iter().zip(&k.prover.params.vk.ic[1..]).fold(G1Projective::from(k.prover.params.vk.ic[0]), |s, (i, b)| s + *b * *i);
            let nz = |rng: &mut ChaCha20Rng| loop {
                let v = gen_val(rng, &r_mod());
                if !v.is_zero() {
                    break Fr::of(&v);
                }
            };
            let (a, b) = match below(&mut cx.rng, 4) {
                0 => (Fr::zero(), nz(&mut cx.rng)),
                1 => (nz(&mut cx.rng), Fr::zero()),
                _ => (nz(&mut cx.rng), nz(&mut cx.rng)),
            };
            let c = G1Projective::from(g1) * ((a * b - t.alpha * t.beta) * di) - ic * (t.gamma * di);
            for m in 0..10 {
                let (mut a2, mut b2, mut e) = (a, b, Fr::zero());
                let mut neg_c = false;
                let k1 = nz(&mut cx.rng);
                match m {
                    0 => {}
                    1 => {
                        a2 = a * k1;
                        b2 = b * k1.invert().unwrap()
                    }
                    2 => {
                        a2 = -a;
                        b2 = -b
                    }
                    3 => a2 = -a,
                    4 => b2 = b + Fr::one(),
                    5 => e = Fr::one(),
                    6 => e = k1,
                    7 => {
                        a2 = a + k1;
                        e = k1 * b * di
                    }
                    8 => neg_c = true,
                    _ => std::mem::swap(&mut a2, &mut b2),
                }
                let c2 = G1Affine::from(if neg_c { -c } else { c + g1 * e });
                let want = if neg_c { a2 * b2 == a * b && c.is_identity() } else { a2 * b2 == a * b + e * t.delta };
                cx.count(if want { "triples satisfying the equation" } else { "triples missing the equation" }, 1);
                cx.sample(|| format!("a={a2:?} b={b2:?} c+={e:?} -> {want}"));
                cx.case((k.seed, format!("{a2:?}{b2:?}{e:?}{neg_c}{x:?}")), true, || {
                    let p = proof_from_parts((g1 * a2).into(), (g2 * b2).into(), c2);
                    eqv!(k.verifier.verify(&p, &x).is_ok(), want, "{:?} a={a2:?} b={b2:?} c off by {e:?} (negated {neg_c}), inputs {x:?}", k.spec);
                    Ok(())
                });
            }
        }
    }
}
/// honest proofs with one element damaged
#[cfg(kogarashi_verif)]
fn tampered(cx: &mut Cx) {
    use zkgroth16::verif::*;
    for _ in 0..cx.n(10, 150) {
        if cx.full() {
            break;
        }
        let (kind, len) = any_kind(cx);
        let Some(mut k) = key(cx, kind, len) else { continue };
        let inst = k.spec.clone();
        let cs = r1cs(&inst);
        let x = publics(&cs);
        let (s1, s2) = (cx.rng.next_u64(), cx.rng.next_u64());
        if !sat(&cs) {
            continue;
        }
        let (Some(p), Some(q)) = (prove(&mut k, &inst, s1), prove(&mut k, &inst, s2)) else { continue };
        if k.verifier.verify(&p, &x).is_err() {
            continue;
        }
        let ((a, b, c), (a2, b2, c2)) = (proof_parts(&p), proof_parts(&q));
        let (i1, i2) = (G1Affine::ADDITIVE_IDENTITY, G2Affine::ADDITIVE_IDENTITY);
        let (g1, g2) = (G1Affine::ADDITIVE_GENERATOR, G2Affine::ADDITIVE_GENERATOR);
        let v = &k.prover.params.vk;
        let all: Vec<(&str, G1Affine, G2Affine, G1Affine)> = vec![
            ("A negated", -a, b, c),
            ("B negated", a, -b, c),
            ("C negated", a, b, -c),
            ("A is the identity", i1, b, c),
            ("B is the identity", a, i2, c),
            ("C is the identity", a, b, i1),
            ("all identity", i1, i2, i1),
            ("A and C exchanged", c, b, a),
            ("A + G", (a + g1).into(), b, c),
            ("B + G", a, (b + g2).into(), c),
            ("C + G", a, b, (c + g1).into()),
            ("C doubled", a, b, (c + c).into()),
            ("A of another proof", a2, b, c),
            ("B of another proof", a, b2, c),
            ("C of another proof", a, b, c2),
            ("alpha, beta, identity", v.alpha_g1, v.beta_g2, i1),
            ("alpha, beta, ic", v.alpha_g1, v.beta_g2, v.ic[0]),
        ];
        for (what, a, b, c) in all {
            // alpha and beta alone satisfy the equation when nothing is added by the inputs
            if what == "alpha, beta, identity" {
                let ic = x.iter().zip(&v.ic[1..]).fold(G1Projective::from(v.ic[0]), |s, (i, b)| s + *b * *i);
                if ic.is_identity() {
                    continue;
                }
            }
            cx.count("damaged proofs", 1);
            cx.sample(|| what.to_string());
            cx.case((format!("{inst:?}"), what), true, || {
                let r = guard(|| k.verifier.verify(&proof_from_parts(a, b, c), &x));
                match r {
                    Ok(Err(_)) => Ok(()),
                    Ok(Ok(())) => fail("", format!("{inst:?}: proof with {what} accepted")),
                    Err(e) => fail("panic", format!("{inst:?}: verifying a proof with {what} panicked: {e}")),
                }
            });
        }
    }
}

fn main() {
    let mut c = Check::new("P19", "distinct (circuit, instance, deviation); every deviation is a false, altered or misdirected statement or proof");
    for i in 0..3 {
        c.heavy(&format!("false-statements~{i}"), false_statements);
        c.heavy(&format!("wrong-inputs~{i}"), wrong_inputs);
        c.heavy(&format!("other-keys~{i}"), cross);
    }
    #[cfg(kogarashi_verif)]
    for i in 0..3 {
        c.heavy(&format!("proof-equation~{i}"), equation);
        c.heavy(&format!("damaged-proofs~{i}"), tampered);
    }
    c.run()
}
