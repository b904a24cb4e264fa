//! P20: a setup yields the textbook proving and verifying keys of the circuit, from fresh independent secrets.
use kmon::g16::*;
use kmon::prelude::*;
use kmon::{ensure, eqv};
use bn_254::{AteParing, Fr, G1Affine, G1Projective, G2Affine, G2PairingAffine, G2Projective};
use std::collections::HashMap;
use zkgroth16::Prover;
use zkstd::common::*;

fn spec(cx: &mut Cx) -> Spec {
    let (kind, len) = match below(&mut cx.rng, 6) {
        0 => (Kind::Wide, 1 + below(&mut cx.rng, 6)),
        1 => (Kind::Unused, 1 + below(&mut cx.rng, 4)),
        2 => (Kind::Gadget(*pick(&mut cx.rng, SMALL)), 0),
        _ => (Kind::Program, below(&mut cx.rng, 14)),
    };
    Spec { shape: cx.rng.next_u64(), vals: cx.rng.next_u64(), len, lie: None, kind }
}
fn pair(a: G1Affine, b: G2Affine) -> bn_254::Gt {
    AteParing::pairing(a, b)
}

/// relations anyone can check: no secrets needed
fn public(cx: &mut Cx) {
    for _ in 0..cx.n(4, 60) {
        if cx.full() {
            break;
        }
        let s = spec(cx);
        let seed = cx.rng.next_u64();
        let Ok(Ok((p, _))) = guard(|| setup(&s, seed)) else { continue };
        let cs = r1cs(&s);
        let k = &p.params;
        let (g1, g2) = (G1Affine::ADDITIVE_GENERATOR, G2Affine::ADDITIVE_GENERATOR);
        cx.count("key elements", (k.h.len() + k.l.len() + k.a.len() + 2 * k.b_g1.len() + k.vk.ic.len() + 6) as u64);
        cx.sample(|| format!("{s:?}"));
        cx.case((format!("{s:?}"), seed), true, || {
            eqv!((k.vk.ic.len(), k.l.len(), k.a.len(), k.b_g1.len(), k.b_g2.len()), (cs.l(), cs.m_l_1(), cs.l() + cs.m_l_1(), cs.l() + cs.m_l_1(), cs.l() + cs.m_l_1()), "{s:?}: sizes of the queries");
            for (n, q) in [("h", &k.h), ("l", &k.l), ("a", &k.a), ("b_g1", &k.b_g1), ("ic", &k.vk.ic)] {
                ensure!(q.iter().all(|x| x.is_on_curve()), "{s:?}: an element of {n} is off the curve");
            }
            ensure!(k.b_g2.iter().all(|x| x.is_on_curve()), "{s:?}: an element of b_g2 is off the curve");
            let e = pair(g1, g2);
            ensure!(pair(k.vk.beta_g1, g2) == pair(g1, k.vk.beta_g2), "{s:?}: beta differs between the groups");
            ensure!(pair(k.vk.delta_g1, g2) == pair(g1, k.vk.delta_g2), "{s:?}: delta differs between the groups");
            for (i, (b1, b2)) in k.b_g1.iter().zip(&k.b_g2).enumerate() {
                ensure!(pair(*b1, g2) == pair(g1, *b2), "{s:?}: b query {i} differs between the groups");
            }
            // degenerate or related secrets
            let one = [pair(k.vk.alpha_g1, g2), pair(g1, k.vk.beta_g2), pair(g1, k.vk.gamma_g2), pair(g1, k.vk.delta_g2)];
            for (i, a) in one.iter().enumerate() {
                ensure!(*a != e && !k.vk.alpha_g1.is_identity(), "{s:?}: secret {i} is one");
                ensure!(*a != pair(G1Affine::ADDITIVE_IDENTITY, g2), "{s:?}: secret {i} is zero");
                for (j, b) in one.iter().enumerate().take(i) {
                    ensure!(a != b, "{s:?}: secrets {j} and {i} coincide");
                }
            }
            // h is a geometric progression that reaches the degree of the quotient
            let rows = cs.m().max(2);
            ensure!(k.h.len() as u64 + 1 >= rows, "{s:?}: {} powers for {rows} constraints", k.h.len());
            Ok(())
        });
    }
}

/// Intervenes on the random stream, a byte at a time: each secret of the key shows in elements of its own, must depend on
/// enough of the stream, and no two may depend on the same bytes.
fn independence(cx: &mut Cx) {
    for _ in 0..cx.n(3, 12) {
        if cx.full() {
            break;
        }
        let s = Spec { shape: cx.rng.next_u64(), vals: cx.rng.next_u64(), len: 2 + below(&mut cx.rng, 3), lie: None, kind: Kind::Program };
        let seed = cx.rng.next_u64();
        let mut seen = 0;
        cx.sample(|| format!("{s:?}"));
        cx.case((format!("{s:?}"), seed, "flip"), true, || {
            let mut mk = |from: u64, to: u64| {
                let mut r = Flip::new(seed, from, to);
                let p = guard(|| setup_with(&s, &mut r).ok()).ok().flatten()?.0.params;
                seen += 1;
                // tau alone shows in the values of the polynomials there
                let tau: Vec<_> = p.a.iter().map(|q| q.encode()).collect();
                let v = p.vk;
                Some(([v.alpha_g1.encode(), v.beta_g2.encode(), v.gamma_g2.encode(), v.delta_g2.encode(), tau.concat()], r.at))
            };
            let Some((base, total)) = mk(0, 0) else { return Ok(()) };
            let step = (total / 512).max(1);
            let mut on: [Vec<bool>; 5] = Default::default();
            let mut at = 0;
            while at < total {
                if let Some((x, _)) = mk(at, at + step) {
                    for i in 0..5 {
                        on[i].push(x[i] != base[i]);
                    }
                }
                at += step;
            }
            let names = ["alpha", "beta", "gamma", "delta", "tau"];
            for i in 0..5 {
                let bytes = step * on[i].iter().filter(|x| **x).count() as u64;
                ensure!(bytes >= 28, "{s:?}: {} depends on {bytes} bytes of randomness, a scalar has 32", names[i]);
                for j in 0..i {
                    ensure!(on[i] != on[j], "{s:?}: {} and {} depend on the same randomness", names[j], names[i]);
                }
            }
            Ok(())
        });
        cx.count("interventions on the random stream", seen);
    }
}

/// every element of the key recomputed from the secrets
fn exact(cx: &mut Cx) {
    let r = Fp::new(r_mod());
    for _ in 0..cx.n(6, 120) {
        if cx.full() {
            break;
        }
        let s = spec(cx);
        let seed = cx.rng.next_u64();
        let Ok(Ok((p, _))) = guard(|| setup(&s, seed)) else { continue };
        let Some(t) = trapdoor(seed, &p) else {
            cx.count("setups whose secrets could not be recognised", 1);
            continue;
        };
        let cs = r1cs(&s);
        let k = &p.params;
        let n = k.h.len() as u64 + 1;
        cx.count("constraints", cs.m());
        cx.sample(|| format!("{s:?} domain {n}"));
        cx.case((format!("{s:?}"), seed), true, || {
            ensure!(n.is_power_of_two() && n >= cs.m(), "{s:?}: a domain of {n} for {} constraints", cs.m());
            let G = |x: Fr| G1Affine::from(G1Affine::ADDITIVE_GENERATOR * x);
            // tau: the drawn scalar with h_0 = (tau^n - 1) / delta
            let z = |tau: &Fr| Fr::of(&r.sub(&r.pow(&tau.big(), &BigUint::from(n)), &BigUint::one()));
            let di = t.delta.invert().unwrap();
            let Some(tau) = t.rest.iter().find(|x| G(z(x) * di) == k.h[0]) else { return fail("h", format!("{s:?}: h_0 is not (tau^{n} - 1)/delta for any drawn tau")) };
            ensure!(![t.alpha, t.beta, t.gamma, t.delta].contains(tau), "{s:?}: tau is another secret");
            let mut cur = z(tau) * di;
            for (i, h) in k.h.iter().enumerate() {
                ensure!(*h == G(cur), "{s:?}: h_{i} is not tau^{i} (tau^{n} - 1)/delta");
                cur *= *tau;
            }
            // Lagrange basis at tau over the subgroup of order n: L_j = w^j (tau^n - 1) / (n (tau - w^j))
            let w = r.pow(&Fr::ROOT_OF_UNITY.big(), &BigUint::from((1u64 << Fr::S) / n));
            let ni = r.inv(&BigUint::from(n)).unwrap();
            let mut lag = vec![];
            let mut wj = BigUint::one();
            for _ in 0..n {
                let d = r.inv(&r.mul(&BigUint::from(n), &r.sub(&tau.big(), &wj))).unwrap();
                lag.push(Fr::of(&r.mul(&r.mul(&wj, &z(tau).big()), &d)));
                wj = r.mul(&wj, &w);
            }
            let _ = ni;
            let ((ax, bx, cx_), (aw, bw, cw)) = cs.z_vectors(cs.l(), cs.m_l_1());
            let at = |c: &Vec<(Fr, usize)>| c.iter().fold(Fr::zero(), |s, (v, j)| s + lag[*j] * *v);
            let gi = t.gamma.invert().unwrap();
            let lag_points: HashMap<String, usize> = lag.iter().enumerate().map(|(j, l)| (format!("{:?}", G(*l)), j)).collect();
            let mut seen = vec![];
            for (i, ((a, b), c)) in ax.iter().zip(&bx).zip(&cx_).enumerate() {
                // a public input has a relation of its own besides those of the circuit
                let own = G1Affine::from(G1Projective::from(k.a[i]) - G(at(a)));
                let Some(j) = lag_points.get(&format!("{own:?}")) else { return fail("a", format!("{s:?}: a query of public input {i}")) };
                ensure!(*j as u64 >= cs.m() && !seen.contains(j), "{s:?}: public input {i} shares a relation");
                seen.push(*j);
                ensure!(k.b_g1[i] == G(at(b)), "{s:?}: b query of public input {i}");
                let ext = (at(b) * t.alpha + at(c) + (at(a) + lag[*j]) * t.beta) * gi;
                ensure!(k.vk.ic[i] == G(ext), "{s:?}: ic element of public input {i}");
            }
            let l = cs.l();
            for (i, ((a, b), c)) in aw.iter().zip(&bw).zip(&cw).enumerate() {
                ensure!(k.a[l + i] == G(at(a)), "{s:?}: a query of private wire {i}");
                ensure!(k.b_g1[l + i] == G(at(b)), "{s:?}: b query of private wire {i}");
                ensure!(k.b_g2[l + i] == G2Affine::from(G2Projective::from(G2Affine::ADDITIVE_GENERATOR) * at(b)), "{s:?}: b query in G2 of private wire {i}");
                ensure!(k.l[i] == G((at(b) * t.alpha + at(c) + at(a) * t.beta) * di), "{s:?}: l element of private wire {i}");
            }
            Ok(())
        });
    }
}

/// two ceremonies share no secret; the same randomness gives the same keys
fn fresh(cx: &mut Cx) {
    for _ in 0..cx.n(6, 80) {
        if cx.full() {
            break;
        }
        let s = spec(cx);
        let (s1, s2) = (cx.rng.next_u64(), cx.rng.next_u64());
        let mk = |seed| guard(|| setup(&s, seed).ok().map(|k| k.0)).ok().flatten();
        let (Some(a), Some(b), Some(c)) = (mk(s1), mk(s2), mk(s1)) else { continue };
        let ratio = |p: &Prover| -> (G1Affine, G2Affine) { (p.params.h[0], p.params.vk.delta_g2) };
        cx.count("pairs of ceremonies", 1);
        cx.case((format!("{s:?}"), s1, s2), true, || {
            let (x, y) = (&a.params.vk, &b.params.vk);
            ensure!(x.alpha_g1 != y.alpha_g1, "{s:?}: two ceremonies share alpha");
            ensure!(x.beta_g1 != y.beta_g1, "{s:?}: two ceremonies share beta");
            ensure!(x.gamma_g2 != y.gamma_g2, "{s:?}: two ceremonies share gamma");
            ensure!(x.delta_g1 != y.delta_g1, "{s:?}: two ceremonies share delta");
            // tau: e(h_0, delta) = tau^n - 1
            let ((h1, d1), (h2, d2)) = (ratio(&a), ratio(&b));
            ensure!(pair(h1, d1) != pair(h2, d2), "{s:?}: two ceremonies share tau");
            let same = format!("{:?}", a.params) == format!("{:?}", c.params);
            ensure!(same, "{s:?}: the same randomness gives different keys");
            Ok(())
        });
    }
}
/// the keys depend on the structure of the circuit alone
fn structure(cx: &mut Cx) {
    for _ in 0..cx.n(6, 80) {
        if cx.full() {
            break;
        }
        let s = spec(cx);
        let mut s2 = s.clone();
        s2.vals = cx.rng.next_u64();
        let seed = cx.rng.next_u64();
        let mk = |s: &Spec| guard(|| setup(s, seed).ok().map(|k| k.0)).ok().flatten();
        let (Some(a), Some(b)) = (mk(&s), mk(&s2)) else { continue };
        cx.count("pairs of instances", 1);
        cx.case((format!("{s:?}"), s2.vals), true, || {
            ensure!(format!("{:?}", a.params) == format!("{:?}", b.params), "{s:?}: keys made from other values ({}) differ", s2.vals);
            Ok(())
        });
    }
}

fn main() {
    let mut c = Check::new("P20", "distinct (circuit structure, ceremony randomness) whose whole key was recomputed or cross-checked");
    for i in 0..3 {
        c.heavy(&format!("exact~{i}"), exact);
        c.heavy(&format!("public~{i}"), public);
    }
    c.heavy("independence", independence);
    c.class("fresh", fresh);
    c.class("structure", structure);
    c.run()
}
