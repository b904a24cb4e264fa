//! P21: Groth16 proofs are blinded by fresh randomness, leave the key alone, and are not made under a subverted key.
use kmon::g16::*;
use kmon::prelude::*;
use kmon::{ensure, eqv};
use bn_254::{AteParing, Fr, G1Affine, G1Projective, G2Affine, G2Projective};
use zkgroth16::{Error, Prover, Verifier};
use zkstd::common::*;

fn spec(cx: &mut Cx) -> Spec {
    let (kind, len) = match below(&mut cx.rng, 5) {
        0 => (Kind::Wide, 1 + below(&mut cx.rng, 6)),
        1 => (Kind::Gadget(*pick(&mut cx.rng, SMALL)), 0),
        _ => (Kind::Program, 1 + below(&mut cx.rng, 10)),
    };
    Spec { shape: cx.rng.next_u64(), vals: cx.rng.next_u64(), len, lie: None, kind }
}
fn key(cx: &mut Cx, s: &Spec) -> Option<(Prover, Verifier)> {
    let seed = cx.rng.next_u64();
    guard(|| setup(s, seed).ok()).ok().flatten()
}
/// counts what the prover draws
struct Counting(ChaCha20Rng, u64);
impl RngCore for Counting {
    fn next_u32(&mut self) -> u32 {
        self.1 += 4;
        self.0.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.1 += 8;
        self.0.next_u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.1 += d.len() as u64;
        self.0.fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

fn draws(cx: &mut Cx) {
    for _ in 0..cx.n(10, 200) {
        if cx.full() {
            break;
        }
        let s = spec(cx);
        let Some((mut p, v)) = key(cx, &s) else { continue };
        let cs = r1cs(&s);
        if !sat(&cs) {
            continue;
        }
        let before = format!("{:?}", p.params);
        let seed = cx.rng.next_u64();
        cx.count("proofs", 2);
        cx.case(format!("{s:?}"), true, || {
            for k in 0..2 {
                let mut rng = Counting(ChaCha20Rng::seed_from_u64(seed ^ k), 0);
                let Ok(proof) = with_spec(&s, || p.create_proof(&mut rng, Drawn(s.clone()))) else { return Ok(()) };
                ensure!(rng.1 >= 64, "{s:?}: a proof drew only {} random bytes for two blinding scalars", rng.1);
                ensure!(format!("{:?}", p.params) == before, "{s:?}: proving changed the key");
                ensure!(v.verify(&proof, &publics(&cs)).is_ok() && v.verify(&proof, &publics(&cs)).is_ok(), "{s:?}: proof number {k} is rejected");
            }
            Ok(())
        });
    }
}

fn subverted(cx: &mut Cx) {
    for _ in 0..cx.n(6, 60) {
        if cx.full() {
            break;
        }
        let s = spec(cx);
        let Some((mut p, _)) = key(cx, &s) else { continue };
        let (d1, d2) = (p.params.vk.delta_g1, p.params.vk.delta_g2);
        let seed = cx.rng.next_u64();
        for m in 1..4u8 {
            cx.count("subverted keys", 1);
            cx.sample(|| format!("{s:?} mask {m}"));
            cx.case((format!("{s:?}"), m), true, || {
                p.params.vk.delta_g1 = if m & 1 == 1 { G1Affine::ADDITIVE_IDENTITY } else { d1 };
                p.params.vk.delta_g2 = if m & 2 == 2 { G2Affine::ADDITIVE_IDENTITY } else { d2 };
                let r = guard(|| with_spec(&s, || p.create_proof(&mut ChaCha20Rng::seed_from_u64(seed), Drawn(s.clone())).map(|_| ())));
                p.params.vk.delta_g1 = d1;
                p.params.vk.delta_g2 = d2;
                match r {
                    Ok(Err(Error::ProverSubVersionCrsAttack)) => Ok(()),
                    r => fail("", format!("{s:?}: identity delta (mask {m}) was not refused: {r:?}")),
                }
            });
        }
    }
}

#[cfg(kogarashi_verif)]
fn blinding(cx: &mut Cx) {
    use zkgroth16::verif::*;
    let pair = |a: G1Affine, b: G2Affine| AteParing::pairing(a, b);
    for _ in 0..cx.n(8, 150) {
        if cx.full() {
            break;
        }
        let s = spec(cx);
        let Some((mut p, _)) = key(cx, &s) else { continue };
        let cs = r1cs(&s);
        if !sat(&cs) {
            continue;
        }
        let seeds: Vec<u64> = (0..3).map(|_| cx.rng.next_u64()).collect();
        cx.count("proofs", 4);
        cx.sample(|| format!("{s:?}"));
        cx.case((format!("{s:?}"), seeds[0]), true, || {
            let mut mk = |seed: u64| with_spec(&s, || p.create_proof(&mut ChaCha20Rng::seed_from_u64(seed), Drawn(s.clone()))).ok().map(|p| proof_parts(&p));
            let mut ps = vec![];
            for sd in &seeds {
                let Some(x) = mk(*sd) else { return Ok(()) };
                ps.push(x);
            }
            let again = mk(seeds[0]).unwrap();
            ensure!(again == ps[0], "{s:?}: the same randomness gave two proofs");
            let z: Vec<Fr> = cs.x().into_iter().chain(cs.w()).collect();
            let k = &p.params;
            let plain_a = z.iter().zip(&k.a).fold(G1Projective::from(k.vk.alpha_g1), |s, (z, q)| s + *q * *z);
            let plain_b = z.iter().zip(&k.b_g2).fold(G2Projective::from(k.vk.beta_g2), |s, (z, q)| s + G2Projective::from(*q) * *z);
            let g2 = G2Affine::ADDITIVE_GENERATOR;
            let mut masks = vec![];
            for (a, b, c) in &ps {
                // r delta and s delta
                let ra = G1Affine::from(G1Projective::from(*a) - plain_a);
                let sb = G2Affine::from(G2Projective::from(*b) - plain_b);
                ensure!(!ra.is_identity(), "{s:?}: A is not blinded");
                ensure!(!sb.is_identity(), "{s:?}: B is not blinded");
                ensure!(!c.is_identity(), "{s:?}: C is the identity");
                ensure!(ra != k.vk.delta_g1 && sb != k.vk.delta_g2, "{s:?}: a blinding scalar is one");
                let (x, y) = (pair(ra, g2), pair(G1Affine::ADDITIVE_GENERATOR, sb));
                ensure!(x != y, "{s:?}: A and B are blinded by the same scalar");
                masks.push(x);
                masks.push(y);
            }
            for i in 0..masks.len() {
                for j in 0..i {
                    ensure!(masks[i] != masks[j], "{s:?}: blinding scalars {j} and {i} coincide across proofs");
                }
            }
            for i in 0..ps.len() {
                for j in 0..i {
                    ensure!(ps[i].0 != ps[j].0 && ps[i].1 != ps[j].1 && ps[i].2 != ps[j].2, "{s:?}: two proofs share an element");
                }
            }
            eqv!(masks.len(), 2 * seeds.len(), "masks");
            Ok(())
        });
    }
}

/// Intervenes on the random stream: changing one stretch of it at a time shows which stretches each blinding depends on.
/// Two independent scalars cannot depend on exactly the same single scalar's worth of stream.
#[cfg(kogarashi_verif)]
fn independence(cx: &mut Cx) {
    use zkgroth16::verif::*;
    for _ in 0..cx.n(4, 60) {
        if cx.full() {
            break;
        }
        let s = spec(cx);
        let Some((mut p, _)) = key(cx, &s) else { continue };
        if !sat(&r1cs(&s)) {
            continue;
        }
        let seed = cx.rng.next_u64();
        cx.sample(|| format!("{s:?}"));
        let mut seen = 0;
        cx.case((format!("{s:?}"), seed, "flip"), true, || {
            let mut mk = |from: u64, to: u64| {
                let mut r = Flip::new(seed, from, to);
                with_spec(&s, || p.create_proof(&mut r, Drawn(s.clone()))).ok().map(|p| (proof_parts(&p), r.at))
            };
            let Some((base, total)) = mk(0, 0) else { return Ok(()) };
            let step = (total / 512).max(1);
            let (mut a, mut b) = (vec![], vec![]);
            let mut at = 0;
            while at < total {
                if let Some((x, _)) = mk(at, at + step) {
                    a.push(x.0 != base.0);
                    b.push(x.1 != base.1);
                    seen += 1;
                }
                at += step;
            }
            for (n, v) in [("A", &a), ("B", &b)] {
                let bytes = step * v.iter().filter(|x| **x).count() as u64;
                ensure!(bytes > 0, "{s:?}: no part of the randomness changes {n}");
                ensure!(bytes >= 28, "{s:?}: {n} is blinded by {bytes} bytes of randomness, its scalars have 32");
            }
            ensure!(a != b, "{s:?}: A and B are blinded by the same randomness: both depend on the same stretches of the stream, {a:?}");
            Ok(())
        });
        cx.count("interventions on the random stream", seen);
    }
}

fn main() {
    let mut c = Check::new("P21", "distinct (circuit, instance, randomness) proven");
    c.class("draws", draws);
    c.class("subverted-key", subverted);
    #[cfg(kogarashi_verif)]
    c.heavy("independence", independence);
    #[cfg(kogarashi_verif)]
    for i in 0..2 {
        c.heavy(&format!("blinding~{i}"), blinding);
    }
    let _ = |x: &G2Projective| x.is_identity();
    c.run()
}
