//! P28: proofs, parameters, keys and relations survive their encoding, and nothing else decodes.
use kmon::nova::*;
use kmon::prelude::*;
use kmon::{ensure, eqv};
use std::fmt::Debug;
use zkstd::circuit::prelude::*;
use zkstd::common::*;
use zkstd::matrix::DenseVectors;
use zknova::{Bn254Driver, GrumpkinDriver, PedersenCommitment, R1csShape};

/// what holds for the encoding of any value
fn codec<T: Encode + Decode + PartialEq + Debug>(rng: &mut ChaCha20Rng, what: &str, x: &T, tries: u64) -> Result<[u64; 2], kmon::mon::Fail> {
    let e = x.encode();
    let mut s = &e[..];
    let y = T::decode(&mut s).map_err(|er| format!("{what}: decoding its own encoding: {er:?}"))?;
    ensure!(s.is_empty(), "{what}: decoding leaves {} bytes", s.len());
    ensure!(&y == x, "{what}: round trip changes the value");
    ensure!(y.encode() == e, "{what}: the decoded value encodes differently");
    let mut tail = e.clone();
    tail.push(7);
    let mut s = &tail[..];
    ensure!(T::decode(&mut s).as_ref() == Ok(x) && s == [7], "{what}: decoding reads past its encoding");
    let mut n = [0, 0];
    for k in 0..tries {
        if e.is_empty() {
            break;
        }
        // truncated
        let cut = if k == 0 { e.len() - 1 } else { below(rng, e.len() as u64) as usize };
        match guard(|| T::decode(&mut &e[..cut])) {
            Ok(r) => ensure!(r.is_err(), "{what}: {cut} of {} bytes decode", e.len()),
            Err(m) => return fail("panic", format!("{what}: decoding {cut} of {} bytes panics: {m}", e.len())),
        }
        // altered
        let mut b = e.clone();
        for _ in 0..1 + below(rng, 3) {
            let i = if below(rng, 3) == 0 { below(rng, e.len().min(8) as u64) as usize } else { below(rng, e.len() as u64) as usize };
            match below(rng, 4) {
                0 => b[i] ^= 1 << below(rng, 8),
                1 => b[i] = 0xff,
                2 => b[i] = b[i].wrapping_add(4),
                _ => {
                    for j in i..(i + 32).min(b.len()) {
                        b[j] = 0xff;
                    }
                }
            }
        }
        match guard(|| {
            let mut s = &b[..];
            T::decode(&mut s).map(|v| (v, b.len() - s.len()))
        }) {
            Err(m) => return fail("panic", format!("{what}: decoding altered bytes panics: {m}")),
            Ok(Err(_)) => n[1] += 1,
            Ok(Ok((v, used))) => {
                n[0] += 1;
                let back = v.encode();
                ensure!(back == b[..used], "{what}: bytes decode to a value with another encoding");
            }
        }
    }
    Ok(n)
}
fn point<A: BNAffine<Scalar = S> + Group, S: KField>(rng: &mut ChaCha20Rng) -> A {
    match below(rng, 6) {
        0 => A::ADDITIVE_IDENTITY,
        1 => A::ADDITIVE_GENERATOR,
        _ => gmul(A::ADDITIVE_GENERATOR, &gen_val(rng, &S::modulus())),
    }
}
fn vals<F: KField>(rng: &mut ChaCha20Rng, max: u64) -> Vec<F> {
    (0..below(rng, max)).map(|_| F::of(&gen_val(rng, &F::modulus()))).collect()
}
fn relation<C: Drv>(rng: &mut ChaCha20Rng) -> (String, R1cs<C>) {
    let (s, nx, nw, len) = (rng.next_u64(), below(rng, 5), 1 + below(rng, 5), below(rng, 20));
    (format!("{} {s:x} {nx} {nw} {len}", C::N), program::<C>(s, 0, nx, nw, len))
}
fn judge<T: Encode + Decode + PartialEq + Debug>(cx: &mut Cx, what: &str, x: &T, tries: u64) {
    let mut rng = ChaCha20Rng::seed_from_u64(cx.rng.next_u64());
    let mut n = [0, 0];
    cx.sample(|| format!("{what}: {} bytes", x.encode().len()));
    cx.case((what.to_string(), x.encode()), true, || {
        n = codec(&mut rng, what, x, tries)?;
        Ok(())
    });
    cx.count("altered bytes of another value", n[0]);
    cx.count("altered bytes refused", n[1]);
}
fn parts<C: Drv>(c: &mut Check)
where
    C: PartialEq + Debug,
{
    c.class(&format!("{}/relations-and-keys", C::N), |cx| {
        for _ in 0..cx.n(300, 15_000) {
            if cx.full() {
                break;
            }
            let (d, cs) = relation::<C>(&mut cx.rng);
            judge(cx, &format!("matrices of {d}"), &cs.matrices(), 12);
            judge(cx, &format!("relation {d}"), &R1csShape::<C>::from(cs), 12);
            let g: Vec<C::Af> = (0..below(&mut cx.rng, 5)).map(|_| point(&mut cx.rng)).collect();
            judge(cx, "points", &g, 12);
            let ck = PedersenCommitment::<C::Affine>::decode(&mut &g.encode()[..]);
            cx.case(g.encode(), true, || {
                ensure!(ck.is_ok(), "a vector of points is not a commitment key");
                Ok(())
            });
            if let Ok(ck) = ck {
                judge(cx, "commitment key", &ck, 12);
            }
            let v = vals::<C::S>(&mut cx.rng, 9);
            judge(cx, "vector", &DenseVectors::new(v), 12);
        }
        // lengths nobody can have
        for l in [1u32 << 14, (1 << 30) - 1, u32::MAX] {
            cx.case(("length", l), true, || {
                let mut b = zkstd_compact(l);
                b.extend([0u8; 200]);
                for (n, r) in [
                    ("vector", guard(|| DenseVectors::<C::S>::decode(&mut &b[..]).is_ok())),
                    ("commitment key", guard(|| PedersenCommitment::<C::Affine>::decode(&mut &b[..]).is_ok())),
                ] {
                    eqv!(r, Ok(false), "{n} of length {l} in 200 bytes");
                }
                Ok(())
            });
        }
    });
}
fn zkstd_compact(l: u32) -> Vec<u8> {
    parity_scale_codec::Compact(l).encode()
}
#[cfg(kogarashi_verif)]
mod hooked {
    use super::*;
    use zknova::verif::*;
    fn inst<C: Drv>(rng: &mut ChaCha20Rng) -> (Instance<C>, Witness<C>) {
        (instance::<C>(point(rng), vals(rng, 4)), witness::<C>(vals(rng, 6)))
    }
    fn rel<C: Drv>(rng: &mut ChaCha20Rng) -> (RelaxedInstance<C>, RelaxedWitness<C>) {
        (relaxed_instance::<C>(point(rng), point(rng), C::S::of(&gen_val(rng, &C::S::modulus())), vals(rng, 4)), relaxed_witness::<C>(vals(rng, 6), vals(rng, 6)))
    }
    pub fn classes(c: &mut Check) {
        c.class("proofs", |cx| {
            for _ in 0..cx.n(400, 20_000) {
                if cx.full() {
                    break;
                }
                let r = &mut cx.rng;
                let i = match below(r, 6) {
                    0 => below(r, 4),
                    1 => 63 + below(r, 3),
                    2 => (1 << 14) - 1 + below(r, 3),
                    3 => (1 << 30) - 1 + below(r, 3),
                    4 => u64::MAX - below(r, 3),
                    _ => r.next_u64() >> below(r, 64),
                };
                let p = Parts::<Bn254Driver, GrumpkinDriver> {
                    i,
                    z0: (vals(r, 3), vals(r, 3)),
                    zi: (vals(r, 3), vals(r, 3)),
                    single_secondary: inst(r),
                    range_primary: rel(r),
                    range_secondary: rel(r),
                };
                judge(cx, "instance", &p.single_secondary.0, 8);
                judge(cx, "relaxed instance", &p.range_primary.0, 8);
                judge(cx, "witness", &p.single_secondary.1, 8);
                judge(cx, "relaxed witness", &p.range_secondary.1, 8);
                let proof: Rp<Cubic, Same> = proof_from_parts(p);
                judge(cx, &format!("proof of step {i}"), &proof, 24);
            }
        });
        c.class("parameters", |cx| {
            for _ in 0..cx.n(200, 8_000) {
                if cx.full() {
                    break;
                }
                let (d1, a) = relation::<Bn254Driver>(&mut cx.rng);
                let (d2, b) = relation::<GrumpkinDriver>(&mut cx.rng);
                let (a, b) = (R1csShape::from(a), R1csShape::from(b));
                let g: Vec<bn_254::G1Affine> = (0..below(&mut cx.rng, 5)).map(|_| point(&mut cx.rng)).collect();
                let h: Vec<grumpkin::Affine> = (0..below(&mut cx.rng, 5)).map(|_| point(&mut cx.rng)).collect();
                let bytes = [a.encode(), b.encode(), g.encode(), h.encode()].concat();
                let pp = Pp::<Cubic, Same>::decode(&mut &bytes[..]);
                cx.case(&bytes, true, || {
                    let Ok(pp) = &pp else { return fail("", "the parts of parameters do not decode to parameters") };
                    ensure!(pp.r1cs_shape_primary == a && pp.r1cs_shape_secondary == b, "parameters of {d1}, {d2} decode to other relations");
                    Ok(())
                });
                if let Ok(pp) = pp {
                    judge(cx, &format!("parameters {d1}, {d2}"), &pp, 16);
                }
            }
        });
        // a real one, judged by its verification
        c.heavy("verified", |cx| {
            let pp = fast_pp::<Shift, Same>();
            let mut run = start(&pp, (Fr::from(3), Fq::from(4)));
            let n = cx.n(1, 3);
            for k in 0..n {
                let mut rng = ChaCha20Rng::seed_from_u64(cx.rng.next_u64());
                cx.case(("real", k), true, || {
                    let p = run.prove_step(&pp);
                    let b = p.encode();
                    let q = Rp::<Shift, Same>::decode(&mut &b[..]).map_err(|e| format!("proof: {e:?}"))?;
                    ensure!(q == p, "round trip of a real proof");
                    ensure!(q.verify(&pp), "a decoded proof is rejected");
                    let qq = Pp::<Shift, Same>::decode(&mut &pp.encode()[..]).map_err(|e| format!("parameters: {e:?}"))?;
                    ensure!(qq == pp, "round trip of real parameters");
                    // a flip anywhere is refused, by decoding or by verifying
                    for _ in 0..3 {
                        let mut c = b.clone();
                        let i = if below(&mut rng, 2) == 0 { below(&mut rng, 600) as usize } else { below(&mut rng, c.len() as u64) as usize };
                        c[i] ^= 1 << below(&mut rng, 8);
                        let r = guard(|| Rp::<Shift, Same>::decode(&mut &c[..]).map_or(false, |p| p.verify(&pp)));
                        eqv!(r, Ok(false), "a proof with byte {i} of {} altered", c.len());
                    }
                    Ok(())
                });
            }
        });
    }
}

/// elements of the tower and points of G2 prepared for pairings; a decoded prepared point also pairs as before
fn pairing_forms(c: &mut Check) {
    use bn_254::{AteParing, Fq12, Fq2, Fq6, G1Affine, G2Affine, G2PairingAffine};
    c.class("pairing-forms", |cx| {
        for k in 0..cx.n(40, 400) {
            if cx.full() {
                break;
            }
            let t = gen_tower(&mut cx.rng, 12);
            judge(cx, "Fq2", &Fq2::from_coeffs(&t[..2]), 4);
            judge(cx, "Fq6", &Fq6::from_coeffs(&t[..6]), 4);
            judge(cx, "Fq12", &Fq12::from_coeffs(&t), 4);
            let p = point::<G1Affine, bn_254::Fr>(&mut cx.rng);
            let q = if k == 0 { G2Affine::ADDITIVE_IDENTITY } else { point::<G2Affine, bn_254::Fr>(&mut cx.rng) };
            let prepared = G2PairingAffine::from(q);
            judge(cx, "prepared point", &prepared, 4);
            judge(cx, "prepared points", &vec![prepared.clone(), G2PairingAffine::from(G2Affine::ADDITIVE_GENERATOR)], 2);
            for c in prepared.coeffs.iter().take(3) {
                judge(cx, "line", c, 2);
            }
            cx.case(("miller", prepared.encode(), p.encode()), true, || {
                let d = G2PairingAffine::decode(&mut &prepared.encode()[..]).map_err(|e| format!("prepared point {q:?}: {e:?}"))?;
                ensure!(d.is_identity() == q.is_identity(), "the prepared form of {q:?} changes its being the identity");
                let other = (G1Affine::ADDITIVE_GENERATOR, G2PairingAffine::from(G2Affine::ADDITIVE_GENERATOR));
                let run = |x: &G2PairingAffine| guard(|| AteParing::multi_miller_loop(&[(p, x.clone()), other.clone()]));
                eqv!(run(&d), run(&prepared), "Miller loop of {p:?} and the decoded prepared {q:?}");
                Ok(())
            });
        }
    });
}

fn main() {
    let mut c = Check::new("P28", "distinct values encoded and decoded; each also truncated and altered several times");
    parts::<Bn254Driver>(&mut c);
    parts::<GrumpkinDriver>(&mut c);
    pairing_forms(&mut c);
    #[cfg(kogarashi_verif)]
    hooked::classes(&mut c);
    c.run()
}
