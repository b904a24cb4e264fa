//! P27: a recursive proof is accepted only for the computation it was made for.
use kmon::nova::*;
use kmon::prelude::*;
use kmon::{ensure, eqv};
use zkstd::common::*;

#[cfg(kogarashi_verif)]
mod hooked {
    use super::*;
    use std::sync::{Arc, Mutex};
    use zknova::verif::*;
    use zknova::{Bn254Driver as E1, GrumpkinDriver as E2};
    use zkstd::matrix::DenseVectors;

    type A = Cubic;
    type B = Shift;
    type Pr = Rp<A, B>;
    type P = Parts<E1, E2>;
    type G = bn_254::G1Affine;
    type H = grumpkin::Affine;
    struct Shared {
        pp: Pp<A, B>,
        /// proofs of the steps, and of another run
        steps: Vec<Pr>,
        other: Vec<Pr>,
    }
    static SHARED: Mutex<Option<Arc<Shared>>> = Mutex::new(None);
    fn shared(seed: u64) -> Arc<Shared> {
        let mut s = SHARED.lock().unwrap_or_else(|e| e.into_inner());
        if s.is_none() {
            let pp = fast_pp::<A, B>();
            let mut rng = ChaCha20Rng::seed_from_u64(seed);
            let mut z = || (Fr::of(&gen_rand(&mut rng, &Fr::modulus())), Fq::of(&gen_rand(&mut rng, &Fq::modulus())));
            let (z1, z2) = (z(), z());
            let go = |z, n| {
                let mut r = start(&pp, z);
                (0..n).map(|_| r.prove_step(&pp)).collect::<Vec<_>>()
            };
            let (steps, other) = std::thread::scope(|s| {
                let a = s.spawn(|| go(z1, 3));
                let b = s.spawn(|| go(z2, 2));
                (a.join().unwrap(), b.join().unwrap())
            });
            *s = Some(Arc::new(Shared { pp, steps, other }));
        }
        s.clone().unwrap()
    }
    fn one<T: KField>() -> T {
        T::of(&BigUint::one())
    }
    fn plus<A: BNAffine + Group>(a: A) -> A {
        (a.to_extended() + A::ADDITIVE_GENERATOR.to_extended()).into()
    }
    fn dv<T: KField>(v: &[T]) -> DenseVectors<T> {
        DenseVectors::new(v.to_vec())
    }
    /// what the last circuit must have put out for the rest of the proof
    fn rehash(p: &mut P) {
        let a = p.range_secondary.0.hash::<E1>(p.i, &dv(&p.z0.0), &dv(&p.zi.0));
        let b = p.range_primary.0.hash::<E2>(p.i, &dv(&p.z0.1), &dv(&p.zi.1));
        let cw = instance_parts(&p.single_secondary.0).0;
        p.single_secondary.0 = instance::<E2>(cw, vec![a, Fq::of(&b.big())]);
    }
    fn rp(p: &mut P, f: impl FnOnce(&mut G, &mut G, &mut Fr, &mut Vec<Fr>)) {
        let (mut w, mut e, mut u, mut x) = relaxed_instance_parts(&p.range_primary.0);
        f(&mut w, &mut e, &mut u, &mut x);
        p.range_primary.0 = relaxed_instance::<E1>(w, e, u, x);
    }
    fn rs(p: &mut P, f: impl FnOnce(&mut H, &mut H, &mut Fq, &mut Vec<Fq>)) {
        let (mut w, mut e, mut u, mut x) = relaxed_instance_parts(&p.range_secondary.0);
        f(&mut w, &mut e, &mut u, &mut x);
        p.range_secondary.0 = relaxed_instance::<E2>(w, e, u, x);
    }
    fn ss(p: &mut P, f: impl FnOnce(&mut H, &mut Vec<Fq>)) {
        let (mut w, mut x) = instance_parts(&p.single_secondary.0);
        f(&mut w, &mut x);
        p.single_secondary.0 = instance::<E2>(w, x);
    }
    fn rpw(p: &mut P, f: impl FnOnce(&mut Vec<Fr>, &mut Vec<Fr>)) {
        let (mut w, mut e) = relaxed_witness_parts(&p.range_primary.1);
        f(&mut w, &mut e);
        p.range_primary.1 = relaxed_witness::<E1>(w, e);
    }
    fn rsw(p: &mut P, f: impl FnOnce(&mut Vec<Fq>, &mut Vec<Fq>)) {
        let (mut w, mut e) = relaxed_witness_parts(&p.range_secondary.1);
        f(&mut w, &mut e);
        p.range_secondary.1 = relaxed_witness::<E2>(w, e);
    }
    fn ssw(p: &mut P, f: impl FnOnce(&mut Vec<Fq>)) {
        let mut w = witness_parts(&p.single_secondary.1);
        f(&mut w);
        p.single_secondary.1 = witness::<E2>(w);
    }
    /// the error vector that excuses a witness
    fn excuse<C: Drv>(shape: &zknova::R1csShape<C>, u: C::S, x: &[C::S], w: &[C::S]) -> Vec<C::S> {
        let (a, b, c) = shape.matrices();
        let z = DenseVectors::new([&[u][..], x, w].concat());
        let (a, b, c) = (a.prod(shape.m(), x.len() + 1, &z), b.prod(shape.m(), x.len() + 1, &z), c.prod(shape.m(), x.len() + 1, &z));
        a.get().into_iter().zip(b.get()).zip(c.get()).map(|((a, b), c)| a * b - u * c).collect()
    }
    type Mut = Box<dyn Fn(&Shared, &mut P, &mut ChaCha20Rng) + Send + Sync>;
    /// cost: 0 decided by the hash, 1 by a relation, 2 by commitments of the primary instance, 3 by the last check
    fn mutations() -> Vec<(&'static str, u8, Mut)> {
        let mut m: Vec<(&'static str, u8, Mut)> = vec![];
        macro_rules! m {
            ($c:expr, $n:expr, |$s:ident, $p:ident, $r:ident| $b:expr) => {
                m.push(($n, $c, Box::new(|$s: &Shared, $p: &mut P, $r: &mut ChaCha20Rng| { $b; })));
            };
        }
        // the claim
        m!(0, "i + 1", |_s, p, _r| p.i += 1);
        m!(0, "i - 1", |_s, p, _r| p.i -= 1);
        m!(0, "i = 0", |_s, p, _r| p.i = 0);
        m!(0, "i = 1", |_s, p, _r| p.i = 1);
        m!(0, "i + 2^32", |_s, p, _r| p.i += 1 << 32);
        m!(0, "i + 2^63", |_s, p, _r| p.i += 1 << 63);
        m!(0, "i = -1", |_s, p, _r| p.i = u64::MAX);
        m!(0, "z0 primary + 1", |_s, p, _r| p.z0.0[0] = p.z0.0[0] + one::<Fr>());
        m!(0, "z0 secondary + 1", |_s, p, _r| p.z0.1[0] = p.z0.1[0] + one::<Fq>());
        m!(0, "zi primary + 1", |_s, p, _r| p.zi.0[0] = p.zi.0[0] + one::<Fr>());
        m!(0, "zi secondary + 1", |_s, p, _r| p.zi.1[0] = p.zi.1[0] + one::<Fq>());
        m!(0, "zi primary random", |_s, p, r| p.zi.0[0] = Fr::of(&gen_rand(r, &Fr::modulus())));
        m!(0, "zi secondary random", |_s, p, r| p.zi.1[0] = Fq::of(&gen_rand(r, &Fq::modulus())));
        m!(0, "zi primary negated", |_s, p, _r| p.zi.0[0] = -p.zi.0[0]);
        m!(0, "z primary swapped", |_s, p, _r| std::mem::swap(&mut p.z0.0, &mut p.zi.0));
        m!(0, "z secondary swapped", |_s, p, _r| std::mem::swap(&mut p.z0.1, &mut p.zi.1));
        m!(0, "zi primary moved into z0", |_s, p, _r| { let v = p.zi.0.pop().unwrap(); p.z0.0.push(v) });
        m!(0, "zi secondary moved into z0", |_s, p, _r| { let v = p.zi.1.pop().unwrap(); p.z0.1.push(v) });
        m!(0, "z0 primary moved into zi", |_s, p, _r| { let v = p.z0.0.pop().unwrap(); p.zi.0.insert(0, v) });
        m!(0, "z0 secondary moved into zi", |_s, p, _r| { let v = p.z0.1.pop().unwrap(); p.zi.1.insert(0, v) });
        m!(0, "zi primary missing", |_s, p, _r| p.zi.0.clear());
        m!(0, "z primary missing", |_s, p, _r| { p.zi.0.clear(); p.z0.0.clear() });
        m!(0, "z secondary missing", |_s, p, _r| { p.zi.1.clear(); p.z0.1.clear() });
        m!(0, "zi primary padded", |_s, p, _r| p.zi.0.push(Fr::of(&BigUint::zero())));
        m!(0, "z primary padded", |_s, p, _r| { p.zi.0.push(one()); p.z0.0.push(one()) });
        m!(0, "the claim of another run", |s, p, _r| { let o = proof_parts(&s.other[1]); p.z0 = o.z0; p.zi = o.zi });
        m!(0, "the values of an earlier step", |s, p, _r| p.zi = proof_parts(&s.steps[1]).zi);
        m!(0, "the step of an earlier proof", |s, p, _r| { let o = proof_parts(&s.steps[1]); p.zi = o.zi; p.i = o.i });
        // instances
        m!(0, "range primary u", |_s, p, _r| rp(p, |_, _, u, _| *u = *u + one::<Fr>()));
        m!(0, "range secondary u", |_s, p, _r| rs(p, |_, _, u, _| *u = *u + one::<Fq>()));
        m!(0, "range primary x0", |_s, p, r| rp(p, |_, _, _, x| x[0] = x[0] + Fr::of(&pow2(64 * below(r, 4)))));
        m!(0, "range primary x1", |_s, p, r| rp(p, |_, _, _, x| x[1] = x[1] + Fr::of(&pow2(64 * below(r, 4)))));
        m!(0, "range secondary x0", |_s, p, r| rs(p, |_, _, _, x| x[0] = x[0] + Fq::of(&pow2(64 * below(r, 4)))));
        m!(0, "range secondary x1", |_s, p, r| rs(p, |_, _, _, x| x[1] = x[1] + Fq::of(&pow2(64 * below(r, 4)))));
        m!(0, "range primary x swapped", |_s, p, _r| rp(p, |_, _, _, x| x.swap(0, 1)));
        m!(0, "range secondary x swapped", |_s, p, _r| rs(p, |_, _, _, x| x.swap(0, 1)));
        m!(0, "range primary commit_w", |_s, p, _r| rp(p, |w, _, _, _| *w = plus(*w)));
        m!(0, "range primary commit_e", |_s, p, _r| rp(p, |_, e, _, _| *e = plus(*e)));
        m!(0, "range primary -commit_w", |_s, p, _r| rp(p, |w, _, _, _| *w = -*w));
        m!(0, "range primary -commit_e", |_s, p, _r| rp(p, |_, e, _, _| *e = -*e));
        m!(0, "range primary commit_e identity", |_s, p, _r| rp(p, |_, e, _, _| *e = G::ADDITIVE_IDENTITY));
        m!(0, "range primary commitments swapped", |_s, p, _r| rp(p, |w, e, _, _| std::mem::swap(w, e)));
        m!(0, "range secondary commit_w", |_s, p, _r| rs(p, |w, _, _, _| *w = plus(*w)));
        m!(0, "range secondary commit_e", |_s, p, _r| rs(p, |_, e, _, _| *e = plus(*e)));
        m!(0, "range secondary -commit_w", |_s, p, _r| rs(p, |w, _, _, _| *w = -*w));
        m!(0, "range secondary -commit_e", |_s, p, _r| rs(p, |_, e, _, _| *e = -*e));
        m!(0, "range secondary commit_e identity", |_s, p, _r| rs(p, |_, e, _, _| *e = H::ADDITIVE_IDENTITY));
        m!(0, "range secondary commitments swapped", |_s, p, _r| rs(p, |w, e, _, _| std::mem::swap(w, e)));
        m!(0, "single x0", |_s, p, _r| ss(p, |_, x| x[0] = x[0] + one::<Fq>()));
        m!(0, "single x1", |_s, p, _r| ss(p, |_, x| x[1] = x[1] + one::<Fq>()));
        m!(0, "single x swapped", |_s, p, _r| ss(p, |_, x| x.swap(0, 1)));
        m!(0, "single x0 high bit", |_s, p, _r| ss(p, |_, x| x[0] = x[0] + Fq::of(&pow2(252))));
        m!(0, "single x1 high bit", |_s, p, _r| ss(p, |_, x| x[1] = x[1] + Fq::of(&pow2(252))));
        m!(0, "single x empty", |_s, p, _r| ss(p, |_, x| x.clear()));
        m!(0, "single x short", |_s, p, _r| ss(p, |_, x| x.truncate(1)));
        m!(0, "single x long", |_s, p, _r| ss(p, |_, x| x.push(one())));
        m!(0, "range primary x empty", |_s, p, _r| rp(p, |_, _, _, x| x.clear()));
        m!(0, "range primary x long", |_s, p, _r| rp(p, |_, _, _, x| x.push(one())));
        m!(0, "range secondary x short", |_s, p, _r| rs(p, |_, _, _, x| x.truncate(1)));
        m!(0, "range secondary x long", |_s, p, _r| rs(p, |_, _, _, x| x.push(one())));
        m!(0, "range primary of another run", |s, p, _r| p.range_primary = proof_parts(&s.other[1]).range_primary);
        m!(0, "range secondary of another run", |s, p, _r| p.range_secondary = proof_parts(&s.other[1]).range_secondary);
        m!(0, "single of another run", |s, p, _r| p.single_secondary = proof_parts(&s.other[1]).single_secondary);
        m!(0, "range primary of an earlier step", |s, p, _r| p.range_primary = proof_parts(&s.steps[1]).range_primary);
        m!(0, "range secondary of an earlier step", |s, p, _r| p.range_secondary = proof_parts(&s.steps[1]).range_secondary);
        m!(0, "single of an earlier step", |s, p, _r| p.single_secondary = proof_parts(&s.steps[1]).single_secondary);
        // witnesses
        m!(1, "range primary w", |_s, p, r| rpw(p, |w, _| { let i = below(r, w.len() as u64) as usize; w[i] = w[i] + one::<Fr>() }));
        m!(1, "range primary e", |_s, p, r| rpw(p, |_, e| { let i = below(r, e.len() as u64) as usize; e[i] = e[i] + one::<Fr>() }));
        m!(1, "range primary w short", |_s, p, _r| rpw(p, |w, _| { w.pop(); }));
        m!(1, "range primary w long", |_s, p, _r| rpw(p, |w, _| w.push(one())));
        m!(1, "range primary e short", |_s, p, _r| rpw(p, |_, e| { e.pop(); }));
        m!(1, "range primary e empty", |_s, p, _r| rpw(p, |_, e| e.clear()));
        m!(1, "range primary e long", |_s, p, _r| rpw(p, |_, e| e.push(one())));
        m!(2, "range primary w excused by e", |s, p, r| {
            let (_, _, u, x) = relaxed_instance_parts(&p.range_primary.0);
            rpw(p, |w, e| { let i = below(r, w.len() as u64) as usize; w[i] = w[i] + one::<Fr>(); *e = excuse::<E1>(&s.pp.r1cs_shape_primary, u, &x, w) })
        });
        m!(2, "range secondary w", |_s, p, r| rsw(p, |w, _| { let i = below(r, w.len() as u64) as usize; w[i] = w[i] + one::<Fq>() }));
        m!(2, "range secondary e", |_s, p, r| rsw(p, |_, e| { let i = below(r, e.len() as u64) as usize; e[i] = e[i] + one::<Fq>() }));
        m!(2, "range secondary e empty", |_s, p, _r| rsw(p, |_, e| e.clear()));
        m!(2, "range secondary w short", |_s, p, _r| rsw(p, |w, _| { w.pop(); }));
        m!(3, "range secondary w excused by e", |s, p, r| {
            let (_, _, u, x) = relaxed_instance_parts(&p.range_secondary.0);
            rsw(p, |w, e| { let i = below(r, w.len() as u64) as usize; w[i] = w[i] + one::<Fq>(); *e = excuse::<E2>(&s.pp.r1cs_shape_secondary, u, &x, w) })
        });
        m!(3, "single w", |_s, p, r| ssw(p, |w| { let i = below(r, w.len() as u64) as usize; w[i] = w[i] + one::<Fq>() }));
        m!(3, "single w short", |_s, p, _r| ssw(p, |w| { w.pop(); }));
        m!(3, "single commit_w", |_s, p, _r| ss(p, |w, _| *w = plus(*w)));
        m!(3, "single -commit_w", |_s, p, _r| ss(p, |w, _| *w = -*w));
        // forgeries that keep the hashes right
        m!(3, "zi primary forged", |_s, p, _r| { p.zi.0[0] = p.zi.0[0] + one::<Fr>(); rehash(p) });
        m!(3, "zi secondary forged", |_s, p, _r| { p.zi.1[0] = p.zi.1[0] + one::<Fq>(); rehash(p) });
        m!(3, "z0 primary forged", |_s, p, _r| { p.z0.0[0] = p.z0.0[0] + one::<Fr>(); rehash(p) });
        m!(3, "i forged", |_s, p, _r| { p.i += 1; rehash(p) });
        m!(1, "everything trivial", |s, p, r| {
            p.range_primary = dummy::<E1>(&s.pp.r1cs_shape_primary);
            p.range_secondary = dummy::<E2>(&s.pp.r1cs_shape_secondary);
            p.zi.0[0] = Fr::of(&gen_rand(r, &Fr::modulus()));
            p.single_secondary.1 = witness::<E2>(vec![Fq::of(&BigUint::zero()); s.pp.r1cs_shape_secondary.m_l_1() as usize]);
            ss(p, |w, _| *w = H::ADDITIVE_IDENTITY);
            rehash(p)
        });
        m!(1, "range instances trivial", |s, p, r| {
            p.range_primary = dummy::<E1>(&s.pp.r1cs_shape_primary);
            p.range_secondary = dummy::<E2>(&s.pp.r1cs_shape_secondary);
            p.zi.0[0] = Fr::of(&gen_rand(r, &Fr::modulus()));
            rehash(p)
        });
        m!(3, "range primary trivial", |s, p, _r| { p.range_primary = dummy::<E1>(&s.pp.r1cs_shape_primary); rehash(p) });
        m!(2, "range secondary trivial", |s, p, _r| { p.range_secondary = dummy::<E2>(&s.pp.r1cs_shape_secondary); rehash(p) });
        m!(3, "range primary another satisfied instance", |s, p, _r| { p.range_primary = proof_parts(&s.other[1]).range_primary; rehash(p) });
        m!(3, "range secondary another satisfied instance", |s, p, _r| { p.range_secondary = proof_parts(&s.other[1]).range_secondary; rehash(p) });
        m!(1, "range primary u forged", |_s, p, _r| { rp(p, |_, _, u, _| *u = *u + one::<Fr>()); rehash(p) });
        m!(1, "range primary x forged", |_s, p, _r| { rp(p, |_, _, _, x| x[0] = x[0] + one::<Fr>()); rehash(p) });
        m!(2, "range primary commit_w forged", |_s, p, _r| { rp(p, |w, _, _, _| *w = plus(*w)); rehash(p) });
        m!(2, "range primary commit_e forged", |_s, p, _r| { rp(p, |_, e, _, _| *e = plus(*e)); rehash(p) });
        m!(2, "range primary commit_w and w forged", |s, p, r| {
            // opens and is excused, but is not what the last circuit hashed: only commit_e is left to disagree
            let (_, _, u, x) = relaxed_instance_parts(&p.range_primary.0);
            let (k1, _) = keys();
            let mut cw = None;
            rpw(p, |w, e| {
                let i = below(r, w.len() as u64) as usize;
                w[i] = w[i] + one::<Fr>();
                cw = Some(gmul(G::ADDITIVE_GENERATOR, &k1.logs[i]));
                *e = excuse::<E1>(&s.pp.r1cs_shape_primary, u, &x, w)
            });
            rp(p, |w, _, _, _| *w = (*w + cw.unwrap()).into());
            rehash(p)
        });
        m!(2, "range secondary u forged", |_s, p, _r| { rs(p, |_, _, u, _| *u = *u + one::<Fq>()); rehash(p) });
        m!(3, "range secondary commit_e forged", |_s, p, _r| { rs(p, |_, e, _, _| *e = plus(*e)); rehash(p) });
        m!(3, "range secondary commit_w forged", |_s, p, _r| { rs(p, |w, _, _, _| *w = plus(*w)); rehash(p) });
        m
    }
    fn refuse(cx: &mut Cx, s: &Shared, pp: &Pp<A, B>, base: usize, what: &str, p: P) {
        let pr: Pr = proof_from_parts(p);
        if pr == s.steps[base] {
            // what the alteration would set is what the first steps have
            cx.count("without effect", 1);
            return;
        }
        cx.sample(|| what.to_string());
        cx.case((what.to_string(), base), true, || {
            match guard(|| pr.verify(pp)) {
                Ok(false) => Ok(()),
                Ok(true) => fail("", format!("accepted a proof of step {} with: {what}", base + 1)),
                Err(e) => fail("panic", format!("{what}: {e}")),
            }
        });
    }
    pub fn classes(c: &mut Check) {
        let n = 8;
        for k in 0..n {
            c.heavy(&format!("tampered~{k}"), move |cx| {
                let s = shared(cx.seed);
                // cheap ones on every proof, the others on the last
                let mut lane = 0usize;
                for (what, cost, f) in mutations() {
                    for base in [2usize, 1, 0] {
                        if base != 2 && cost > 1 {
                            continue;
                        }
                        // the quick tier leaves most of the dearest to chance
                        lane += 1;
                        if lane % n != k || (cost == 3 && !cx.thorough() && kmon::mon::hash_of((what, cx.seed)) % 2 == 0) {
                            continue;
                        }
                        let mut p = proof_parts(&s.steps[base]);
                        f(&s, &mut p, &mut cx.rng);
                        cx.count(["decided by hashes", "decided by relations", "decided by commitments", "decided last"][cost as usize], 1);
                        refuse(cx, &s, &s.pp, base, what, p);
                    }
                }
            });
        }
        c.heavy("honest", |cx| {
            let s = shared(cx.seed);
            let all = cx.thorough();
            for (i, p) in s.steps.iter().enumerate() {
                if all || i == 2 {
                    cx.case(i, true, || {
                        ensure!(p.verify(&s.pp), "an honest proof of step {} is rejected", i + 1);
                        ensure!(proof_from_parts::<E1, E2, Fun<A, Fr>, Fun<B, Fq>>(proof_parts(p)) == *p, "the monitor takes proofs apart wrongly");
                        Ok(())
                    });
                }
            }
        });
        // parameters of another computation
        c.heavy("other-parameters", |cx| {
            let s = shared(cx.seed);
            let with = |cx: &mut Cx, what: &str, ok: &dyn Fn() -> bool| {
                cx.sample(|| what.to_string());
                cx.case(what.to_string(), true, || {
                    ensure!(!ok(), "a proof is accepted under {what}");
                    Ok(())
                });
            };
            let last = s.steps[2].encode();
            with(cx, "parameters of another primary function", &|| Rp::<Same, B>::decode(&mut &last[..]).unwrap().verify(&fast_pp::<Same, B>()));
            with(cx, "parameters of another secondary function", &|| Rp::<A, Shift9>::decode(&mut &last[..]).unwrap().verify(&fast_pp::<A, Shift9>()));
            let swap = |primary: bool| {
                let (k1, k2) = keys();
                let mut b = s.pp.r1cs_shape_primary.encode();
                s.pp.r1cs_shape_secondary.encode_to(&mut b);
                let (mut g, mut h) = (k1.g.clone(), k2.g.clone());
                if primary {
                    g.swap(1000, 2000);
                } else {
                    h.swap(1000, 2000);
                }
                g.encode_to(&mut b);
                h.encode_to(&mut b);
                Pp::<A, B>::decode(&mut &b[..]).unwrap()
            };
            with(cx, "another primary key", &|| s.steps[2].verify(&swap(true)));
            if cx.thorough() {
                with(cx, "another secondary key", &|| s.steps[2].verify(&swap(false)));
            }
        });
    }
}

fn main() {
    let mut c = Check::new("P27", "distinct alterations and forgeries of proofs of the first three steps of a run, each offered to the verifier");
    c.assume("the quick tier draws half of the alterations that only the last and dearest of the verifier's checks can refuse");
    #[cfg(kogarashi_verif)]
    hooked::classes(&mut c);
    #[cfg(not(kogarashi_verif))]
    fallback(&mut c);
    c.run()
}
