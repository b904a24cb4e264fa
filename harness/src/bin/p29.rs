//! P29: hash and transcript of the folding scheme denote one function, outside and inside circuits.
use kmon::nova::*;
use kmon::prelude::*;
use kmon::{ensure, eqv};
use zkstd::circuit::prelude::*;
use zkstd::common::*;

#[cfg(kogarashi_verif)]
mod hooked {
    use super::*;
    use std::collections::BTreeMap;
    use zknova::verif::*;
    use zkstd::matrix::DenseVectors;

    fn pt<C: Drv>(rng: &mut ChaCha20Rng) -> Aff<C> {
        match below(rng, 5) {
            0 => Aff::<C>::ADDITIVE_IDENTITY,
            _ => gmul(Aff::<C>::ADDITIVE_GENERATOR, &gen_val(rng, &C::S::modulus())),
        }
    }
    fn obs<C: Drv>(p: Aff<C>) -> Pt<BigUint> {
        <C::K as KCurve>::obs_a(p)
    }
    enum It<C: Drv> {
        S(BigUint),
        P(Aff<C>),
    }
    fn items<C: Drv>(rng: &mut ChaCha20Rng, max: u64) -> Vec<It<C>> {
        (0..below(rng, max + 1)).map(|_| if below(rng, 3) == 0 { It::P(pt::<C>(rng)) } else { It::S(gen_val(rng, &C::B::modulus())) }).collect()
    }
    fn flat<C: Drv>(v: &[It<C>]) -> Vec<BigUint> {
        v.iter()
            .flat_map(|i| match i {
                It::S(s) => vec![s.clone()],
                It::P(p) => point_items(&obs::<C>(*p)),
            })
            .collect()
    }
    fn bits(rng: &mut ChaCha20Rng) -> usize {
        match below(rng, 6) {
            0 => 1 + below(rng, 8) as usize,
            1 => 120 + below(rng, 16) as usize,
            2 | 3 => BITS.0,
            _ => BITS.1,
        }
    }
    fn native<C: Drv>(cx: &mut Cx) {
        let o = MimcO::new(C::B::modulus());
        cx.case("constants", true, || {
            eqv!(bigs(&mimc_constants::<C::B>()), o.c, "round constants over {}", C::B::NAME);
            Ok(())
        });
        for _ in 0..cx.n(1500, 60_000) {
            if cx.full() {
                break;
            }
            let (l, r) = (gen_val(&mut cx.rng, &o.p), gen_val(&mut cx.rng, &o.p));
            cx.count("hashes", 1);
            cx.case(("hash", &l, &r), true, || {
                eqv!(mimc(C::B::of(&l), C::B::of(&r)).big(), o.hash(&l, &r), "hash({l:#x}, {r:#x}) over {}", C::B::NAME);
                Ok(())
            });
        }
        for _ in 0..cx.n(600, 30_000) {
            if cx.full() {
                break;
            }
            let it = items::<C>(&mut cx.rng, 9);
            let n = bits(&mut cx.rng);
            let f = flat(&it);
            cx.count("transcripts", 1);
            cx.sample(|| format!("{n} bits of {f:x?}"));
            cx.case((&f, n), !f.is_empty(), || {
                let a: Vec<Absorb<C>> = it.iter().map(|i| match i {
                    It::S(s) => Absorb::Scalar(C::B::of(s)),
                    It::P(p) => Absorb::Point(*p),
                }).collect();
                eqv!(squeeze::<C>(&a, n).big(), o.squeeze(&f, n as u64), "{n} bits of the transcript {f:x?} of {}", C::N);
                Ok(())
            });
        }
    }
    fn circuit<C: Drv>(cx: &mut Cx) {
        let o = MimcO::new(C::B::modulus());
        for k in 0..cx.n(40, 2_000) {
            if cx.full() {
                break;
            }
            let (l, r) = (gen_val(&mut cx.rng, &o.p), gen_val(&mut cx.rng, &o.p));
            cx.count("circuits of a hash", 1);
            let sd = cx.rng.next_u64();
            let mut got = (0, 0);
            cx.case(("hash", &l, &r), true, || {
                let mut cs = R1cs::<C::Other>::default();
                let a = FieldAssignment::witness(&mut cs, C::B::of(&l));
                let b = if k % 3 == 0 { FieldAssignment::constant(&C::B::of(&r)) } else { FieldAssignment::witness(&mut cs, C::B::of(&r)) };
                let inputs = cs.m_l_1();
                let h = mimc_circuit(&mut cs, a, b);
                let want = o.hash(&l, &r);
                eqv!(h.value(&cs).big(), want, "hash circuit({l:#x}, {r:#x}) over {}", C::B::NAME);
                ensure!(cs.is_sat(), "the hash circuit refuses its own witness");
                // no other value fits
                let sys = System::<C::B>::of(&cs);
                let z = System::<C::B>::z(&cs);
                let fixed: BTreeMap<usize, C::B> = (0..sys.nx + inputs).map(|i| (i, z[i])).collect();
                got = Forger::new(&sys).attack(&mut ChaCha20Rng::seed_from_u64(sd), &fixed, &z, 6, &mut |zz| {
                    eqv!(eval_in(&h, &sys.split(zz)).big(), want, "a forged witness of the hash circuit({l:#x}, {r:#x})");
                    Ok(())
                })?;
                Ok(())
            });
            cx.count("forged assignments tried", got.0);
        }
        for k in 0..cx.n(30, 1_500) {
            if cx.full() {
                break;
            }
            let it = items::<C>(&mut cx.rng, if k % 4 == 0 { 1 } else { 5 });
            let n = bits(&mut cx.rng);
            let f = flat(&it);
            let sd = cx.rng.next_u64();
            let mut got = (0, 0);
            cx.count("circuits of a transcript", 1);
            cx.case(("transcript", &f, n), true, || {
                let mut cs = R1cs::<C::Other>::default();
                let a: Vec<AbsorbAssignment<C::B>> = it.iter().map(|i| match i {
                    It::S(s) => AbsorbAssignment::Scalar(FieldAssignment::witness(&mut cs, C::B::of(s))),
                    It::P(p) => AbsorbAssignment::Point(PointAssignment::witness(&mut cs, p.get_x(), p.get_y(), p.is_identity())),
                }).collect();
                let inputs = cs.m_l_1();
                let v = squeeze_circuit::<C, C::Other>(&mut cs, a, n);
                let want = o.squeeze(&f, n as u64);
                eqv!(v.value(&cs).big(), want, "{n} bits of the transcript circuit {f:x?} of {}", C::N);
                ensure!(cs.is_sat(), "the transcript circuit refuses its own witness: {f:x?}");
                if k % 4 == 0 {
                    let sys = System::<C::B>::of(&cs);
                    let z = System::<C::B>::z(&cs);
                    let fixed: BTreeMap<usize, C::B> = (0..sys.nx + inputs).map(|i| (i, z[i])).collect();
                    got = Forger::new(&sys).attack(&mut ChaCha20Rng::seed_from_u64(sd), &fixed, &z, 40, &mut |zz| {
                        eqv!(eval_in(&v, &sys.split(zz)).big(), want, "a forged witness of the transcript circuit {f:x?}");
                        Ok(())
                    })?;
                }
                Ok(())
            });
            cx.count("forged assignments tried", got.0);
            cx.count("forged assignments satisfying all constraints", got.1);
        }
    }
    /// hash of a running instance: natively, in a circuit, by the oracle
    fn instances<C: Drv>(cx: &mut Cx) {
        let o = MimcO::new(C::B::modulus());
        for _ in 0..cx.n(12, 600) {
            if cx.full() {
                break;
            }
            let r = &mut cx.rng;
            let (s, b) = (C::S::modulus(), C::B::modulus());
            let i = if below(r, 3) == 0 { u64::MAX - below(r, 3) } else { below(r, 5) };
            let (w, e) = (pt::<C>(r), pt::<C>(r));
            let u = gen_val(r, &s);
            let x = [gen_val(r, &s), gen_val(r, &s)];
            let n = 1 + below(r, 2);
            let (z0, zi): (Vec<_>, Vec<_>) = (0..n).map(|_| (gen_val(r, &b), gen_val(r, &b))).unzip();
            cx.count("instances", 1);
            cx.sample(|| format!("i {i} u {u:x} x {x:x?}"));
            cx.case((i, format!("{w:?}{e:?}"), &u, &x, &z0, &zi), true, || {
                let inst = relaxed_instance::<C>(w, e, C::S::of(&u), of_bigs(&x));
                let mut items = vec![BigUint::from(i)];
                items.extend(z0.iter().chain(&zi).cloned());
                items.extend(point_items(&obs::<C>(w)));
                items.extend(point_items(&obs::<C>(e)));
                items.push(&u % &b);
                x.iter().for_each(|v| items.extend(limbs64(v)));
                let want = o.squeeze(&items, 252);
                let dv = |v: &[BigUint]| DenseVectors::new(of_bigs::<C::B>(v));
                eqv!(inst.hash::<C::Other>(i, &dv(&z0), &dv(&zi)).big(), want, "hash of an instance of {}: i {i} u {u:x} x {x:x?}", C::N);
                let mut cs = R1cs::<C::Other>::default();
                let mut wit = |v: &BigUint| FieldAssignment::witness(&mut cs, C::B::of(v));
                let ia = wit(&BigUint::from(i));
                let (za, zb): (Vec<_>, Vec<_>) = (z0.iter().map(&mut wit).collect(), zi.iter().map(&mut wit).collect());
                let h = hash_circuit::<C, C::Other>(&mut cs, &inst, ia, za, zb);
                eqv!(h.value(&cs).big(), want, "hash circuit of an instance of {}: i {i} u {u:x} x {x:x?}", C::N);
                ensure!(cs.is_sat(), "the hash circuit of an instance refuses its own witness");
                Ok(())
            });
        }
    }
    pub fn classes<C: Drv>(c: &mut Check) {
        c.class(&format!("{}/native", C::N), native::<C>);
        c.sharded(&format!("{}/circuit", C::N), 2, circuit::<C>);
        c.class(&format!("{}/instances", C::N), instances::<C>);
    }
}

fn main() {
    let mut c = Check::new("P29", "distinct inputs of the hash, the transcript and the instance hash, compared with an independent BLAKE2b and MiMC over big integers");
    c.assume("the oracle's round constants come from an own BLAKE2b, its hash from integer exponentiation");
    #[cfg(kogarashi_verif)]
    {
        hooked::classes::<zknova::Bn254Driver>(&mut c);
        hooked::classes::<zknova::GrumpkinDriver>(&mut c);
    }
    #[cfg(not(kogarashi_verif))]
    fallback(&mut c);
    c.run()
}
