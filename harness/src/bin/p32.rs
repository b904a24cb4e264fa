//! P32: the step circuit folds, hashes and steps as the scheme says, and refuses what it says to refuse.
use kmon::nova::*;
use kmon::prelude::*;
use kmon::{ensure, eqv};
use zkstd::circuit::prelude::*;
use zkstd::common::*;

#[cfg(kogarashi_verif)]
mod hooked {
    use super::*;
    use std::collections::BTreeMap;
    use zknova::verif::*;
    use zknova::Verifier;

    /// an instance by the logarithms of its commitments
    #[derive(Clone, Debug, Hash)]
    struct Ran {
        w: BigUint,
        e: BigUint,
        u: BigUint,
        x: [BigUint; 2],
    }
    #[derive(Clone, Debug, Hash)]
    struct Sng {
        w: BigUint,
        x: [BigUint; 2],
    }
    struct Orc<C: Drv> {
        mimc: MimcO,
        n: BigUint,
        b: BigUint,
        d: std::marker::PhantomData<C>,
    }
    impl<C: Drv> Orc<C> {
        fn new() -> Self {
            Orc { mimc: MimcO::new(C::B::modulus()), n: C::S::modulus(), b: C::B::modulus(), d: Default::default() }
        }
        fn pt(&self, d: &BigUint) -> Pt<BigUint> {
            <C::K as KCurve>::oracle().mul(&<C::K as KCurve>::generator(), d)
        }
        fn aff(&self, d: &BigUint) -> Aff<C> {
            <C::K as KCurve>::aff(&self.pt(d))
        }
        fn items(&self, r: &Ran) -> Vec<BigUint> {
            let mut v = [point_items(&self.pt(&r.w)), point_items(&self.pt(&r.e))].concat();
            v.push(&r.u % &self.b);
            r.x.iter().for_each(|x| v.extend(limbs64(x)));
            v
        }
        fn challenge(&self, t: &BigUint, r: &Ran) -> BigUint {
            self.mimc.squeeze(&[point_items(&self.pt(t)), self.items(r)].concat(), 128)
        }
        fn hash(&self, r: &Ran, i: &BigUint, z0: &[BigUint], z: &[BigUint]) -> BigUint {
            let mut v = vec![i.clone()];
            v.extend(z0.iter().chain(z).cloned());
            v.extend(self.items(r));
            self.mimc.squeeze(&v, 252)
        }
        fn fold(&self, a: &Ran, s: &Sng, t: &BigUint, r: &BigUint) -> Ran {
            let mix = |a: &BigUint, b: &BigUint| (a + b * r) % &self.n;
            Ran { w: mix(&a.w, &s.w), e: mix(&a.e, t), u: &a.u + r, x: [mix(&a.x[0], &s.x[0]), mix(&a.x[1], &s.x[1])] }
        }
        fn ran(&self, r: &Ran) -> RelaxedInstance<C> {
            relaxed_instance::<C>(self.aff(&r.w), self.aff(&r.e), C::S::of(&r.u), of_bigs(&r.x))
        }
        fn one(&self, s: &Sng) -> Instance<C> {
            instance::<C>(self.aff(&s.w), of_bigs(&s.x))
        }
        fn log(&self, rng: &mut ChaCha20Rng) -> BigUint {
            match below(rng, 6) {
                0 => BigUint::zero(),
                1 => BigUint::from(1 + below(rng, 3)),
                _ => gen_val(rng, &self.n),
            }
        }
        fn gen_ran(&self, rng: &mut ChaCha20Rng) -> Ran {
            if below(rng, 6) == 0 {
                return Ran { w: BigUint::zero(), e: BigUint::zero(), u: BigUint::zero(), x: [BigUint::zero(), BigUint::zero()] };
            }
            Ran { w: self.log(rng), e: self.log(rng), u: rand_big(rng, 135), x: [gen_val(rng, &self.n), gen_val(rng, &self.n)] }
        }
        /// public inputs are hashes of 252 bits
        fn gen_x(&self, rng: &mut ChaCha20Rng) -> BigUint {
            match below(rng, 4) {
                0 => pow2(252) - 1u32 - BigUint::from(below(rng, 2)),
                1 => BigUint::from(below(rng, 3)),
                _ => rand_big(rng, 252),
            }
        }
        /// an instance to fold, its commitment sometimes cancelling or equalling the running one
        fn gen_one(&self, rng: &mut ChaCha20Rng, a: &Ran, r: &BigUint) -> Sng {
            let o = Fp::new(self.n.clone());
            let w = match (below(rng, 6), o.inv(r)) {
                (0, Some(i)) => o.mul(&o.neg(&a.w), &i),
                (1, Some(i)) => o.mul(&a.w, &i),
                _ => self.log(rng),
            };
            Sng { w, x: [self.gen_x(rng), self.gen_x(rng)] }
        }
    }
    fn point<F: KField>(p: &PointAssignment<F>, xw: &(zkstd::matrix::DenseVectors<F>, zkstd::matrix::DenseVectors<F>)) -> Option<Pt<BigUint>> {
        let o = Fp::new(F::modulus());
        let (x, y, z) = (eval_in(&p.get_x(), xw).big(), eval_in(&p.get_y(), xw).big(), eval_in(&p.get_z(), xw).big());
        match o.inv(&z) {
            Some(i) => Some(Some((o.mul(&x, &i), o.mul(&y, &i)))),
            None if x.is_zero() && !y.is_zero() => Some(None),
            None => None,
        }
    }
    fn nat<F: KField>(b: &BigNat<F>, xw: &(zkstd::matrix::DenseVectors<F>, zkstd::matrix::DenseVectors<F>)) -> BigUint {
        b.as_limbs().iter().rev().fold(BigUint::zero(), |a, l| (a << 64u32) + eval_in(l, xw).big())
    }
    /// the folded instance in a circuit is the folded instance
    fn fold<C: Drv>(cx: &mut Cx, forge: bool) {
        let o = Orc::<C>::new();
        for _ in 0..if forge { cx.n(2, 60) } else { cx.n(10, 500) } {
            if cx.full() {
                break;
            }
            let rng = &mut cx.rng;
            let a = o.gen_ran(rng);
            let t = o.log(rng);
            let r = o.challenge(&t, &a);
            let s = o.gen_one(rng, &a, &r);
            let sd = rng.next_u64();
            let want = o.fold(&a, &s, &t, &r);
            cx.count("folds", 1);
            cx.sample(|| format!("{} {a:x?} {s:x?} t {t:x}", C::N));
            let mut got = (0, 0);
            cx.case((&a, &s, &t), true, || {
                let (ra, si, ct) = (o.ran(&a), o.one(&s), o.aff(&t));
                eqv!(Verifier::<C>::verify(ct, &ra, &si), o.ran(&want), "{}: native folding of {a:x?} and {s:x?}, t {t:x}", C::N);
                let mut cs = R1cs::<C::Other>::default();
                let f = fold_circuit::<C, C::Other>(&mut cs, &ra, &si, ct);
                let sys = System::<C::B>::of(&cs);
                let z = System::<C::B>::z(&cs);
                let judge = |z: &[C::B], honest: bool| -> R {
                    let xw = sys.split(z);
                    let m = |x: &BigUint| if honest { x.clone() } else { x % &o.n };
                    eqv!(eval_in(&f.r, &xw).big(), r, "{}: challenge of {a:x?}, t {t:x}", C::N);
                    eqv!(point(&f.commit_w, &xw), Some(o.pt(&want.w)), "{}: commitment to w of {a:x?} and {s:x?}", C::N);
                    eqv!(point(&f.commit_e, &xw), Some(o.pt(&want.e)), "{}: commitment to e of {a:x?} and t {t:x}", C::N);
                    eqv!(eval_in(&f.u, &xw).big(), &want.u % &o.b, "{}: u of {a:x?}", C::N);
                    eqv!(m(&nat(&f.x0, &xw)), want.x[0], "{}: x0 of {a:x?} and {s:x?}", C::N);
                    eqv!(m(&nat(&f.x1, &xw)), want.x[1], "{}: x1 of {a:x?} and {s:x?}", C::N);
                    Ok(())
                };
                judge(&z, true)?;
                ensure!(cs.is_sat(), "{}: the folding circuit refuses {a:x?}, {s:x?}, t {t:x}", C::N);
                if forge {
                    let fixed: BTreeMap<usize, C::B> = (0..sys.nx + fold_inputs::<C, C::Other>(&ra, &si, ct)).map(|i| (i, z[i])).collect();
                    let f = Forger::new(&sys);
                    let Some(base) = f.run(&fixed, &z, &BTreeMap::new()) else {
                        return fail("", format!("{}: the folding circuit refuses its own witness", C::N));
                    };
                    // hints that are no bits; bits follow them
                    let hints: Vec<usize> = base.hints.iter().copied().filter(|h| z[*h].big() > BigUint::one()).collect();
                    let mut rng = ChaCha20Rng::seed_from_u64(sd);
                    for _ in 0..30 {
                        let bit = below(&mut rng, 4) == 0 || hints.is_empty();
                        let h = *pick(&mut rng, if bit { &base.hints } else { &hints });
                        let v = if bit { C::B::one() - z[h] } else { match below(&mut rng, 3) { 0 => C::B::zero(), 1 => z[h] + C::B::one(), _ => -z[h] } };
                        got.0 += 1;
                        if let Some(x) = f.run(&fixed, &z, &[(h, v)].into_iter().collect()) {
                            if sys.broken(&x.z).is_empty() {
                                got.1 += 1;
                                judge(&x.z, false)?;
                            }
                        }
                    }
                }
                Ok(())
            });
            if forge {
                cx.count("forged assignments tried", got.0);
                cx.count("forged assignments satisfying all constraints", got.1);
            }
        }
    }
    /// what a step may be told
    #[derive(Clone, Debug, Hash)]
    struct Step {
        primary: bool,
        i: u64,
        z0: BigUint,
        z: BigUint,
        a: Ran,
        s: Sng,
        t: BigUint,
    }
    fn run<C: Drv, S: StepFn>(o: &Orc<C>, s: &Step) -> (R1cs<C::Other>, Vec<BigUint>) {
        let mut cs = R1cs::<C::Other>::default();
        let z = augmented::<C, Fun<S, C::B>, C::Other>(
            &mut cs, s.primary, s.i, of_bigs(&[s.z0.clone()]), Some(of_bigs(&[s.z.clone()])), Some(o.one(&s.s)), Some(o.ran(&s.a)), Some(o.aff(&s.t)),
        );
        let v = z.iter().map(|z| z.value(&cs).big()).collect();
        (cs, v)
    }
    /// wires that carry what the step is told (its first ones), and the public ones; a few more do no harm
    fn told<C: Drv>(o: &Orc<C>, s: &Step, nx: usize) -> std::collections::BTreeSet<usize> {
        (0..nx + 3 + fold_inputs::<C, C::Other>(&o.ran(&s.a), &o.one(&s.s), o.aff(&s.t)) + 6).collect()
    }
    fn steps<C: Drv, S: StepFn>(cx: &mut Cx) {
        let o = Orc::<C>::new();
        let tries = if cx.thorough() { 4_000 } else { 600 };
        for k in 0..cx.n(8, 400) {
            if cx.full() {
                break;
            }
            let rng = &mut cx.rng;
            let primary = below(rng, 2) == 0;
            let i = match k % 3 { 0 => 0, 1 => 1 + below(rng, 4), _ => u64::MAX - 1 - below(rng, 3) };
            let a = o.gen_ran(rng);
            let t = o.log(rng);
            let r = o.challenge(&t, &a);
            let mut s = o.gen_one(rng, &a, &r);
            let z0 = gen_val(rng, &o.b);
            let z = if i == 0 { z0.clone() } else { gen_val(rng, &o.b) };
            if i > 0 {
                s.x[0] = o.hash(&a, &i.into(), &[z0.clone()], &[z.clone()]);
            }
            let st = Step { primary, i, z0, z, a, s, t };
            let mut lies = vec![];
            // one thing is not what the hash says
            let one = BigUint::one();
            let mut lie = |name: &'static str, f: &dyn Fn(&mut Step)| {
                let mut l = st.clone();
                f(&mut l);
                lies.push((name, l));
            };
            if i == 0 {
                lie("another start", &|l| l.z = (&l.z + &one) % &o.b);
                lie("another origin", &|l| l.z0 = (&l.z0 + &one) % &o.b);
            } else {
                lie("another hash", &|l| l.s.x[0] = &l.s.x[0] ^ &one);
                lie("another count", &|l| l.i = if l.i > 5 { l.i - 1 } else { l.i + 1 });
                lie("another origin", &|l| l.z0 = (&l.z0 + &one) % &o.b);
                lie("another input", &|l| l.z = (&l.z + &one) % &o.b);
                lie("another w", &|l| l.a.w = (&l.a.w + &one) % &o.n);
                lie("another e", &|l| l.a.e = (&l.a.e + &one) % &o.n);
                lie("another u", &|l| l.a.u = &l.a.u ^ &one);
                lie("another x0", &|l| l.a.x[0] = (&l.a.x[0] + &one) % &o.n);
                lie("another x1", &|l| l.a.x[1] = (&l.a.x[1] + pow2(200)) % &o.n);
                lie("inputs exchanged", &|l| l.a.x.swap(0, 1));
            }
            if !cx.thorough() {
                let keep = below(&mut cx.rng, lies.len() as u64 / 2 + 1) as usize;
                lies = lies.into_iter().skip(keep).step_by(if i == 0 { 1 } else { 3 }).take(3).collect();
            }
            let tried = std::cell::Cell::new(0);
            cx.count(if i == 0 { "first steps" } else { "later steps" }, 1);
            cx.sample(|| format!("{} {} {st:x?}", C::N, S::NAME));
            cx.case((S::NAME, &st), true, || {
                let (cs, z) = run::<C, S>(&o, &st);
                let next = S::native(&st.z, &o.b);
                eqv!(z, vec![next.clone()], "{} {}: what the step makes of {:x}", C::N, S::NAME, st.z);
                let folded = if st.i > 0 {
                    o.fold(&st.a, &st.s, &st.t, &r)
                } else if primary {
                    Ran { w: BigUint::zero(), e: BigUint::zero(), u: BigUint::zero(), x: [BigUint::zero(), BigUint::zero()] }
                } else {
                    Ran { w: st.s.w.clone(), e: BigUint::zero(), u: one.clone(), x: st.s.x.clone() }
                };
                let h = o.hash(&folded, &(BigUint::from(st.i) + 1u32), &[st.z0.clone()], &[next]);
                eqv!(bigs(&cs.x()), vec![one.clone(), st.s.x[1].clone(), h], "{} {}: public outputs of {st:x?}", C::N, S::NAME);
                ensure!(cs.is_sat(), "{} {}: the step circuit refuses {st:x?}", C::N, S::NAME);
                // these outputs only, whatever the prover puts on its wires
                let sys = System::<C::B>::of(&cs);
                let z = System::<C::B>::z(&cs);
                let f = Forger::new(&sys);
                for k in 1..3 {
                    let mut z = z.clone();
                    z[k] = z[k] + C::B::one();
                    let (n, got) = f.repair(&told::<C>(&o, &st, sys.nx), &z, tries);
                    tried.set(tried.get() + n);
                    ensure!(got.is_none(), "{} {}: public output {} of the step circuit is free", C::N, S::NAME, k - 1);
                }
                Ok(())
            });
            for (name, l) in lies {
                if hash_of(&l) == hash_of(&st) {
                    continue;
                }
                if name == "inputs exchanged" && l.a.x[0] == l.a.x[1] {
                    continue;
                }
                cx.count("inconsistent steps", 1);
                cx.case((S::NAME, name, &l), true, || {
                    let cs = run::<C, S>(&o, &l).0;
                    ensure!(!cs.is_sat(), "{} {}: the step circuit accepts {name}: {l:x?}", C::N, S::NAME);
                    let sys = System::<C::B>::of(&cs);
                    let (n, got) = Forger::new(&sys).repair(&told::<C>(&o, &l, sys.nx), &System::<C::B>::z(&cs), tries);
                    tried.set(tried.get() + n);
                    ensure!(got.is_none(), "{} {}: the step circuit can be made to accept {name}: {l:x?}", C::N, S::NAME);
                    Ok(())
                });
            }
            cx.count("altered witnesses tried", tried.get());
        }
    }
    /// structure of the step circuit: the same for every step
    fn structure<C: Drv>(cx: &mut Cx) {
        let o = Orc::<C>::new();
        for primary in [true, false] {
            let mut base = R1cs::<C::Other>::default();
            augmented::<C, Fun<Cubic, C::B>, C::Other>(&mut base, primary, 0, of_bigs(&[BigUint::zero()]), None, None, None, None);
            let base = base.matrices();
            for k in 0..cx.n(3, 100) {
                if cx.full() {
                    break;
                }
                let rng = &mut cx.rng;
                let a = o.gen_ran(rng);
                let t = o.log(rng);
                let s = o.gen_one(rng, &a, &BigUint::one());
                let st = Step { primary, i: k, z0: gen_val(rng, &o.b), z: gen_val(rng, &o.b), a, s, t };
                cx.count("structures", 1);
                cx.case(("structure", &st), true, || {
                    ensure!(run::<C, Cubic>(&o, &st).0.matrices() == base, "{}: the step circuit changes with its values: {st:x?}", C::N);
                    Ok(())
                });
            }
        }
    }
    pub fn classes<C: Drv>(c: &mut Check) {
        c.sharded(&format!("{}/fold", C::N), 2, |cx| fold::<C>(cx, false));
        c.class(&format!("{}/fold-sound", C::N), |cx| fold::<C>(cx, true));
        c.sharded(&format!("{}/step-cubic", C::N), 2, steps::<C, Cubic>);
        c.class(&format!("{}/step-countdown", C::N), steps::<C, Countdown>);
        c.class(&format!("{}/step-same", C::N), steps::<C, Same>);
        c.class(&format!("{}/structure", C::N), structure::<C>);
    }
}

fn main() {
    let mut c = Check::new("P32", "distinct folds and steps put to the circuits, judged by an oracle of curve, hash and integers; steps made inconsistent must be refused");
    c.assume("u of a running instance below both moduli, public inputs of 252 bits, as in a computation of fewer than 2^100 steps");
    #[cfg(kogarashi_verif)]
    {
        hooked::classes::<zknova::Bn254Driver>(&mut c);
        hooked::classes::<zknova::GrumpkinDriver>(&mut c);
    }
    #[cfg(not(kogarashi_verif))]
    fallback(&mut c);
    c.run()
}
