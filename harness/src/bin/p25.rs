//! P25: folding keeps the truth of the folded instances, and prover and verifier fold alike.
use kmon::nova::*;
use kmon::prelude::*;
use kmon::{ensure, eqv};
use zkstd::circuit::prelude::*;
use zkstd::common::*;

#[cfg(kogarashi_verif)]
mod hooked {
    use super::*;
    use zknova::verif::*;
    use zknova::{Prover, R1csShape, Verifier};

    type Row = [Vec<(usize, BigUint)>; 3];
    /// a relation with everything the oracle needs to judge it
    pub struct World<C: Drv> {
        pub desc: String,
        pub nx: usize,
        pub nw: usize,
        pub rows: Vec<Row>,
        pub shape: R1csShape<C>,
        pub key: Key<C>,
        pub prover: Prover<C>,
        pub mimc: MimcO,
        seeds: (u64, u64, u64, u64),
    }
    /// an instance and its witness by values; commitments are to what they should be
    #[derive(Clone, Debug, PartialEq)]
    pub struct Rel {
        pub u: BigUint,
        pub x: Vec<BigUint>,
        pub w: Vec<BigUint>,
        pub e: Vec<BigUint>,
    }
    impl<C: Drv> World<C> {
        pub fn new(rng: &mut ChaCha20Rng) -> Self {
            let nx = below(rng, 5);
            let nw = below(rng, 6) + (nx == 0) as u64;
            let len = 1 + below(rng, 12);
            let s = rng.next_u64();
            let cs = program::<C>(s, 0, nx, nw, len);
            let sys = System::<C::S>::of(&cs);
            let rows: Vec<Row> = sys.rows.iter().map(|r| [0, 1, 2].map(|k| r[k].iter().map(|(j, c)| (*j, c.big())).collect())).collect();
            let shape = R1csShape::from(cs);
            let n = rows.len().max(sys.nw) + below(rng, 3) as usize;
            let key = Key::<C>::new(rng, n);
            let prover = Prover::new(shape.clone(), key.ck.clone());
            World { desc: format!("{} shape {s:x} nx {nx} nw {nw} len {len}", C::N), nx: sys.nx - 1, nw: sys.nw, rows, shape, key, prover, mimc: MimcO::new(C::B::modulus()), seeds: (s, nx, nw, len) }
        }
        fn p(&self) -> BigUint {
            C::S::modulus()
        }
        fn dot(&self, l: &[(usize, BigUint)], z: &[BigUint]) -> BigUint {
            l.iter().fold(BigUint::zero(), |s, (j, c)| s + c * &z[*j]) % self.p()
        }
        fn abc(&self, u: &BigUint, x: &[BigUint], w: &[BigUint]) -> Vec<[BigUint; 3]> {
            let z: Vec<BigUint> = [u.clone()].into_iter().chain(x.iter().cloned()).chain(w.iter().cloned()).collect();
            self.rows.iter().map(|r| [self.dot(&r[0], &z), self.dot(&r[1], &z), self.dot(&r[2], &z)]).collect()
        }
        pub fn relaxed(&self, r: &Rel) -> bool {
            let p = self.p();
            r.x.len() == self.nx && r.w.len() == self.nw && r.e.len() == self.rows.len()
                && self.abc(&r.u, &r.x, &r.w).iter().zip(&r.e).all(|([a, b, c], e)| a * b % &p == (&r.u * c + e) % &p)
        }
        pub fn cs(&self, vals: u64) -> R1cs<C> {
            program::<C>(self.seeds.0, vals, self.seeds.1, self.seeds.2, self.seeds.3)
        }
        /// a satisfied strict instance
        pub fn strict(&self, rng: &mut ChaCha20Rng) -> Rel {
            let cs = self.cs(rng.next_u64());
            let z = System::<C::S>::z(&cs);
            Rel { u: BigUint::one(), x: bigs(&z[1..=self.nx]), w: bigs(&z[self.nx + 1..]), e: vec![BigUint::zero(); self.rows.len()] }
        }
        /// any satisfied relaxed instance
        pub fn any(&self, rng: &mut ChaCha20Rng) -> (Rel, &'static str) {
            let p = self.p();
            match below(rng, 4) {
                0 => (Rel { u: BigUint::zero(), x: vec![BigUint::zero(); self.nx], w: vec![BigUint::zero(); self.nw], e: vec![BigUint::zero(); self.rows.len()] }, "trivial"),
                1 => (self.strict(rng), "fresh"),
                _ => {
                    let u = gen_val(rng, &p);
                    let x: Vec<_> = (0..self.nx).map(|_| gen_val(rng, &p)).collect();
                    let w: Vec<_> = (0..self.nw).map(|_| gen_val(rng, &p)).collect();
                    let e = self.abc(&u, &x, &w).iter().map(|[a, b, c]| (a * b + &p * &p - &u * c) % &p).collect();
                    (Rel { u, x, w, e }, "relaxed")
                }
            }
        }
        pub fn inst(&self, r: &Rel) -> RelaxedInstance<C> {
            relaxed_instance::<C>(self.key.commit(&r.w), self.key.commit(&r.e), C::S::of(&r.u), of_bigs(&r.x))
        }
        pub fn wit(&self, r: &Rel) -> RelaxedWitness<C> {
            relaxed_witness::<C>(of_bigs(&r.w), of_bigs(&r.e))
        }
        pub fn sinst(&self, r: &Rel) -> Instance<C> {
            instance::<C>(self.key.commit(&r.w), of_bigs(&r.x))
        }
        pub fn swit(&self, r: &Rel) -> Witness<C> {
            witness::<C>(of_bigs(&r.w))
        }
        pub fn cross(&self, a: &Rel, b: &Rel) -> Vec<BigUint> {
            let p = self.p();
            let one = BigUint::one();
            self.abc(&a.u, &a.x, &a.w).iter().zip(self.abc(&one, &b.x, &b.w)).map(|([a1, b1, c1], [a2, b2, c2])| (a1 * b2 + b1 * a2 + (&p * &p - &a.u * c2) + (&p - c1)) % &p).collect()
        }
        pub fn challenge(&self, t: &Pt<BigUint>, w: &Pt<BigUint>, e: &Pt<BigUint>, u: &BigUint, x: &[BigUint]) -> BigUint {
            let q = C::B::modulus();
            let mut items = [point_items(t), point_items(w), point_items(e)].concat();
            items.push(u % &q);
            for v in x {
                items.extend(limbs64(v));
            }
            self.mimc.squeeze(&items, 128)
        }
        pub fn fold(&self, a: &Rel, b: &Rel, t: &[BigUint], r: &BigUint) -> Rel {
            let p = self.p();
            let mix = |a: &[BigUint], b: &[BigUint]| a.iter().zip(b).map(|(a, b)| (a + b * r) % &p).collect::<Vec<_>>();
            Rel { u: (&a.u + r) % &p, x: mix(&a.x, &b.x), w: mix(&a.w, &b.w), e: mix(&a.e, t) }
        }
        pub fn back(&self, i: &RelaxedInstance<C>, w: &RelaxedWitness<C>) -> (Rel, Aff<C>, Aff<C>) {
            let (cw, ce, u, x) = relaxed_instance_parts(i);
            let (w, e) = relaxed_witness_parts(w);
            (Rel { u: u.big(), x: bigs(&x), w: bigs(&w), e: bigs(&e) }, cw, ce)
        }
        pub fn aff(&self, logs: &[BigUint]) -> (Aff<C>, Pt<BigUint>) {
            let a = self.key.commit(logs);
            (a, <C::K as KCurve>::obs_a(a))
        }
    }

    /// fold everything the oracle way and compare
    fn judge<C: Drv>(w: &World<C>, a: &Rel, b: &Rel) -> Result<Rel, kmon::mon::Fail> {
        let d = || format!("{} a {a:?} b {b:?}", w.desc);
        let (ia, ib) = (w.inst(a), w.sinst(b));
        let (i, wi, ct) = w.prover.prove(&ia, &w.wit(a), &ib, &w.swit(b));
        let t = w.cross(a, b);
        let (cta, ctp) = w.aff(&t);
        ensure!(ct == cta, "commitment to the cross term differs: {}", d());
        let r = w.challenge(&ctp, &w.aff(&a.w).1, &w.aff(&a.e).1, &a.u, &a.x);
        let (got, cw, ce) = w.back(&i, &wi);
        let want = w.fold(a, b, &t, &r);
        eqv!(got.u, want.u, "u (hence the challenge) after folding: {}", d());
        eqv!(got.x, want.x, "folded inputs: {}", d());
        eqv!(got.w, want.w, "folded witness: {}", d());
        eqv!(got.e, want.e, "folded error vector: {}", d());
        ensure!(cw == w.aff(&want.w).0, "folded commitment to w does not open: {}", d());
        ensure!(ce == w.aff(&want.e).0, "folded commitment to e does not open: {}", d());
        let v = Verifier::verify(ct, &ia, &ib);
        ensure!(v == i, "verifier folds differently from prover: {}", d());
        let (sat, truth) = (w.shape.is_sat_relaxed(&i, &wi), w.relaxed(&want));
        eqv!(sat, truth, "satisfaction of the folded instance: {}", d());
        Ok(want)
    }

    fn honest<C: Drv>(cx: &mut Cx) {
        for _ in 0..cx.n(60, 3000) {
            if cx.full() {
                break;
            }
            let w = World::<C>::new(&mut cx.rng);
            let (mut a, kind) = w.any(&mut cx.rng);
            let steps = 1 + below(&mut cx.rng, 4);
            for k in 0..steps {
                let b = w.strict(&mut cx.rng);
                cx.count(if k == 0 { kind } else { "folded again" }, 1);
                cx.sample(|| format!("{} {kind}", w.desc));
                let mut next = None;
                cx.case((w.desc.clone(), format!("{a:?}{b:?}")), true, || {
                    ensure!(w.relaxed(&a) && w.relaxed(&b), "oracle: the inputs are not satisfied");
                    ensure!(w.shape.is_sat(&w.key.ck, &w.sinst(&b), &w.swit(&b)), "a satisfied instance is not accepted: {}", w.desc);
                    ensure!(w.shape.is_sat_relaxed(&w.inst(&a), &w.wit(&a)), "a satisfied relaxed instance is not accepted: {} {a:?}", w.desc);
                    let f = judge(&w, &a, &b)?;
                    ensure!(w.relaxed(&f), "folding two satisfied instances is not satisfied: {}", w.desc);
                    next = Some(f);
                    Ok(())
                });
                match next {
                    Some(f) => a = f,
                    None => break,
                }
            }
        }
    }
    fn spoil(rng: &mut ChaCha20Rng, v: &mut Vec<BigUint>, p: &BigUint) -> bool {
        if v.is_empty() {
            return false;
        }
        let i = below(rng, v.len() as u64) as usize;
        let old = v[i].clone();
        v[i] = match below(rng, 4) {
            0 => (&old + 1u32) % p,
            1 => (p - &old) % p,
            2 => BigUint::zero(),
            _ => gen_val(rng, p),
        };
        v[i] != old
    }
    fn lies<C: Drv>(cx: &mut Cx) {
        let p = C::S::modulus();
        for _ in 0..cx.n(80, 4000) {
            if cx.full() {
                break;
            }
            let w = World::<C>::new(&mut cx.rng);
            let (mut a, _) = w.any(&mut cx.rng);
            let mut b = w.strict(&mut cx.rng);
            let where_ = ["a.w", "a.e", "a.x", "a.u", "b.w", "b.x", "both"][below(&mut cx.rng, 7) as usize];
            match where_ {
                "a.w" => spoil(&mut cx.rng, &mut a.w, &p),
                "a.e" => spoil(&mut cx.rng, &mut a.e, &p),
                "a.x" => spoil(&mut cx.rng, &mut a.x, &p),
                "a.u" => {
                    let mut v = vec![a.u.clone()];
                    let r = spoil(&mut cx.rng, &mut v, &p);
                    a.u = v.pop().unwrap();
                    r
                }
                "b.w" => spoil(&mut cx.rng, &mut b.w, &p),
                "b.x" => spoil(&mut cx.rng, &mut b.x, &p),
                _ => spoil(&mut cx.rng, &mut a.w, &p) & spoil(&mut cx.rng, &mut b.w, &p),
            };
            let (ta, tb) = (w.relaxed(&a), w.relaxed(&b));
            cx.count(match (ta, tb) {
                (true, true) => "still satisfied",
                (false, true) => "running instance unsatisfied",
                (true, false) => "new instance unsatisfied",
                _ => "both unsatisfied",
            }, 1);
            cx.sample(|| format!("{} {where_}", w.desc));
            cx.case((w.desc.clone(), where_, format!("{a:?}{b:?}")), !(ta && tb), || {
                eqv!(w.shape.is_sat_relaxed(&w.inst(&a), &w.wit(&a)), ta, "relaxed satisfaction {} {a:?}", w.desc);
                eqv!(w.shape.is_sat(&w.key.ck, &w.sinst(&b), &w.swit(&b)), tb, "satisfaction {} {b:?}", w.desc);
                let f = judge(&w, &a, &b)?;
                ensure!(w.relaxed(&f) == (ta && tb), "folding instances satisfied ({ta}, {tb}) gives satisfied {}: {} {where_} {a:?} {b:?}", w.relaxed(&f), w.desc);
                Ok(())
            });
        }
    }
    /// commitments that do not open, vectors of the wrong length
    fn openings<C: Drv>(cx: &mut Cx) {
        for _ in 0..cx.n(40, 2000) {
            if cx.full() {
                break;
            }
            let w = World::<C>::new(&mut cx.rng);
            let b = w.strict(&mut cx.rng);
            let (a, _) = w.any(&mut cx.rng);
            let k = gen_val(&mut cx.rng, &C::S::modulus());
            cx.case((w.desc.clone(), format!("{a:?}{b:?}")), true, || {
                let g = Aff::<C>::ADDITIVE_GENERATOR;
                let off: Aff<C> = (w.key.commit(&b.w) + g).into();
                ensure!(!w.shape.is_sat(&w.key.ck, &instance::<C>(off, of_bigs(&b.x)), &w.swit(&b)), "accepted with a commitment off by the generator: {}", w.desc);
                ensure!(!w.shape.is_sat(&w.key.ck, &instance::<C>(-w.key.commit(&b.w), of_bigs(&b.x)), &w.swit(&b)) || w.key.log(&b.w).is_zero(), "accepted with a negated commitment: {}", w.desc);
                for d in [-1i64, 1, 2] {
                    let cut = |v: &[BigUint], fill: &BigUint| -> Option<Vec<BigUint>> {
                        let n = v.len() as i64 + d;
                        let mut v = v.to_vec();
                        (n >= 0).then(|| {
                            v.resize(n as usize, fill.clone());
                            v
                        })
                    };
                    for fill in [BigUint::zero(), k.clone()] {
                        if let Some(x) = cut(&b.x, &fill) {
                            let r = guard(|| w.shape.is_sat(&w.key.ck, &instance::<C>(w.key.commit(&b.w), of_bigs(&x)), &w.swit(&b)));
                            ensure!(r != Ok(true), "accepted {} inputs instead of {}: {}", x.len(), w.nx, w.desc);
                            let r = guard(|| w.shape.is_sat_relaxed(&relaxed_instance::<C>(w.key.commit(&a.w), w.key.commit(&a.e), C::S::of(&a.u), of_bigs(&x)), &w.wit(&a)));
                            ensure!(r != Ok(true), "relaxed: accepted {} inputs instead of {}: {}", x.len(), w.nx, w.desc);
                        }
                        if let Some(v) = cut(&b.w, &fill) {
                            let r = guard(|| w.shape.is_sat(&w.key.ck, &instance::<C>(commit::<C>(&w.key.ck, of_bigs(&v)), of_bigs(&b.x)), &witness::<C>(of_bigs(&v))));
                            ensure!(r != Ok(true), "accepted {} witness elements instead of {}: {}", v.len(), w.nw, w.desc);
                            let r = guard(|| w.shape.is_sat_relaxed(&w.inst(&a), &relaxed_witness::<C>(of_bigs(&v), of_bigs(&a.e))));
                            ensure!(r != Ok(true), "relaxed: accepted {} witness elements instead of {}: {}", v.len(), w.nw, w.desc);
                        }
                        if let Some(e) = cut(&a.e, &fill) {
                            let r = guard(|| w.shape.is_sat_relaxed(&w.inst(&a), &relaxed_witness::<C>(of_bigs(&a.w), of_bigs(&e))));
                            ensure!(r != Ok(true), "accepted {} errors for {} constraints: {}", e.len(), w.rows.len(), w.desc);
                        }
                    }
                }
                Ok(())
            });
        }
    }
    /// the challenge moves with everything it is drawn from
    fn binding<C: Drv>(cx: &mut Cx) {
        for _ in 0..cx.n(40, 2000) {
            if cx.full() {
                break;
            }
            let w = World::<C>::new(&mut cx.rng);
            let (a, _) = w.any(&mut cx.rng);
            let b = w.strict(&mut cx.rng);
            let p = C::S::modulus();
            let (g, k) = (Aff::<C>::ADDITIVE_GENERATOR, C::S::of(&gen_rand(&mut cx.rng, &p)));
            cx.case((w.desc.clone(), format!("{a:?}{b:?}")), true, || {
                let t = w.key.commit(&w.cross(&a, &b));
                let (ia, ib) = (w.inst(&a), w.sinst(&b));
                let (cw, ce, u, x) = relaxed_instance_parts(&ia);
                let draw = |t: Aff<C>, cw: Aff<C>, ce: Aff<C>, u: C::S, x: Vec<C::S>| {
                    let v = Verifier::verify(t, &relaxed_instance::<C>(cw, ce, u, x), &ib);
                    relaxed_instance_parts(&v).2 - u
                };
                let r = draw(t, cw, ce, u, x.clone());
                ensure!(r.big() < pow2(128), "a challenge of more than 128 bits: {}", w.desc);
                eqv!(draw(t, cw, ce, u, x.clone()), r, "the challenge is not a function of the transcript: {}", w.desc);
                let mut alt = vec![
                    ("commit_t", draw((t + g).into(), cw, ce, u, x.clone())),
                    ("commit_w", draw(t, (cw + g).into(), ce, u, x.clone())),
                    ("commit_e", draw(t, cw, (ce + g).into(), u, x.clone())),
                    ("u", draw(t, cw, ce, u + C::S::one(), x.clone())),
                    ("u", draw(t, cw, ce, u + k, x.clone())),
                ];
                if t != -t {
                    alt.push(("the sign of commit_t", draw(-t, cw, ce, u, x.clone())));
                }
                if cw != -cw {
                    alt.push(("the sign of commit_w", draw(t, -cw, ce, u, x.clone())));
                }
                if cw != ce {
                    alt.push(("the order of the commitments", draw(t, ce, cw, u, x.clone())));
                }
                for i in 0..x.len() {
                    let mut y = x.clone();
                    y[i] = y[i] + k;
                    alt.push(("an input", draw(t, cw, ce, u, y)));
                    // every limb of the input
                    for s in [1u64, 64, 128, 192] {
                        let mut y = x.clone();
                        y[i] = y[i] + C::S::of(&pow2(s));
                        alt.push(("a limb of an input", draw(t, cw, ce, u, y)));
                    }
                }
                for (what, v) in alt {
                    ensure!(v != r, "the challenge does not depend on {what}: {}", w.desc);
                }
                Ok(())
            });
        }
    }
    /// An instance made after the challenge is known folds away although it is unsatisfied.
    fn adaptive<C: Drv>(cx: &mut Cx) {
        let p = C::S::modulus();
        for _ in 0..cx.n(4, 60) {
            if cx.full() {
                break;
            }
            let w = World::<C>::new(&mut cx.rng);
            let (a, star) = (w.strict(&mut cx.rng), w.strict(&mut cx.rng));
            if w.nx == 0 && w.nw == 0 {
                continue;
            }
            cx.case((w.desc.clone(), format!("{a:?}{star:?}")), true, || {
                let ia = w.inst(&a);
                let t = Aff::<C>::ADDITIVE_IDENTITY;
                let r = relaxed_instance_parts(&Verifier::verify(t, &ia, &w.sinst(&star))).2.big();
                let r = (r + &p - 1u32) % &p;
                let u3 = (&r + 1u32) % &p;
                let ri = r.modpow(&(&p - 2u32), &p);
                let mk = |s: &[BigUint], a: &[BigUint]| s.iter().zip(a).map(|(s, a)| (&u3 * s + &p - a) % &p * &ri % &p).collect::<Vec<_>>();
                let b = Rel { u: BigUint::one(), x: mk(&star.x, &a.x), w: mk(&star.w, &a.w), e: a.e.clone() };
                if w.relaxed(&b) {
                    return Ok(());
                }
                let f = Verifier::verify(t, &ia, &w.sinst(&b));
                let wit = relaxed_witness::<C>(a.w.iter().zip(&b.w).map(|(a, b)| C::S::of(&((a + b * &r) % &p))).collect(), of_bigs(&a.e));
                let (cw, ce, ..) = relaxed_instance_parts(&f);
                let (wv, ev) = relaxed_witness_parts(&wit);
                if w.shape.is_sat_relaxed(&f, &wit) && cw == commit::<C>(&w.key.ck, wv) && ce == commit::<C>(&w.key.ck, ev) {
                    return fail("instance2-not-absorbed", format!("an unsatisfied instance chosen after the challenge folds to a satisfied one: {}", w.desc));
                }
                Ok(())
            });
        }
    }
    pub fn classes<C: Drv>(c: &mut Check) {
        c.sharded(&format!("{}/honest", C::N), 2, honest::<C>);
        c.sharded(&format!("{}/unsatisfied", C::N), 2, lies::<C>);
        c.class(&format!("{}/openings", C::N), openings::<C>);
        c.class(&format!("{}/binding", C::N), binding::<C>);
        c.class(&format!("{}/adaptive", C::N), adaptive::<C>);
    }
}

fn main() {
    let mut c = Check::new("P25", "distinct (relation, running instance, new instance) triples folded and judged against the big-integer fold");
    c.assume("generators of the commitment keys have known logarithms, so that the oracle opens commitments without the code's scalar multiplication");
    #[cfg(kogarashi_verif)]
    {
        hooked::classes::<zknova::Bn254Driver>(&mut c);
        hooked::classes::<zknova::GrumpkinDriver>(&mut c);
    }
    #[cfg(not(kogarashi_verif))]
    fallback(&mut c);
    c.run()
}
