//! P30: the big integers of the folding circuit compute modulo another field's order, and nothing else satisfies them.
use kmon::nova::*;
use kmon::prelude::*;
use kmon::{ensure, eqv};
use zkstd::circuit::prelude::*;
use zkstd::common::*;

#[cfg(kogarashi_verif)]
mod hooked {
    use super::*;
    use num_bigint::{BigInt, Sign};
    use std::collections::BTreeMap;
    use zknova::verif::BigNat;

    const W: usize = 64;
    const N: usize = 4;
    fn int(v: &BigUint) -> BigInt {
        BigInt::from_biguint(Sign::Plus, v.clone())
    }
    /// a number below 2^256, often at an edge
    fn num(rng: &mut ChaCha20Rng, p: &BigUint) -> BigUint {
        match below(rng, 7) {
            0 => gen_val(rng, p),
            1 => pow2(256) - 1u32 - BigUint::from(below(rng, 3)),
            2 => p + BigUint::from(below(rng, 3)),
            // limbs of all zeros and all ones
            3 => (0..4).fold(BigUint::zero(), |a, _| (a << 64u32) + if below(rng, 2) == 0 { BigUint::zero() } else { BigUint::from(u64::MAX) }),
            4 => BigUint::from(below(rng, 4)) << below(rng, 254),
            5 => { let n = below(rng, 257); rand_big(rng, n) }
            _ => rand_big(rng, 256),
        }
    }
    fn modulus(rng: &mut ChaCha20Rng, p: &BigUint, q: &BigUint) -> BigUint {
        match below(rng, 8) {
            0 | 1 => q.clone(),
            6 => rand_big(rng, 1 + below(&mut rng.clone(), 64)) | BigUint::one(),
            7 => (BigUint::one() + rand_big(rng, 64) << 64u32) + below(rng, 1 << 40),
            2 => p.clone(),
            3 => BigUint::from(1 + below(rng, 300)),
            4 => pow2(64 * (1 + below(rng, 3))) - BigUint::from(below(rng, 2)),
            _ => num(rng, p).max(BigUint::one()),
        }
    }
    /// a circuit with its inputs, what its result denotes, and how to judge that
    struct Case<C: Drv> {
        /// dividend, modulus and number of quotient limbs of a division
        division: Option<(BigUint, BigUint, usize)>,
        desc: String,
        cs: R1cs<C>,
        inputs: usize,
        limbs: Vec<FieldAssignment<C::S>>,
        width: usize,
        bits: Vec<BinaryAssignment>,
        want: BigUint,
        /// the result counts up to multiples of this
        modulo: Option<BigUint>,
        holds: bool,
        /// values a cheat would like the result to have, and quotients to go with them
        cheats: Vec<(BigUint, Option<BigUint>)>,
    }
    const OPS: &[&str] = &["of-field", "add", "mult-mod", "red-mod", "fold", "select", "decompose", "well-formed", "enforce-eq", "carried", "carried-regroup", "group"];

    fn build<C: Drv>(op: &str, shape: &mut ChaCha20Rng, vals: &mut ChaCha20Rng) -> Case<C> {
        let p = C::S::modulus();
        let q = C::B::modulus();
        let mut cs = R1cs::<C>::default();
        for _ in 0..below(shape, 3) {
            let v = C::S::of(&gen_val(vals, &p));
            FieldAssignment::instance(&mut cs, v);
        }
        let nat = |cs: &mut R1cs<C>, v: &BigUint| BigNat::<C::S>::witness_from_big_int(cs, int(v), W, N);
        let mut c = Case { division: None, desc: op.into(), cs: R1cs::default(), inputs: 0, limbs: vec![], width: W, bits: vec![], want: BigUint::zero(), modulo: None, holds: true, cheats: vec![] };
        let constant = below(shape, 2) == 0;
        let md = |cs: &mut R1cs<C>, m: &BigUint| if constant { BigNat::<C::S>::constant(&int(m), W, N) } else { nat(cs, m) };
        let m = if constant { modulus(shape, &p, &q) } else { modulus(vals, &p, &q) };
        // sums of a remainder and a field element stay below 2^256
        let m = if op == "fold" { (m >> 2u32).max(BigUint::one()) } else { m };
        let (x, y) = (num(vals, &p), num(vals, &p));
        // two numbers with a third as their sum, in another representation
        let parts = |vals: &mut ChaCha20Rng, v: &BigUint| {
            let a = rand_big(vals, 256).min(v.clone()) >> below(vals, 200);
            (a.clone(), v - a)
        };
        let out = match op {
            "of-field" => {
                let v = gen_val(vals, &p);
                c.desc += &format!(" {v:x}");
                let f = FieldAssignment::witness(&mut cs, C::S::of(&v));
                c.inputs = cs.m_l_1();
                c.want = v.clone();
                c.cheats.push((&v + &p, None));
                let r = BigNat::witness_from_field_assignment(&mut cs, &f, W, N);
                Some(r)
            }
            "add" => {
                c.desc += &format!(" {x:x} {y:x}");
                let (a, b) = (nat(&mut cs, &x), nat(&mut cs, &y));
                c.inputs = cs.m_l_1();
                c.want = &x + &y;
                Some(a.add(&b))
            }
            "mult-mod" => {
                c.desc += &format!(" {x:x} {y:x} mod {m:x}");
                let (a, b) = (nat(&mut cs, &x), nat(&mut cs, &y));
                let mm = md(&mut cs, &m);
                c.inputs = cs.m_l_1();
                let (qq, r) = (&x * &y / &m, &x * &y % &m);
                for k in 1..4u32 {
                    c.cheats.push((&r + &p * k, None));
                    c.cheats.push((&r + &m * k, Some(qq.clone().max(k.into()) - k)));
                }
                c.cheats.push(((&r + 1u32) % &m, None));
                c.division = Some((&x * &y, m.clone(), 8));
                c.want = r;
                c.modulo = Some(m);
                Some(a.mult_mod(&mut cs, &b, &mm))
            }
            "red-mod" => {
                c.desc += &format!(" {x:x} mod {m:x}");
                let a = nat(&mut cs, &x);
                let mm = md(&mut cs, &m);
                c.inputs = cs.m_l_1();
                let (qq, r) = (&x / &m, &x % &m);
                for k in 1..4u32 {
                    c.cheats.push((&r + &p * k, None));
                    c.cheats.push((&r + &m * k, Some(qq.clone().max(k.into()) - k)));
                }
                c.cheats.push(((&r + 1u32) % &m, None));
                c.division = Some((x.clone(), m.clone(), 4));
                c.want = r;
                c.modulo = Some(m);
                Some(a.red_mod(&mut cs, &mm))
            }
            "fold" => {
                // x + r y mod the order, as instances are folded
                let (x, y) = (gen_val(vals, &q), gen_val(vals, &q));
                let r = rand_big(vals, 128);
                c.desc += &format!(" {x:x} + {r:x} * {y:x}");
                let (a, b, rr) = (nat(&mut cs, &x), nat(&mut cs, &y), nat(&mut cs, &r));
                let mm = md(&mut cs, &m);
                c.inputs = cs.m_l_1();
                let t = b.mult_mod(&mut cs, &rr, &mm);
                let s = a.add(&t);
                c.want = (&x + &y * &r) % &m;
                c.modulo = Some(m);
                Some(s.red_mod(&mut cs, &mm))
            }
            "select" => {
                let b = below(vals, 2);
                c.desc += &format!(" {b} {x:x} {y:x}");
                let (xa, ya) = (nat(&mut cs, &x), nat(&mut cs, &y));
                let bit = BinaryAssignment::witness(&mut cs, b as u8);
                c.inputs = cs.m_l_1();
                c.want = if b == 1 { x } else { y };
                Some(BigNat::conditional_select(&mut cs, &xa, &ya, &bit))
            }
            "decompose" => {
                let sum = below(shape, 2) == 0;
                c.desc += &format!(" {x:x} + {sum} {y:x}");
                let (a, b) = (nat(&mut cs, &x), nat(&mut cs, &y));
                c.inputs = cs.m_l_1();
                let v = if sum { a.add(&b) } else { a };
                c.want = x.clone();
                if sum {
                    c.holds = limbs64(&x).iter().zip(limbs64(&y)).all(|(a, b)| a + b < pow2(64));
                    c.want = &x + &y;
                }
                c.bits = v.decompose(&mut cs);
                None
            }
            "well-formed" => {
                c.desc += &format!(" {x:x} + {y:x}");
                let (a, b) = (nat(&mut cs, &x), nat(&mut cs, &y));
                let v = a.add(&b);
                c.inputs = cs.m_l_1();
                // limbs of a sum may be longer than their words; the check knows the width of the sum's words
                c.holds = limbs64(&x).iter().zip(limbs64(&y)).all(|(a, b)| a + b < pow2(64));
                v.enforce_well_formed(&mut cs);
                None
            }
            "enforce-eq" => {
                let y = if below(vals, 2) == 0 { x.clone() } else { y };
                c.desc += &format!(" {x:x} {y:x}");
                let (a, b) = (nat(&mut cs, &x), nat(&mut cs, &y));
                c.inputs = cs.m_l_1();
                c.holds = x == y;
                BigNat::enforce_eq(&mut cs, &a, &b);
                None
            }
            "carried" | "carried-regroup" => {
                // sums of two against sums of two
                let x = &x >> 1u32;
                let y = match below(vals, 5) {
                    0 | 1 => x.clone(),
                    2 => if x > p { &x - &p } else { &x + &p },
                    3 => if x.bit(70) { &x - pow2(70) } else { &x + pow2(70) },
                    _ => y >> 1u32,
                };
                let (x0, x1) = parts(vals, &x);
                let (y0, y1) = parts(vals, &y);
                // the second may have further limbs
                let len = N + below(shape, 2) as usize * (1 + below(shape, 3) as usize);
                let extra = if len > N && below(vals, 2) == 0 { BigUint::one() << (256 + below(vals, 64 * (len - N) as u64)) } else { BigUint::zero() };
                c.desc += &format!(" {x0:x}+{x1:x} {y0:x}+{y1:x}+{extra:x}");
                let (a, b) = (nat(&mut cs, &x0), nat(&mut cs, &x1));
                let (d, e) = (nat(&mut cs, &y0), BigNat::<C::S>::witness_from_big_int(&mut cs, int(&(y1 + &extra)), W, len));
                c.inputs = cs.m_l_1();
                c.holds = x == y && extra.is_zero();
                let (l, r) = (a.add(&b), d.add(&e));
                let (l, r) = if below(shape, 2) == 0 { (l, r) } else { (r, l) };
                if op == "carried" {
                    l.enforce_equal_when_carried(&mut cs, &r);
                } else {
                    l.enforce_equal_when_carried_regroup(&mut cs, &r);
                }
                None
            }
            "group" => {
                let n = 1 + below(shape, 4) as usize;
                // a group must not outgrow the field
                let x = if n > 3 { x % &p } else { x };
                c.desc += &format!(" {x:x} by {n}");
                let a = nat(&mut cs, &x);
                c.inputs = cs.m_l_1();
                c.want = x;
                c.width = W * n;
                Some(a.group_limbs(&mut cs, n))
            }
            o => panic!("no operation {o}"),
        };
        if let Some(o) = out {
            if let Ok(v) = guard(|| o.value(&cs)) {
                c.desc += &format!(" -> {v:x}");
            }
            c.limbs = o.as_limbs();
        }
        c.cs = cs;
        c
    }
    impl<C: Drv> Case<C> {
        fn value(&self, z: &[C::S], sys: &System<C::S>) -> (BigUint, bool) {
            let xw = sys.split(z);
            if !self.bits.is_empty() {
                let b: Vec<BigUint> = self.bits.iter().map(|b| eval_in(&FieldAssignment::from(b), &xw).big()).collect();
                return (b.iter().fold(BigUint::zero(), |a, b| a * 2u32 + b), b.iter().all(|b| *b <= BigUint::one()));
            }
            let l: Vec<BigUint> = self.limbs.iter().map(|l| eval_in(l, &xw).big()).collect();
            (l.iter().rev().fold(BigUint::zero(), |a, l| (a << self.width) + l), l.iter().all(|l| l.bits() <= W as u64))
        }
        /// is the result right under z?
        fn judge(&self, z: &[C::S], sys: &System<C::S>, exact: bool) -> R {
            if self.limbs.is_empty() && self.bits.is_empty() {
                return Ok(());
            }
            let (v, formed) = self.value(z, sys);
            match &self.modulo {
                Some(m) => {
                    ensure!(formed, "{}: a limb of the result exceeds its width", self.desc);
                    ensure!(&v % m == self.want, "{}: the result is {v:x}, must be {:x} modulo {m:x}", self.desc, self.want);
                    ensure!(!exact || v == self.want, "{}: the honest result is {v:x}, must be {:x}", self.desc, self.want);
                }
                None => ensure!(v == self.want, "{}: the result is {v:x}, must be {:x}", self.desc, self.want),
            }
            Ok(())
        }
    }
    /// solution of a linear system modulo p, free unknowns zero
    fn solve(p: &BigUint, mut rows: Vec<Vec<BigUint>>, n: usize) -> Option<Vec<BigUint>> {
        let o = Fp::new(p.clone());
        let mut pivots = vec![];
        let mut at = 0;
        for c in 0..n {
            let Some(r) = (at..rows.len()).find(|r| !rows[*r][c].is_zero()) else { continue };
            rows.swap(at, r);
            let i = o.inv(&rows[at][c]).unwrap();
            rows[at].iter_mut().for_each(|v| *v = o.mul(v, &i));
            for r in 0..rows.len() {
                if r != at && !rows[r][c].is_zero() {
                    let k = rows[r][c].clone();
                    for j in 0..=n {
                        rows[r][j] = o.sub(&rows[r][j], &o.mul(&k, &rows[at][j]));
                    }
                }
            }
            pivots.push(c);
            at += 1;
        }
        if rows[at..].iter().any(|r| !r[n].is_zero()) {
            return None;
        }
        let mut x = vec![BigUint::zero(); n];
        for (r, c) in pivots.iter().enumerate() {
            x[*c] = rows[r][n].clone();
        }
        Some(x)
    }
    /// quotient limbs and remainders that divide only if something is not checked
    fn divisions(p: &BigUint, ab: &BigUint, m: &BigUint, nq: usize) -> Vec<(Vec<BigUint>, BigUint)> {
        let o = Fp::new(p.clone());
        let ml = limbs64(m);
        let split = |v: &BigUint, n: usize| (0..n).map(|i| (v >> (64 * i)) % pow2(64)).collect::<Vec<_>>();
        let (q, r) = (ab / m, ab % m);
        let mut out = vec![];
        // limbs of the quotient anywhere in the field: groups of two agree without a carry changing
        for last in 0..nq {
            // only the limbs from `last` on leave their range
            let n = nq - last;
            let groups = (nq + 4) / 2;
            let mut rows = vec![vec![BigUint::zero(); n + 1]; groups];
            for i in 0..n {
                for j in 0..4 {
                    let k = last + i + j;
                    let v = if k % 2 == 0 { ml[j].clone() } else { &ml[j] << 64u32 };
                    rows[k / 2][i] = o.add(&rows[k / 2][i], &(v % p));
                }
            }
            rows[0][n] = p - 1u32;
            if let Some(d) = solve(p, rows, n) {
                let mut ql = split(&q, nq);
                for i in 0..n {
                    ql[last + i] = o.add(&ql[last + i], &d[i]);
                }
                out.push((ql, &r + 1u32));
            }
        }
        // all but the highest limb in range: the product agrees with the dividend that far, the highest makes up the rest
        if m.bits() <= 64 && m.bit(0) {
            let base = pow2(64 * (nq as u64 - 2));
            let inv = m.modpow(&(pow2(64 * (nq as u64 - 2) - 1) - 1u32), &base);
            let r = &r + 1u32;
            let low = (ab + &base - &r % &base) * inv % &base;
            let rest = o.sub(&(ab % p), &((&low * m + &r) % p));
            let top = o.mul(&rest, &o.inv(&(m << (64 * (nq - 1))).modpow(&BigUint::one(), p)).unwrap());
            let mut ql = split(&low, nq);
            ql[nq - 1] = top;
            out.push((ql, r));
        }
        // limbs of the product beyond the dividend are forgotten
        if !ml[1].is_zero() && ml[2].is_zero() && ml[3].is_zero() {
            for k in 1..4u32 {
                let n = ab + (&ml[1] * k << (64 * nq));
                let (q, r) = (&n / m, n % m);
                if q.bits() <= 64 * nq as u64 && q.clone() >> (64 * (nq - 1)) == k.into() {
                    out.push((split(&q, nq), r));
                }
            }
        }
        out
    }
    fn values<C: Drv>(op: &'static str, cx: &mut Cx) {
        for _ in 0..cx.n(if op == "mult-mod" || op == "fold" { 40 } else { 120 }, 6_000) {
            if cx.full() {
                break;
            }
            let (s, v) = (cx.rng.next_u64(), cx.rng.next_u64());
            let mut seen = None;
            cx.case((op, s, v), true, || {
                let mut k = build::<C>(op, &mut ChaCha20Rng::seed_from_u64(s), &mut ChaCha20Rng::seed_from_u64(v));
                seen = Some((k.desc.clone(), k.holds));
                let sys = System::<C::S>::of(&k.cs);
                let z = System::<C::S>::z(&k.cs);
                if k.holds {
                    k.judge(&z, &sys, true)?;
                    ensure!(k.cs.is_sat(), "{}: the honest witness is refused", k.desc);
                } else {
                    ensure!(!k.cs.is_sat(), "{}: the relation is false and the constraints hold", k.desc);
                }
                Ok(())
            });
            if let Some((d, h)) = seen {
                cx.count(if h { "true relations" } else { "false relations" }, 1);
                cx.sample(|| d);
            }
        }
    }
    /// structure does not depend on the values
    fn structure<C: Drv>(op: &'static str, cx: &mut Cx) {
        for _ in 0..cx.n(8, 400) {
            if cx.full() {
                break;
            }
            let s = cx.rng.next_u64();
            let vs: Vec<u64> = (0..3).map(|_| cx.rng.next_u64()).collect();
            cx.count("structures", 1);
            cx.case((op, "structure", s), true, || {
                let b: Vec<Case<C>> = vs.iter().map(|v| build::<C>(op, &mut ChaCha20Rng::seed_from_u64(s), &mut ChaCha20Rng::seed_from_u64(*v))).collect();
                for d in &b[1..] {
                    ensure!(d.cs.matrices() == b[0].cs.matrices(), "matrices differ for [{}] and [{}]", b[0].desc, d.desc);
                }
                Ok(())
            });
        }
    }
    fn sound<C: Drv>(op: &'static str, cx: &mut Cx) {
        for _ in 0..cx.n(if op == "mult-mod" || op == "fold" { 8 } else { 16 }, 800) {
            if cx.full() {
                break;
            }
            let (s, v, sd) = (cx.rng.next_u64(), cx.rng.next_u64(), cx.rng.next_u64());
            let mut got = (0, 0, 0);
            cx.case((op, "sound", s, v), true, || {
                let k = build::<C>(op, &mut ChaCha20Rng::seed_from_u64(s), &mut ChaCha20Rng::seed_from_u64(v));
                let sys = System::<C::S>::of(&k.cs);
                let z = System::<C::S>::z(&k.cs);
                let fixed: BTreeMap<usize, C::S> = (0..sys.nx + k.inputs).map(|i| (i, z[i])).collect();
                let f = Forger::new(&sys);
                let mut judge = |zz: &[C::S]| -> R {
                    ensure!(k.holds, "{}: the relation is false and a witness satisfies it", k.desc);
                    k.judge(zz, &sys, false)
                };
                // numbers with other limbs: the wires of the result hold a cheat, whatever leads there follows
                let wires: Vec<Option<usize>> = k.limbs.iter().map(|l| wire(l, sys.nx)).collect();
                let mut plans = vec![];
                let hints = k.inputs + sys.nx;
                let at = |v: &BigUint, from: usize, n: usize, m: &mut BTreeMap<usize, C::S>| {
                    for (i, l) in (0..n).map(|i| (i, (v >> (64 * i)) % pow2(64))) {
                        m.insert(from + i, C::S::of(&l));
                    }
                };
                for (t, q) in &k.cheats {
                    let mut m = BTreeMap::new();
                    for (i, w) in wires.iter().enumerate() {
                        if let Some(w) = w {
                            // the last limb takes what is left, though it be too long
                            let l = t >> (64 * i);
                            m.insert(*w, C::S::of(&(if i + 1 == wires.len() { l % C::S::modulus() } else { l % pow2(64) })));
                        }
                    }
                    if let Some(q) = q {
                        at(q, hints, if op == "red-mod" { 4 } else { 8 }, &mut m);
                    }
                    plans.push(m);
                }
                if let Some((ab, md, nq)) = &k.division {
                    let w: Option<Vec<usize>> = wires.iter().cloned().collect();
                    for (q, r) in divisions(&C::S::modulus(), ab, md, *nq) {
                        let mut m: BTreeMap<usize, C::S> = q.iter().enumerate().map(|(i, l)| (hints + i, C::S::of(l))).collect();
                        if let Some(w) = &w {
                            m.extend(w.iter().zip(limbs64(&r)).map(|(i, l)| (*i, C::S::of(&l))));
                        }
                        plans.push(m);
                    }
                }
                // the same number with a longer limb
                for i in 0..wires.len().saturating_sub(1) {
                    if let (Some(a), Some(b)) = (wires[i], wires[i + 1]) {
                        plans.push([(a, z[a] + C::S::of(&pow2(64))), (b, z[b] - C::S::one())].into_iter().collect());
                        plans.push([(a, z[a] - C::S::of(&pow2(64))), (b, z[b] + C::S::one())].into_iter().collect());
                    }
                }
                for m in &plans {
                    got.0 += 1;
                    if let Some(x) = f.run(&fixed, &z, m) {
                        if sys.broken(&x.z).is_empty() {
                            got.1 += 1;
                            got.2 += (k.value(&x.z, &sys).0 != k.value(&z, &sys).0) as u64;
                            judge(&x.z)?;
                        }
                    }
                }
                if k.holds {
                    let (a, b) = f.attack(&mut ChaCha20Rng::seed_from_u64(sd), &fixed, &z, 40, &mut judge)?;
                    got.0 += a;
                    got.1 += b;
                } else {
                    // any witness at all would do
                    got.0 += 1;
                    if let Some(x) = f.run(&fixed, &z, &BTreeMap::new()) {
                        ensure!(!sys.broken(&x.z).is_empty(), "{}: the relation is false and a witness satisfies it", k.desc);
                    }
                }
                Ok(())
            });
            cx.count("forged assignments tried", got.0);
            cx.count("forged assignments satisfying all constraints", got.1);
            cx.count("congruent results other than the honest one", got.2);
        }
    }
    /// index of the only wire of a form
    fn wire<F: KField>(a: &FieldAssignment<F>, nx: usize) -> Option<usize> {
        let e = a.inner().encode();
        if e[0] != 4 || e[e.len() - F::one().encode().len()..] != F::one().encode()[..] {
            return None;
        }
        let e = &e[1..];
        let v = u64::from(parity_scale_codec::Compact::<u64>::decode(&mut &e[1..]).ok()?) as usize;
        Some(if e[0] == 0 { v } else { v + nx })
    }
    pub fn classes<C: Drv>(c: &mut Check) {
        for op in OPS {
            c.class(&format!("{}/{op}", C::N), move |cx| {
                values::<C>(op, cx);
                structure::<C>(op, cx);
            });
            c.class(&format!("{}/{op}-sound", C::N), move |cx| sound::<C>(op, cx));
        }
    }
}

fn main() {
    let mut c = Check::new("P30", "distinct operations on big integers in circuits, judged by integer arithmetic; witnesses forged by propagation judged likewise");
    c.assume("operands below 2^256; a remainder is bound to its class modulo the modulus, not to its least member");
    #[cfg(kogarashi_verif)]
    {
        hooked::classes::<zknova::Bn254Driver>(&mut c);
        hooked::classes::<zknova::GrumpkinDriver>(&mut c);
    }
    #[cfg(not(kogarashi_verif))]
    fallback(&mut c);
    c.run()
}
