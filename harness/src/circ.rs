//! Circuits: independent view of an R1CS, and the witness-forging adversary.
use crate::big::*;
use crate::mon::below;
use num_bigint::BigUint;
use num_traits::Zero;
use rand_core::RngCore;
use std::collections::{BTreeMap, BTreeSet};
use zkstd::circuit::prelude::*;
use zkstd::common::*;
use zkstd::matrix::DenseVectors;

/// Linear form over z = x ++ w.
pub type Lin<F> = Vec<(usize, F)>;
/// An R1CS as the code publishes it column by column, rearranged by rows.
#[derive(Clone)]
pub struct System<F> {
    pub nx: usize,
    pub nw: usize,
    pub rows: Vec<[Lin<F>; 3]>,
}
impl<F: KField> System<F> {
    pub fn of<C: CircuitDriver<Scalar = F>>(cs: &R1cs<C>) -> Self {
        let (nx, nw, m) = (cs.l(), cs.m_l_1(), cs.m() as usize);
        let (x, w) = cs.z_vectors(nx, nw);
        let mut rows: Vec<[Lin<F>; 3]> = (0..m).map(|_| [vec![], vec![], vec![]]).collect();
        for (k, (xs, ws)) in [(x.0, w.0), (x.1, w.1), (x.2, w.2)].into_iter().enumerate() {
            for (j, col) in xs.into_iter().chain(ws).enumerate() {
                for (c, row) in col {
                    rows[row][k].push((j, c));
                }
            }
        }
        System { nx, nw, rows }
    }
    pub fn z<C: CircuitDriver<Scalar = F>>(cs: &R1cs<C>) -> Vec<F> {
        let mut z = cs.x();
        z.extend(cs.w());
        z
    }
    pub fn dot(l: &Lin<F>, z: &[F]) -> F {
        l.iter().fold(F::zero(), |s, (j, c)| s + *c * z[*j])
    }
    pub fn row_holds(&self, r: usize, z: &[F]) -> bool {
        let [a, b, c] = &self.rows[r];
        Self::dot(a, z) * Self::dot(b, z) == Self::dot(c, z)
    }
    pub fn broken(&self, z: &[F]) -> Vec<usize> {
        (0..self.rows.len()).filter(|r| !self.row_holds(*r, z)).collect()
    }
    pub fn split(&self, z: &[F]) -> (DenseVectors<F>, DenseVectors<F>) {
        (DenseVectors::new(z[..self.nx].to_vec()), DenseVectors::new(z[self.nx..].to_vec()))
    }
}
pub fn eval_in<F: KField>(a: &FieldAssignment<F>, xw: &(DenseVectors<F>, DenseVectors<F>)) -> F {
    a.inner().evaluate(&xw.0, &xw.1)
}

fn inv<F: KField>(c: F) -> F {
    let one = F::one();
    if c == one || c == -one {
        c
    } else {
        c.invert().unwrap()
    }
}
/// A field square root on big integers (independent of the code's).
fn sqrt_f<F: KField>(a: F) -> Option<F> {
    crate::curve::sqrt_mod(&a.big(), &F::modulus()).map(|v| F::of(&v))
}

/// The adversary: assigns every wire outside `fixed`, in allocation order, by propagating the constraints; a wire the
/// constraints leave open takes the honest value, except the deviating ones, which take a forged value.
pub struct Forger<'a, F> {
    pub sys: &'a System<F>,
    rows_of: Vec<Vec<usize>>,
    /// rows that have the wire in their third form only
    third_of: Vec<Vec<usize>>,
    thirds: Vec<u32>,
    /// rows that spell a value in bits, for the wires of the bits
    bits_of: BTreeMap<usize, usize>,
}
pub struct Forged<F> {
    pub z: Vec<F>,
    /// wires whose value was chosen (not implied by propagation)
    pub hints: Vec<usize>,
}
enum Step<F> {
    Nothing,
    Set(usize, Vec<F>),
    Conflict,
}
impl<'a, F: KField> Forger<'a, F> {
    pub fn new(sys: &'a System<F>) -> Self {
        let mut rows_of = vec![vec![]; sys.nx + sys.nw];
        let mut third_of = vec![vec![]; sys.nx + sys.nw];
        let mut thirds = vec![0; sys.rows.len()];
        let mut bits_of = BTreeMap::new();
        let powers: BTreeMap<BigUint, u64> = (0..256).map(|i| (pow2(i) % F::modulus(), i)).collect();
        for (r, row) in sys.rows.iter().enumerate() {
            let vars: BTreeSet<usize> = row.iter().flatten().map(|e| e.0).collect();
            for v in vars {
                rows_of[v].push(r);
            }
            let ab: BTreeSet<usize> = row[..2].iter().flatten().map(|e| e.0).collect();
            let c: BTreeSet<usize> = row[2].iter().filter(|e| e.1 != F::zero()).map(|e| e.0).collect();
            // equal wires may cancel: only those that occur once count
            for v in c.difference(&ab).filter(|v| row[2].iter().filter(|e| e.0 == **v).count() == 1) {
                third_of[*v].push(r);
                thirds[r] += 1;
            }
            if thirds[r] >= 8 && row[2].iter().all(|e| powers.contains_key(&e.1.big())) {
                row[2].iter().for_each(|e| {
                    bits_of.entry(e.0).or_insert(r);
                });
            }
        }
        Forger { sys, rows_of, third_of, thirds, bits_of }
    }
    fn lin(&self, l: &Lin<F>, z: &[Option<F>]) -> (F, BTreeMap<usize, F>) {
        let mut k = F::zero();
        let mut u = BTreeMap::new();
        for (j, c) in l {
            match z[*j] {
                Some(v) => k = k + *c * v,
                None => {
                    let e = u.entry(*j).or_insert_with(F::zero);
                    *e = *e + *c;
                }
            }
        }
        u.retain(|_, c| *c != F::zero());
        (k, u)
    }
    fn step(&self, r: usize, z: &[Option<F>]) -> Step<F> {
        let [a, b, c] = &self.sys.rows[r];
        // three unknowns are too many, unless a factor is zero
        let mut seen: [usize; 3] = [usize::MAX; 3];
        let mut n = 0;
        let mut open = |l: &Lin<F>| -> bool {
            let mut any = false;
            for (j, _) in l {
                if z[*j].is_none() {
                    any = true;
                    if !seen[..n].contains(j) && n < 3 {
                        seen[n] = *j;
                        n += 1;
                    }
                    if n == 3 {
                        break;
                    }
                }
            }
            any
        };
        let (oa, ob) = (open(a), open(b));
        open(c);
        if n == 3 && (oa && ob || oa && self.lin(b, z).0 != F::zero() || ob && self.lin(a, z).0 != F::zero() || !oa && !ob) {
            return Step::Nothing;
        }
        let ((a0, au), (b0, bu), (c0, cu)) = (self.lin(a, z), self.lin(b, z), self.lin(c, z));
        // linear when one factor is known
        let lin = if au.is_empty() {
            Some((a0, b0, bu.clone()))
        } else if bu.is_empty() {
            Some((b0, a0, au.clone()))
        } else {
            None
        };
        if let Some((k, o0, ou)) = lin {
            // k*(o0 + ou) = c0 + cu
            let mut e: BTreeMap<usize, F> = BTreeMap::new();
            for (v, c) in ou {
                e.insert(v, k * c);
            }
            for (v, c) in cu {
                let t = e.entry(v).or_insert_with(F::zero);
                *t = *t - c;
            }
            e.retain(|_, c| *c != F::zero());
            let rhs = c0 - k * o0;
            return match e.len() {
                0 if rhs == F::zero() => Step::Nothing,
                0 => Step::Conflict,
                1 => {
                    let (v, c) = e.into_iter().next().unwrap();
                    Step::Set(v, vec![rhs * inv(c)])
                }
                _ => Step::Nothing,
            };
        }
        // quadratic in one variable
        let vars: BTreeSet<usize> = au.keys().chain(bu.keys()).chain(cu.keys()).copied().collect();
        if vars.len() == 1 {
            let v = *vars.iter().next().unwrap();
            let (a1, b1, c1) = (au[&v], bu[&v], cu.get(&v).copied().unwrap_or_else(F::zero));
            let (qa, qb, qc) = (a1 * b1, a0 * b1 + a1 * b0 - c1, a0 * b0 - c0);
            if qc == F::zero() {
                // v * (qa v + qb) = 0
                let r = -qb * inv(qa);
                return Step::Set(v, if r == F::zero() { vec![r] } else { vec![F::zero(), r] });
            }
            let two = F::one() + F::one();
            let disc = qb * qb - two * two * qa * qc;
            return match sqrt_f(disc) {
                None => Step::Conflict,
                Some(s) => {
                    let i = inv(two * qa);
                    let (r1, r2) = ((s - qb) * i, (-s - qb) * i);
                    Step::Set(v, if r1 == r2 { vec![r1] } else { vec![r1, r2] })
                }
            };
        }
        Step::Nothing
    }
    /// `forged`: wire -> value; a value that is implied otherwise makes the attempt fail.
    pub fn run(&self, fixed: &BTreeMap<usize, F>, honest: &[F], forged: &BTreeMap<usize, F>) -> Option<Forged<F>> {
        let n = self.sys.nx + self.sys.nw;
        let mut z: Vec<Option<F>> = vec![None; n];
        let mut hints = vec![];
        let mut queue: Vec<usize> = (0..self.sys.rows.len()).rev().collect();
        let mut open = self.thirds.clone();
        let (mut spelled, mut suggest) = (BTreeSet::new(), BTreeMap::new());
        for (v, x) in fixed {
            z[*v] = Some(*x);
            self.third_of[*v].iter().for_each(|r| open[*r] -= 1);
        }
        let mut quad: BTreeMap<usize, Vec<F>> = BTreeMap::new();
        let mut next = 0usize;
        loop {
            while let Some(r) = queue.pop() {
                // two unknowns that nothing cancels
                if open[r] > 1 {
                    continue;
                }
                match self.step(r, &z) {
                    Step::Conflict => return None,
                    Step::Nothing => {}
                    Step::Set(v, c) if c.len() == 1 => {
                        if let Some(q) = quad.get(&v) {
                            if !q.contains(&c[0]) {
                                return None;
                            }
                        }
                        z[v] = Some(c[0]);
                        self.third_of[v].iter().for_each(|r| open[*r] -= 1);
                        queue.extend(self.rows_of[v].iter());
                    }
                    Step::Set(v, c) => {
                        quad.insert(v, c);
                    }
                }
            }
            while next < n && z[next].is_some() {
                next += 1;
            }
            if next >= n {
                break;
            }
            let v = next;
            // the bits of a known value
            if let Some(r) = self.bits_of.get(&v).filter(|r| spelled.insert(**r)) {
                let [a, b, c] = &self.sys.rows[*r];
                let ((a0, au), (b0, bu), (c0, cu)) = (self.lin(a, &z), self.lin(b, &z), self.lin(c, &z));
                if au.is_empty() && bu.is_empty() {
                    let rest = (a0 * b0 - c0).big();
                    for (w, k) in cu {
                        let k = k.big();
                        let e = k.bits() - 1;
                        // beyond the modulus there are no bits
                        suggest.insert(w, if k == pow2(e) && rest.bit(e) { F::one() } else { F::zero() });
                    }
                }
            }
            let x = match forged.get(&v) {
                Some(x) => match quad.get(&v) {
                    Some(q) if !q.contains(x) => return None,
                    _ => *x,
                },
                None => match quad.get(&v) {
                    Some(q) if !q.contains(suggest.get(&v).unwrap_or(&honest[v])) => q[0],
                    _ => *suggest.get(&v).unwrap_or(&honest[v]),
                },
            };
            hints.push(v);
            z[v] = Some(x);
            self.third_of[v].iter().for_each(|r| open[*r] -= 1);
            queue.extend(self.rows_of[v].iter());
        }
        let z: Vec<F> = z.into_iter().map(|v| v.unwrap()).collect();
        Some(Forged { z, hints })
    }
    /// A local search for a satisfying assignment near a broken one: one free wire close to a broken constraint is
    /// changed, and products that follow from it are recomputed.  Returns (attempts, satisfying assignment).
    pub fn repair(&self, fixed: &BTreeSet<usize>, z0: &[F], budget: u64) -> (u64, Option<Vec<F>>) {
        let broken = self.sys.broken(z0);
        if broken.is_empty() {
            return (0, Some(z0.to_vec()));
        }
        if broken.len() > 16 {
            return (0, None);
        }
        let vars = |r: usize| -> BTreeSet<usize> { self.sys.rows[r].iter().flatten().map(|e| e.0).filter(|v| *v != 0 && !fixed.contains(v)).collect() };
        // wires of the broken rows, then of the rows around them, the rarest first
        let near: BTreeSet<usize> = broken.iter().flat_map(|r| vars(*r)).collect();
        let around: BTreeSet<usize> = near.iter().filter(|v| self.rows_of[**v].len() <= 8).flat_map(|v| self.rows_of[*v].iter()).flat_map(|r| vars(*r)).filter(|v| !near.contains(v)).collect();
        let mut order: Vec<usize> = around.into_iter().collect();
        order.sort_by_key(|v| (self.rows_of[*v].len(), *v));
        let mut first: Vec<usize> = near.into_iter().collect();
        first.sort_by_key(|v| (self.rows_of[*v].len(), *v));
        first.extend(order);
        let mut n = 0;
        let mut z = z0.to_vec();
        for v in first {
            if self.rows_of[v].len() > 600 {
                continue;
            }
            let mut vals = vec![F::zero(), F::one(), z0[v] + F::one(), -z0[v]];
            // what one of its rows asks for
            for r in self.rows_of[v].iter().take(4) {
                let [a, b, c] = &self.sys.rows[*r];
                let at = |x: F, z: &mut Vec<F>| {
                    let old = std::mem::replace(&mut z[v], x);
                    let d = System::dot(a, z) * System::dot(b, z) - System::dot(c, z);
                    z[v] = old;
                    d
                };
                let (d0, d1, dm) = (at(F::zero(), &mut z), at(F::one(), &mut z), at(-F::one(), &mut z));
                // linear in the wire
                if d1 + dm == d0 + d0 && d1 != d0 {
                    vals.push(-d0 * inv(d1 - d0));
                }
            }
            vals.retain(|x| *x != z0[v]);
            for x in vals {
                if n == budget {
                    return (n, None);
                }
                n += 1;
                let mut changed = vec![(v, z[v])];
                z[v] = x;
                let mut queue = self.rows_of[v].clone();
                let mut ok = true;
                while let Some(r) = queue.pop() {
                    if self.sys.row_holds(r, &z) {
                        continue;
                    }
                    let [a, b, c] = &self.sys.rows[r];
                    let out: Vec<&(usize, F)> = c.iter().filter(|e| e.1 != F::zero()).collect();
                    let w = match &out[..] {
                        [(w, _)] if *w != 0 && !fixed.contains(w) && !changed.iter().any(|e| e.0 == *w) && !a.iter().chain(b).any(|e| e.0 == *w) => *w,
                        _ => {
                            ok = false;
                            break;
                        }
                    };
                    if changed.len() > 200 {
                        ok = false;
                        break;
                    }
                    changed.push((w, z[w]));
                    z[w] = System::dot(a, &z) * System::dot(b, &z) * inv(out[0].1);
                    queue.extend(self.rows_of[w].iter());
                }
                if ok && broken.iter().all(|r| self.sys.row_holds(*r, &z)) && self.sys.broken(&z).is_empty() {
                    return (n, Some(z));
                }
                for (w, old) in changed.into_iter().rev() {
                    z[w] = old;
                }
            }
        }
        (n, None)
    }
    /// Forged assignments from deviating single hints (and some pairs), all verified to satisfy every constraint.
    /// `judge` sees each of them.  Returns (attempts, satisfying).
    pub fn attack(
        &self,
        rng: &mut impl RngCore,
        fixed: &BTreeMap<usize, F>,
        honest: &[F],
        budget: u64,
        judge: &mut dyn FnMut(&[F]) -> Result<(), crate::mon::Fail>,
    ) -> Result<(u64, u64), crate::mon::Fail> {
        let Some(base) = self.run(fixed, honest, &BTreeMap::new()) else {
            return Err(crate::mon::Fail { tag: "honest".into(), detail: "the constraints refuse the honest witness".into() });
        };
        let (mut attempts, mut sat) = (0, 0);
        let mut plans: Vec<BTreeMap<usize, F>> = vec![];
        let p = F::modulus();
        let alt = |rng: &mut dyn RngCore, h: F| -> Vec<F> {
            let mut rng = rng;
            let mut v = vec![F::zero(), F::one(), h + F::one(), -h, F::one() - h, F::of(&gen_val(&mut rng, &p)), h + h, F::of(&BigUint::from(2u32))];
            v.retain(|x| *x != h);
            v
        };
        let hints = base.hints.clone();
        for h in &hints {
            for x in alt(rng, honest[*h]) {
                plans.push([(*h, x)].into_iter().collect());
            }
        }
        let singles = plans.len() as u64;
        if singles > budget {
            // random subset of the single deviations
            for i in 0..budget as usize {
                let j = i + below(rng, (plans.len() - i) as u64) as usize;
                plans.swap(i, j);
            }
            plans.truncate(budget as usize);
        } else if hints.len() > 1 {
            for _ in 0..(budget - singles).min(singles * 4) {
                let k = 2 + below(rng, 3) as usize;
                let mut m = BTreeMap::new();
                for _ in 0..k {
                    let h = hints[below(rng, hints.len() as u64) as usize];
                    let a = alt(rng, honest[h]);
                    m.insert(h, a[below(rng, a.len() as u64) as usize]);
                }
                plans.push(m);
            }
        }
        for plan in plans {
            attempts += 1;
            if let Some(f) = self.run(fixed, honest, &plan) {
                if !self.sys.broken(&f.z).is_empty() {
                    continue;
                }
                sat += 1;
                judge(&f.z)?;
            }
        }
        Ok((attempts, sat))
    }
}
pub fn zero_f<F: KField>() -> F {
    F::of(&BigUint::zero())
}
