//! Groth16 workloads: circuits whose structure and values are drawn separately, driven through the crate's own
//! Circuit trait, and the discrete-log (trapdoor) oracle.
use crate::big::*;
use crate::circ::*;
use crate::mon::below;
use bn_254::{Fr, G1Affine};
use num_bigint::BigUint;
use num_traits::{One, Zero};
use rand_chacha::ChaCha20Rng;
use rand_core::{RngCore, SeedableRng};
use std::cell::RefCell;
use zkgroth16::{Bn254Driver, Circuit, Error, Prover, Verifier, ZkSnark};
use zkstd::circuit::prelude::*;
use zkstd::common::*;

/// What a circuit is: structure seed, value seed, number of steps, and whether one relation is made false.
#[derive(Clone, Debug, PartialEq)]
pub struct Spec {
    pub shape: u64,
    pub vals: u64,
    /// exact number of constraints of the program (gadget circuits: the kind index)
    pub len: u64,
    pub lie: Option<u64>,
    pub kind: Kind,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    /// a straight-line program of len constraints
    Program,
    /// one of the gadgets of zkstd
    Gadget(&'static str),
    /// len public inputs, tied together by few constraints
    Wide,
    /// public inputs no constraint mentions
    Unused,
}
thread_local! { static CUR: RefCell<Option<Spec>> = RefCell::new(None); }
pub fn with_spec<T>(s: &Spec, f: impl FnOnce() -> T) -> T {
    CUR.with(|c| *c.borrow_mut() = Some(s.clone()));
    f()
}
#[derive(Clone, Debug)]
pub struct Drawn(pub Spec);
impl Default for Drawn {
    fn default() -> Self {
        Drawn(CUR.with(|c| c.borrow().clone()).expect("spec"))
    }
}
impl Circuit for Drawn {
    fn synthesize(&self, cs: &mut R1cs<Bn254Driver>) -> Result<(), Error> {
        synth(&self.0, cs);
        Ok(())
    }
}
type FA = FieldAssignment<Fr>;

pub fn synth(s: &Spec, cs: &mut R1cs<Bn254Driver>) {
    let mut sh = ChaCha20Rng::seed_from_u64(s.shape);
    let mut va = ChaCha20Rng::seed_from_u64(s.vals);
    let o = Fp::new(r_mod());
    let p = &o.p;
    let k = |b: &BigUint| Fr::of(b);
    match s.kind {
        Kind::Gadget(name) => {
            let b = crate::gadgets::build::<Bn254Driver, crate::pts::Grumpkin>(name, &mut sh, &mut va);
            *cs = b.cs;
        }
        Kind::Wide => {
            let mut acc = FA::constant(&Fr::zero());
            for _ in 0..s.len {
                let v = gen_val(&mut va, p);
                acc = &acc + &FA::instance(cs, k(&v));
            }
            let v = acc.value(cs);
            let w = FA::witness(cs, if s.lie.is_some() { v + Fr::one() } else { v });
            FA::enforce_eq(cs, &acc, &w);
            let q = FA::mul(cs, &w, &acc);
            let r = FA::instance(cs, q.value(cs));
            FA::enforce_eq(cs, &q, &r);
        }
        Kind::Unused => {
            let v = gen_val(&mut va, p);
            let x = FA::instance(cs, k(&v));
            for _ in 0..s.len {
                let v = gen_val(&mut va, p);
                FA::instance(cs, k(&v));
            }
            let q = FA::mul(cs, &x, &x);
            let w = FA::witness(cs, q.value(cs));
            FA::enforce_eq(cs, &q, &w);
        }
        Kind::Program => {
            let mut vs: Vec<(FA, BigUint)> = vec![];
            for i in 0..1 + below(&mut sh, 4) {
                let v = gen_val(&mut va, p);
                let f = if (i == 0) ^ (below(&mut sh, 3) == 0) { FA::instance(cs, k(&v)) } else { FA::witness(cs, k(&v)) };
                vs.push((f, v));
            }
            for i in 0..s.len {
                // one constraint each
                let a = vs[below(&mut sh, vs.len() as u64) as usize].clone();
                let b = vs[below(&mut sh, vs.len() as u64) as usize].clone();
                let (a, b) = match below(&mut sh, 4) {
                    0 => ((&a.0 + &b.0, o.add(&a.1, &b.1)), b),
                    1 => ((&a.0 - &b.0, o.sub(&a.1, &b.1)), b),
                    2 => {
                        let c = gen_val(&mut sh, p);
                        ((&a.0 + &FA::constant(&k(&c)), o.add(&a.1, &c)), b)
                    }
                    _ => (a, b),
                };
                let lie = s.lie == Some(i);
                let op = below(&mut sh, 5);
                let inst = below(&mut sh, 3) == 0;
                let want = match op {
                    0 | 1 | 2 => o.mul(&a.1, &b.1),
                    3 => o.add(&a.1, &b.1),
                    _ => a.1.clone(),
                };
                let got = if lie {
                    let d = if below(&mut va, 2) == 0 { BigUint::one() } else { gen_rand(&mut va, p) };
                    o.add(&want, &if d.is_zero() { BigUint::one() } else { d })
                } else {
                    want
                };
                let c = if inst { FA::instance(cs, k(&got)) } else { FA::witness(cs, k(&got)) };
                match op {
                    0 | 1 | 2 => cs.mul_gate(a.0.inner(), b.0.inner(), c.inner()),
                    3 => cs.add_gate(a.0.inner(), b.0.inner(), c.inner()),
                    _ => FA::enforce_eq(cs, &a.0, &c),
                }
                vs.push((c, got));
            }
        }
    }
}
pub fn r1cs(s: &Spec) -> R1cs<Bn254Driver> {
    let mut cs = R1cs::default();
    synth(s, &mut cs);
    cs
}
pub fn setup(s: &Spec, seed: u64) -> Result<(Prover, Verifier), Error> {
    setup_with(s, &mut ChaCha20Rng::seed_from_u64(seed))
}
pub fn setup_with(s: &Spec, r: &mut impl RngCore) -> Result<(Prover, Verifier), Error> {
    with_spec(s, || ZkSnark::setup::<Drawn>(r))
}
pub fn publics(cs: &R1cs<Bn254Driver>) -> Vec<Fr> {
    cs.x()[1..].to_vec()
}

/// The secrets of a setup, recognised in the public parameters (None: the code draws them another way).
#[derive(Clone, Debug)]
pub struct Trapdoor {
    pub alpha: Fr,
    pub beta: Fr,
    pub gamma: Fr,
    pub delta: Fr,
    /// candidates for tau: drawn scalars that are none of the others
    pub rest: Vec<Fr>,
}
pub fn trapdoor(seed: u64, p: &Prover) -> Option<Trapdoor> {
    let mut rng = ChaCha20Rng::seed_from_u64(seed);
    let drawn: Vec<Fr> = (0..8).map(|_| Fr::random(&mut rng)).collect();
    let g1: Vec<G1Affine> = drawn.iter().map(|s| G1Affine::from(G1Affine::ADDITIVE_GENERATOR * *s)).collect();
    let find1 = |q: &G1Affine| g1.iter().position(|x| x == q);
    let vk = &p.params.vk;
    let (a, b, d) = (find1(&vk.alpha_g1)?, find1(&vk.beta_g1)?, find1(&vk.delta_g1)?);
    let g = drawn.iter().position(|s| bn_254::G2Affine::from(bn_254::G2Affine::ADDITIVE_GENERATOR * *s) == vk.gamma_g2)?;
    let rest = (0..8).filter(|i| ![a, b, d, g].contains(i)).map(|i| drawn[i]).collect();
    Some(Trapdoor { alpha: drawn[a], beta: drawn[b], gamma: drawn[g], delta: drawn[d], rest })
}

/// The public inputs enter the proof equation only through these columns: is `d` (difference of two public
/// input vectors, without the leading one) invisible to every constraint?
pub fn invisible(cs: &R1cs<Bn254Driver>, d: &[Fr]) -> bool {
    let ((a, b, c), _) = cs.z_vectors(cs.l(), cs.m_l_1());
    for cols in [&a, &b, &c] {
        let mut acc: std::collections::BTreeMap<usize, Fr> = Default::default();
        for (i, di) in d.iter().enumerate() {
            for (v, row) in &cols[i + 1] {
                *acc.entry(*row).or_insert_with(Fr::zero) += *v * *di;
            }
        }
        if acc.values().any(|v| *v != Fr::zero()) {
            return false;
        }
    }
    true
}
pub fn sat(cs: &R1cs<Bn254Driver>) -> bool {
    System::of(cs).broken(&System::z(cs)).is_empty()
}

/// A random stream with one stretch changed: what a value depends on shows when it changes.
pub struct Flip {
    rng: ChaCha20Rng,
    from: u64,
    to: u64,
    pub at: u64,
}
impl Flip {
    pub fn new(seed: u64, from: u64, to: u64) -> Self {
        Flip { rng: ChaCha20Rng::seed_from_u64(seed), from, to, at: 0 }
    }
    fn byte(&mut self) -> u8 {
        let mut b = [0u8];
        self.rng.fill_bytes(&mut b);
        let at = self.at;
        self.at += 1;
        if at >= self.from && at < self.to { b[0] ^ 0x5a } else { b[0] }
    }
}
impl RngCore for Flip {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        d.iter_mut().for_each(|b| *b = self.byte())
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
