//! Jobs whose results may depend neither on the number of threads, nor on what else runs, nor on the build.
//! Compiled into the harness (parallel build of the crates) and into ../nostd (their sequential build).
use bn_254::{Fr, G1Affine, G2Affine};
use rand_chacha::ChaCha20Rng;
use rand_core::{RngCore, SeedableRng};
use zkgroth16::{Bn254Driver, Circuit, Error, ZkSnark};
use zkstd::circuit::prelude::*;
use zkstd::common::*;

pub const HOOKED: &[&str] = &["msm1", "msm2", "fft"];
pub const PUBLIC: &[&str] = &["groth"];

fn fnv(h: u64, b: &[u8]) -> u64 {
    b.iter().fold(h, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3))
}
fn scalar(rng: &mut ChaCha20Rng) -> Fr {
    match rng.next_u32() % 8 {
        0 => Fr::zero(),
        1 => Fr::one(),
        2 => -Fr::one(),
        3 => Fr::from(rng.next_u64() & 0xffff),
        _ => Fr::random(rng),
    }
}

/// a chain of constraints drawn from the seed
#[derive(Clone, Debug, Default)]
struct Chain(u64, u64);
impl Circuit for Chain {
    fn synthesize(&self, cs: &mut R1cs<Bn254Driver>) -> Result<(), Error> {
        let (seed, len) = if self.1 == 0 { CUR.with(|c| *c.borrow()) } else { (self.0, self.1) };
        let mut rng = ChaCha20Rng::seed_from_u64(seed);
        let mut acc = FieldAssignment::witness(cs, scalar(&mut rng));
        for i in 0..len {
            let v = scalar(&mut rng);
            let w = if i % 7 == 0 { FieldAssignment::instance(cs, v) } else { FieldAssignment::witness(cs, v) };
            acc = FieldAssignment::mul(cs, &(&acc + &w), &(&w - &FieldAssignment::constant(&Fr::from(i))));
        }
        let o = FieldAssignment::instance(cs, acc.value(cs));
        FieldAssignment::enforce_eq(cs, &acc, &o);
        Ok(())
    }
}
thread_local! { static CUR: std::cell::RefCell<(u64, u64)> = std::cell::RefCell::new((0, 0)); }

/// what a job computes
pub fn digest(kind: &str, size: u64, seed: u64) -> String {
    let mut rng = ChaCha20Rng::seed_from_u64(seed);
    let mut h = 0xcbf29ce484222325;
    match kind {
        #[cfg(kogarashi_verif)]
        "msm1" | "msm2" => {
            let s: Vec<Fr> = (0..size).map(|_| scalar(&mut rng)).collect();
            if kind == "msm1" {
                let few: Vec<G1Affine> = (0..5).map(|_| G1Affine::random(&mut rng)).chain([G1Affine::ADDITIVE_IDENTITY]).collect();
                let b: Vec<G1Affine> = (0..size).map(|_| few[rng.next_u32() as usize % 6]).collect();
                h = fnv(h, format!("{:?}", G1Affine::from(zkgroth16::verif::msm(&b, &s))).as_bytes());
            } else {
                let few: Vec<G2Affine> = (0..5).map(|_| G2Affine::random(&mut rng)).chain([G2Affine::ADDITIVE_IDENTITY]).collect();
                let b: Vec<G2Affine> = (0..size).map(|_| few[rng.next_u32() as usize % 6]).collect();
                h = fnv(h, format!("{:?}", G2Affine::from(zkgroth16::verif::msm(&b, &s))).as_bytes());
            }
        }
        #[cfg(kogarashi_verif)]
        "fft" => {
            let d = zkgroth16::verif::Domain::new(size as usize);
            let v: Vec<Fr> = (0..(1u64 << size) - rng.next_u64() % (1 << (size - 1))).map(|_| scalar(&mut rng)).collect();
            let mut full = v.clone();
            full.resize(1 << size, Fr::zero());
            for r in [d.dft(v.clone()), d.coset_dft(v), d.idft(full.clone()), d.coset_idft(full.clone()), d.divide_by_z_on_coset(full)] {
                r.iter().for_each(|x| h = fnv(h, &x.to_raw_bytes()));
            }
        }
        "groth" => {
            CUR.with(|c| *c.borrow_mut() = (seed, size));
            let (mut p, v) = ZkSnark::setup::<Chain>(&mut rng).expect("setup");
            CUR.with(|c| *c.borrow_mut() = (0, 0));
            h = fnv(h, format!("{:?}", p.params).as_bytes());
            let c = Chain(seed, size);
            let proof = p.create_proof(&mut rng, c.clone()).expect("proof");
            #[cfg(kogarashi_verif)]
            {
                h = fnv(h, format!("{:?}", zkgroth16::verif::proof_parts(&proof)).as_bytes());
            }
            let mut cs = R1cs::default();
            c.synthesize(&mut cs).unwrap();
            if v.verify(&proof, &cs.x()[1..]).is_err() {
                return "rejected".into();
            }
        }
        _ => panic!("no such job"),
    }
    format!("{h:016x}")
}
