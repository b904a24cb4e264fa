//! P18: Groth16 completeness: every satisfied instance of every circuit is proven and its proof accepted.
use kmon::g16::*;
use kmon::prelude::*;
use kmon::ensure;
use zkgroth16::Prover;

/// setup once, prove several instances of the same structure
fn drive(cx: &mut Cx, spec: &Spec, instances: u64) {
    let (s0, seeds): (u64, Vec<(u64, u64)>) = (cx.rng.next_u64(), (0..instances).map(|_| (cx.rng.next_u64(), cx.rng.next_u64())).collect());
    // the key is made from values that need not satisfy anything
    let mut other = spec.clone();
    other.vals = cx.rng.next_u64();
    let mut key: Option<(Prover, zkgroth16::Verifier)> = None;
    let ok = cx.case(("setup", format!("{spec:?}")), true, || {
        match setup(&other, s0) {
            Ok(k) => key = Some(k),
            Err(e) => return fail("setup", format!("setup of {other:?} failed: {e:?}")),
        }
        Ok(())
    });
    if !ok {
        return;
    }
    let (mut prover, verifier) = key.unwrap();
    for (v, r) in seeds {
        let mut inst = spec.clone();
        inst.vals = v;
        let cs = r1cs(&inst);
        if !sat(&cs) {
            continue;
        }
        cx.count("constraints proven", cs.m());
        cx.count(if cs.m().is_power_of_two() { "m a power of two" } else { "m not a power of two" }, 1);
        cx.sample(|| format!("{inst:?}: m={} public={} private={}", cs.m(), cs.l() - 1, cs.m_l_1()));
        cx.case(format!("{inst:?}"), true, || {
            let mut rng = ChaCha20Rng::seed_from_u64(r);
            let proof = match with_spec(&inst, || prover.create_proof(&mut rng, Drawn(inst.clone()))) {
                Ok(p) => p,
                Err(e) => return fail("prove", format!("no proof for {inst:?}: {e:?}")),
            };
            let res = verifier.verify(&proof, &publics(&cs));
            ensure!(res.is_ok(), "the proof of satisfied {inst:?} (m={}, l={}, w={}) was rejected: {:?}", cs.m(), cs.l(), cs.m_l_1(), res);
            Ok(())
        });
    }
}

fn main() {
    let mut c = Check::new("P18", "distinct (circuit structure, values) proven; sizes cover every number of constraints up to the bound");
    for shard in 0..4u64 {
        c.heavy(&format!("sizes~{shard}"), move |cx| {
            let top = cx.n(40, 300);
            for len in (0..=top).filter(|l| l % 4 == shard) {
                if cx.full() {
                    break;
                }
                let spec = Spec { shape: cx.rng.next_u64(), vals: 0, len, lie: None, kind: Kind::Program };
                let n = cx.n(2, 4);
                drive(cx, &spec, n);
            }
        });
        c.heavy(&format!("programs~{shard}"), move |cx| {
            for _ in 0..cx.n(6, 150) {
                if cx.full() {
                    break;
                }
                let len = 1 + below(&mut cx.rng, 24);
                let spec = Spec { shape: cx.rng.next_u64(), vals: 0, len, lie: None, kind: Kind::Program };
                drive(cx, &spec, 3);
            }
        });
    }
    c.heavy("wide", |cx| {
        for len in [1, 3, 4, 5, 31, 32, 33] {
            let spec = Spec { shape: cx.rng.next_u64(), vals: 0, len, lie: None, kind: Kind::Wide };
            drive(cx, &spec, 2);
        }
    });
    c.class("unused-inputs", |cx| {
        for len in [1, 2, 7] {
            let spec = Spec { shape: cx.rng.next_u64(), vals: 0, len, lie: None, kind: Kind::Unused };
            drive(cx, &spec, 2);
        }
    });
    for name in NAMES {
        if *name == "scalar-point" {
            continue;
        }
        c.class(&format!("gadget/{name}"), move |cx| {
            let q = if LARGE.contains(name) { 1 } else { 3 };
            for _ in 0..cx.n(q, 25) {
                if cx.full() {
                    break;
                }
                let spec = Spec { shape: cx.rng.next_u64(), vals: 0, len: 0, lie: None, kind: Kind::Gadget(name) };
                drive(cx, &spec, 4);
            }
        });
    }
    c.heavy("large", |cx| {
        for len in if cx.thorough() { vec![1000, 1024, 1025, 4097, 10_000] } else { vec![511, 513] } {
            let spec = Spec { shape: cx.rng.next_u64(), vals: 0, len, lie: None, kind: Kind::Program };
            drive(cx, &spec, 1);
        }
    });
    c.run()
}
