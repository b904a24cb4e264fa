//! P26: incremental computation computes the iterates of its functions, and every step proves.
use kmon::nova::*;
use kmon::prelude::*;
use kmon::{ensure, eqv};

fn iterate<S: StepFn>(z: &BigUint, n: u64, p: &BigUint) -> BigUint {
    (0..n).fold(z.clone(), |z, _| S::native(&z, p))
}
#[cfg(kogarashi_verif)]
fn values<A: StepFn, B: StepFn>(d: &str, pr: &Rp<A, B>, z: &(Fr, Fq), i: u64) -> R {
    let p = zknova::verif::proof_parts(pr);
    eqv!((p.z0.0.as_slice(), p.z0.1.as_slice()), (&[z.0][..], &[z.1][..]), "{d}: initial values in the proof of step {i}");
    let want = (Fr::of(&iterate::<A>(&z.0.big(), i, &Fr::modulus())), Fq::of(&iterate::<B>(&z.1.big(), i, &Fq::modulus())));
    eqv!((p.zi.0.as_slice(), p.zi.1.as_slice()), (&[want.0][..], &[want.1][..]), "{d}: values after step {i}");
    Ok(())
}
#[cfg(not(kogarashi_verif))]
fn values<A: StepFn, B: StepFn>(_: &str, _: &Rp<A, B>, _: &(Fr, Fq), _: u64) -> R {
    Ok(())
}
fn run<A: StepFn, B: StepFn>(cx: &mut Cx, pp: &Pp<A, B>, z: (Fr, Fq), steps: u64) {
    let d = format!("{}/{} from ({:?}, {:?})", A::NAME, B::NAME, z.0, z.1);
    let mut run: Option<Run<A, B>> = None;
    cx.case((d.clone(), "init"), true, || {
        run = Some(start(pp, z));
        Ok(())
    });
    let Some(mut run) = run else { return };
    let mut first: Option<Rp<A, B>> = None;
    for i in 1..=steps {
        cx.count("steps", 1);
        cx.sample(|| format!("{d} step {i}"));
        let mut proof = None;
        if !cx.case((d.clone(), i), true, || {
            let pr = run.prove_step(pp);
            eqv!(pr.i, i, "{d}: step number");
            values(&d, &pr, &z, i)?;
            ensure!(pr.verify(pp), "{d}: the proof of step {i} is rejected");
            proof = Some(pr);
            Ok(())
        }) {
            return;
        }
        if i == 1 {
            first = proof;
        }
    }
    cx.case((d.clone(), "earlier"), true, || {
        ensure!(first.as_ref().unwrap().verify(pp), "{d}: the first proof is rejected after more steps");
        Ok(())
    });
}
fn z(cx: &mut Cx) -> (Fr, Fq) {
    let a = match below(&mut cx.rng, 4) {
        0 => BigUint::from(below(&mut cx.rng, 6)),
        1 => Fr::modulus() - 1u32,
        _ => gen_val(&mut cx.rng, &Fr::modulus()),
    };
    let b = match below(&mut cx.rng, 4) {
        0 => BigUint::from(below(&mut cx.rng, 6)),
        1 => Fq::modulus() - 1u32,
        _ => gen_val(&mut cx.rng, &Fq::modulus()),
    };
    (Fr::of(&a), Fq::of(&b))
}
#[cfg(kogarashi_verif)]
fn pipeline<A: StepFn, B: StepFn>(c: &mut Check, from: Option<(u64, u64)>, steps: u64) {
    c.heavy(&format!("{}-{}", A::NAME, B::NAME), move |cx| {
        let pp = fast_pp::<A, B>();
        let z = from.map_or_else(|| z(cx), |f| (Fr::from(f.0), Fq::from(f.1)));
        let n = cx.n(steps, 4 * steps);
        run::<A, B>(cx, &pp, z, n);
    });
}

fn main() {
    let mut c = Check::new("P26", "distinct (functions, initial values, step) triples proven and verified");
    c.assume("except in the class `setup`, the commitment keys are decoded from points of known logarithms instead of drawn by setup (which takes a minute)");
    c.heavy("setup", |cx| {
        let s = cx.rng.next_u64();
        let pp = pp::<Cubic, Same>(s);
        let z = z(cx);
        #[cfg(kogarashi_verif)]
        cx.case("shapes", true, || {
            let f = fast_pp::<Cubic, Same>();
            ensure!(pp.r1cs_shape_primary == f.r1cs_shape_primary && pp.r1cs_shape_secondary == f.r1cs_shape_secondary, "setup has other relations than the step circuits");
            Ok(())
        });
        let n = cx.n(2, 6);
        run(cx, &pp, z, n);
    });
    #[cfg(kogarashi_verif)]
    {
        pipeline::<Shift, Cubic>(&mut c, None, 3);
        pipeline::<Countdown, Same>(&mut c, Some((2, 0)), 3);
        pipeline::<Same, Countdown>(&mut c, Some((0, 4)), 3);
        pipeline::<Chain, Shift>(&mut c, None, 3);
        if c.thorough() {
            pipeline::<Cubic, Chain>(&mut c, None, 3);
            pipeline::<Cubic, Cubic>(&mut c, Some((0, 0)), 3);
            pipeline::<Countdown, Countdown>(&mut c, None, 3);
        }
    }
    c.run()
}
