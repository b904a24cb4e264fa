//! P33: the pallet accepts, from signed origins, exactly the recursive proofs that are valid under the parameters sent.
//! The pallet's own sources run here against stand-ins for the Substrate crates, which are not in the sandbox.
use frame_system::RawOrigin;
use kmon::nova::*;
use kmon::prelude::*;
use kmon::{ensure, eqv};
use pallet_nova::{IvcVerifier, Pallet};
use parity_scale_codec::{Decode, Encode};
use zknova::{Bn254Driver, GrumpkinDriver};

#[derive(Debug, Clone, PartialEq)]
struct Origin(RawOrigin<u64>);
impl From<Origin> for Result<RawOrigin<u64>, Origin> {
    fn from(o: Origin) -> Self {
        Ok(o.0)
    }
}
/// a runtime with one pallet
struct Runtime<A, B>(std::marker::PhantomData<(A, B)>);
impl<A: StepFn, B: StepFn> frame_system::Config for Runtime<A, B> {
    type Origin = Origin;
    type AccountId = u64;
    type BlockNumber = u64;
}
impl<A: StepFn, B: StepFn> pallet_nova::Config for Runtime<A, B> {
    type E1 = Bn254Driver;
    type E2 = GrumpkinDriver;
    type FC1 = Fun<A, Fr>;
    type FC2 = Fun<B, Fq>;
}
type Bytes = Vec<u8>;

fn pps<A: StepFn, B: StepFn>(_seed: u64) -> Pp<A, B> {
    #[cfg(kogarashi_verif)]
    return fast_pp::<A, B>();
    #[cfg(not(kogarashi_verif))]
    pp::<A, B>(_seed)
}
/// dispatch by every way in; true: accepted
fn dispatch<A: StepFn, B: StepFn>(o: RawOrigin<u64>, b: &Bytes, pp: &Pp<A, B>) -> Result<bool, kmon::mon::Fail> {
    let p = || Rp::<A, B>::decode(&mut &b[..]).unwrap();
    let r = Pallet::<Runtime<A, B>>::verify(Origin(o.clone()), p(), pp.clone());
    if r.is_ok() || o == RawOrigin::Signed(1) {
        let api = <Pallet<Runtime<A, B>> as IvcVerifier<Bn254Driver, GrumpkinDriver, Fun<A, Fr>, Fun<B, Fq>>>::verify(p(), pp.clone());
        eqv!(r.is_ok(), api.is_ok(), "the dispatchable and the API of other pallets disagree");
    }
    Ok(r.is_ok())
}
fn calls<A: StepFn, B: StepFn>(cx: &mut Cx) {
    let z = (Fr::of(&gen_val(&mut cx.rng, &Fr::modulus())), Fq::of(&gen_val(&mut cx.rng, &Fq::modulus())));
    let seed = cx.rng.next_u64();
    let pp = pps::<A, B>(seed);
    let mut run = start(&pp, z);
    let mut history: Vec<Bytes> = vec![];
    for i in 1..=cx.n(2, 4) {
        let b = run.prove_step(&pp).encode();
        let who = pick(&mut cx.rng, &[0u64, 1, u64::MAX]).clone();
        cx.count("honest calls", 1);
        cx.sample(|| format!("{}/{} from {z:?} step {i} by {who}", A::NAME, B::NAME));
        cx.case((A::NAME, B::NAME, "honest", i), true, || {
            ensure!(dispatch::<A, B>(RawOrigin::Signed(who), &b, &pp)?, "{}/{} from {z:?}: the proof of step {i} sent by {who} is refused", A::NAME, B::NAME);
            Ok(())
        });
        for o in [RawOrigin::Root, RawOrigin::None] {
            cx.count("unsigned calls", 1);
            cx.case((A::NAME, B::NAME, "origin", i, format!("{o:?}")), true, || {
                ensure!(!dispatch::<A, B>(o.clone(), &b, &pp)?, "a call of origin {o:?} is accepted");
                Ok(())
            });
        }
        // step number, initial and current values stand at the start of the encoding
        let mut made = 0;
        for k in 0..cx.n(5, 40) {
            let mut c = b.clone();
            let at = if k == 0 { 0 } else if below(&mut cx.rng, 2) == 0 { below(&mut cx.rng, 180) as usize } else { below(&mut cx.rng, c.len() as u64) as usize };
            c[at] ^= 1 << below(&mut cx.rng, 8);
            if !matches!(guard(|| Rp::<A, B>::decode(&mut &c[..]).is_ok()), Ok(true)) || c == b {
                continue;
            }
            made += 1;
            cx.case((A::NAME, B::NAME, "altered", i, at, c[at]), true, || {
                ensure!(!dispatch::<A, B>(RawOrigin::Signed(who), &c, &pp)?, "step {i} of {}/{} with byte {at} of its proof altered is accepted", A::NAME, B::NAME);
                Ok(())
            });
        }
        cx.count("altered calls", made);
        // the calls before leave nothing behind: earlier proofs are accepted still
        for (j, e) in history.iter().enumerate() {
            cx.count("repeated calls", 1);
            cx.case((A::NAME, B::NAME, "again", i, j), true, || {
                ensure!(dispatch::<A, B>(RawOrigin::Signed(who), e, &pp)?, "the proof of step {} is refused after later calls", j + 1);
                Ok(())
            });
        }
        history.push(b);
    }
    // values of another length than the parameters speak of are refused, and parameters of another computation too
    let b = history[0].clone();
    let mut e = pp.encode();
    let (at, bit) = (below(&mut cx.rng, 4000) as usize + 64, below(&mut cx.rng, 8));
    e[at] ^= 1 << bit;
    if let Ok(Ok(other)) = guard(|| Pp::<A, B>::decode(&mut &e[..])) {
        let differs = other.encode() != pp.encode();
        cx.count("other parameters", 1);
        cx.case((A::NAME, B::NAME, "parameters", at), differs, || {
            let p = Rp::<A, B>::decode(&mut &b[..]).unwrap();
            let want = guard(|| p.verify(&other));
            let got = guard(|| dispatch::<A, B>(RawOrigin::Signed(7), &b, &other));
            match (got, want) {
                (Ok(g), Ok(w)) => eqv!(g?, w, "byte {at} of the parameters altered"),
                (Err(_), Err(_)) => {}
                (g, w) => ensure!(false, "byte {at} of the parameters altered: pallet {g:?}, verifier {w:?}"),
            }
            Ok(())
        });
    }
}

fn main() {
    let mut c = Check::new("P33", "distinct calls dispatched to the pallet: honest, unsigned, altered, repeated, under other parameters");
    c.assume("the pallet's sources are compiled against stand-ins for frame-support and frame-system (pallet/), which are not in the sandbox: no runtime, storage or weights");
    c.heavy("cubic-same", calls::<Cubic, Same>);
    c.heavy("countdown-shift", calls::<Countdown, Shift>);
    c.run()
}
