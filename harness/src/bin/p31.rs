//! P31: commitments of the folding scheme are the sums they should be.
use kmon::nova::*;
use kmon::prelude::*;
use kmon::{ensure, eqv};
use zkstd::common::*;
use zknova::PedersenCommitment;

struct Counting(ChaCha20Rng, u64);
impl RngCore for Counting {
    fn next_u32(&mut self) -> u32 {
        self.1 += 4;
        self.0.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.1 += 8;
        self.0.next_u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.1 += d.len() as u64;
        self.0.fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
/// random bytes taken
fn drawn(f: impl FnOnce(&mut Counting)) -> u64 {
    let mut r = Counting(ChaCha20Rng::seed_from_u64(1), 0);
    f(&mut r);
    r.1
}

fn keys<C: Drv>(cx: &mut Cx) {
    for k in 0..cx.n(12, 200) {
        if cx.full() {
            break;
        }
        let n = if k < 5 { k } else { below(&mut cx.rng, 8) };
        let s = cx.rng.next_u64();
        cx.count("keys", 1);
        cx.case((n, s), true, || {
            let mk = |s: u64| PedersenCommitment::<C::Affine>::new(n, &mut ChaCha20Rng::seed_from_u64(s));
            let k = mk(s);
            let g = Vec::<C::Af>::decode(&mut &k.encode()[..]).map_err(|e| format!("a key is not a vector of points: {e:?}"))?;
            ensure!(g.len() >= 1 << n, "a key for 2^{n} elements has {} generators", g.len());
            for (i, p) in g.iter().enumerate() {
                ensure!(p.is_on_curve() && !p.is_identity(), "generator {i} of a key is {p:?}");
                ensure!(!g[..i].iter().any(|q| q == p || *q == -*p), "generators of a key repeat (number {i})");
            }
            // no generator follows from the others: each takes a draw of its own, and small relations do not hold
            let one = drawn(|r| { C::Scalar::random(r); });
            let all = drawn(|r| { PedersenCommitment::<C::Affine>::new(n, r); });
            ensure!(all >= one * g.len() as u64, "{} generators are made of {all} random bytes, a scalar of {one}", g.len());
            let ext: Vec<_> = g.iter().map(|p| p.to_extended()).collect();
            let affine = |p: &<C::Af as BNAffine>::Extended| C::Af::from(*p);
            let at: std::collections::HashMap<Vec<u8>, usize> = g.iter().enumerate().map(|(i, p)| (p.encode(), i)).collect();
            let find = |p: &<C::Af as BNAffine>::Extended| {
                let a = affine(p);
                at.get(&a.encode()).or_else(|| at.get(&(-a).encode())).copied()
            };
            for i in 0..g.len() {
                let mut m = ext[i];
                for f in 2..=g.len().min(9) {
                    m = m + ext[i];
                    ensure!(find(&m).is_none(), "generator {:?} of a key is {f} times generator {i}, or its negation", find(&m));
                }
                for j in 0..i.min(16) {
                    for sum in [ext[i] + ext[j], ext[i] + (-g[j]).to_extended()] {
                        ensure!(find(&sum).is_none(), "generator {:?} of a key is the sum or difference of {i} and {j}", find(&sum));
                    }
                }
            }
            ensure!(mk(s) == k, "the same randomness gives another key");
            ensure!(mk(s ^ 1) != k, "other randomness gives the same key");
            Ok(())
        });
    }
}
#[cfg(kogarashi_verif)]
fn sums<C: Drv>(cx: &mut Cx) {
    use zknova::verif::{commit, witness};
    let p = C::S::modulus();
    for _ in 0..cx.n(150, 8_000) {
        if cx.full() {
            break;
        }
        let n = 1 + below(&mut cx.rng, 24) as usize;
        let key = Key::<C>::new(&mut cx.rng, n);
        let len = if below(&mut cx.rng, 3) == 0 { below(&mut cx.rng, n as u64 + 1) as usize } else { n };
        let mut vec = || (0..len).map(|_| gen_val(&mut cx.rng, &p)).collect::<Vec<_>>();
        let (a, b) = (vec(), vec());
        let k = gen_val(&mut cx.rng, &p);
        cx.count("vectors", 4);
        cx.sample(|| format!("{} {a:x?}", C::N));
        cx.case((&a, &b, &k), len > 0, || {
            let com = |v: &[BigUint]| commit::<C>(&key.ck, of_bigs(v));
            let (ca, cb) = (com(&a), com(&b));
            ensure!(ca == key.commit(&a), "{}: commitment to {a:x?} under logarithms {:x?}", C::N, key.logs);
            ensure!(witness::<C>(of_bigs(&a)).commit(&key.ck) == ca, "{}: a witness commits differently from its vector", C::N);
            let sum: Vec<_> = a.iter().zip(&b).map(|(a, b)| (a + b * &k) % &p).collect();
            let ea = gmul(cb, &k).to_extended() + ca;
            let want: Aff<C> = ea.into();
            ensure!(com(&sum) == want, "{}: commitments do not fold: {a:x?} + {k:x} {b:x?}", C::N);
            ensure!(com(&vec![BigUint::zero(); len]) == Aff::<C>::ADDITIVE_IDENTITY, "the commitment to zero is not the identity");
            // trailing zeros are nothing, every element counts
            for i in 0..len {
                let mut d = a.clone();
                d[i] = (&d[i] + 1u32) % &p;
                ensure!(com(&d) != ca, "{}: element {i} of {a:x?} is not committed to", C::N);
            }
            if len > 0 {
                let mut d = a.clone();
                d[len - 1] = BigUint::zero();
                ensure!(com(&d) == com(&d[..len - 1]), "{}: a trailing zero changes the commitment", C::N);
                eqv!(com(&a), com(&a), "commitments are not deterministic");
            }
            Ok(())
        });
    }
}
fn classes<C: Drv>(c: &mut Check) {
    c.class(&format!("{}/keys", C::N), keys::<C>);
    #[cfg(kogarashi_verif)]
    c.sharded(&format!("{}/sums", C::N), 2, sums::<C>);
}
fn main() {
    let mut c = Check::new("P31", "distinct keys and vectors committed to, compared with the sum of the known logarithms");
    classes::<zknova::Bn254Driver>(&mut c);
    classes::<zknova::GrumpkinDriver>(&mut c);
    // every element of every witness of a computation is under the key that setup makes
    c.heavy("setup-covers-witnesses", |cx| {
        let s = cx.rng.next_u64();
        cx.count("setups", 1);
        let pp = pp::<Shift, Same>(s);
        cx.case(s, true, || {
            for (n, len, m, w) in [
                ("primary", pp.ck_primary.encode(), pp.r1cs_shape_primary.m(), pp.r1cs_shape_primary.m_l_1()),
                ("secondary", pp.ck_secondary.encode(), pp.r1cs_shape_secondary.m(), pp.r1cs_shape_secondary.m_l_1()),
            ]
            .map(|(n, e, m, w)| (n, parity_scale_codec::Compact::<u32>::decode(&mut &e[..]).unwrap().0 as u64, m, w))
            {
                ensure!(len >= m && len >= w, "the {n} key has {len} generators for {m} errors and {w} witness elements");
            }
            Ok(())
        });
    });
    c.run()
}
