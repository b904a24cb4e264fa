//! P01: prime-field ring arithmetic equals integer arithmetic modulo the prime.
use bn_254::{Fq, Fr};
use kmon::prelude::*;
use kmon::{ensure, eqv};
use zkstd::common::*;

fn agree<F: KField>(got: F, want: &BigUint, what: &str) -> R {
    ensure!(canonical(&got), "{what}: {} result not reduced: {:x?}", F::NAME, got.raw());
    ensure!(&got.big() == want, "{what} in {}: got {:#x} want {:#x}", F::NAME, got.big(), want);
    ensure!(got == F::of(want), "{what} in {}: correct value but != to the same field element", F::NAME);
    Ok(())
}

macro_rules! field_classes {
    ($c:ident, $F:ident) => {{
        let n = stringify!($F);
        $c.sharded(&format!("{n}/binary-ops"), 2, |cx| {
            let f = Fp::new(<$F as KField>::modulus());
            for _ in 0..cx.n(60_000, 1_500_000) {
                if cx.full() { break }
                let (x, y) = (gen_val(&mut cx.rng, &f.p), gen_val(&mut cx.rng, &f.p));
                let (a, b) = ($F::of(&x), $F::of(&y));
                let (s, d, m) = (f.add(&x, &y), f.sub(&x, &y), f.mul(&x, &y));
                cx.sample(|| format!("a={x:#x} b={y:#x} a*b={m:#x}"));
                cx.case((&x, &y), !x.is_zero() && !y.is_zero(), || {
                    let w = |o: &str| format!("{o} on a={x:#x} b={y:#x}");
                    agree(a + b, &s, &w("a+b"))?;
                    agree(&a + &b, &s, &w("&a+&b"))?;
                    agree(&a + b, &s, &w("&a+b"))?;
                    agree(a + &b, &s, &w("a+&b"))?;
                    agree(a.add_const(b), &s, &w("add_const"))?;
                    let mut t = a; t += b; agree(t, &s, &w("a+=b"))?;
                    let mut t = a; t += &b; agree(t, &s, &w("a+=&b"))?;
                    agree(a - b, &d, &w("a-b"))?;
                    agree(&a - &b, &d, &w("&a-&b"))?;
                    agree(&a - b, &d, &w("&a-b"))?;
                    agree(a - &b, &d, &w("a-&b"))?;
                    let mut t = a; t -= b; agree(t, &d, &w("a-=b"))?;
                    let mut t = a; t -= &b; agree(t, &d, &w("a-=&b"))?;
                    agree(a * b, &m, &w("a*b"))?;
                    agree(&a * &b, &m, &w("&a*&b"))?;
                    agree(&a * b, &m, &w("&a*b"))?;
                    agree(a * &b, &m, &w("a*&b"))?;
                    let mut t = a; t *= b; agree(t, &m, &w("a*=b"))?;
                    let mut t = a; t *= &b; agree(t, &m, &w("a*=&b"))?;
                    ensure!((a == b) == (x == y), "{}", w("equality"));
                    ensure!((a != b) == (x != y), "{}", w("inequality"));
                    Ok(())
                });
            }
        });
        $c.sharded(&format!("{n}/unary-ops"), 2, |cx| {
            let f = Fp::new(<$F as KField>::modulus());
            for _ in 0..cx.n(60_000, 1_500_000) {
                if cx.full() { break }
                let x = gen_val(&mut cx.rng, &f.p);
                let a = $F::of(&x);
                cx.case(&x, !x.is_zero(), || {
                    let w = |o: &str| format!("{o} on a={x:#x}");
                    agree(-a, &f.neg(&x), &w("-a"))?;
                    agree(PrimeField::double(a), &f.add(&x, &x), &w("double"))?;
                    agree(PrimeField::square(a), &f.mul(&x, &x), &w("square"))?;
                    let mut t = a; t.double_assign(); agree(t, &f.add(&x, &x), &w("double_assign"))?;
                    let mut t = a; t.square_assign(); agree(t, &f.mul(&x, &x), &w("square_assign"))?;
                    ensure!(PrimeField::is_zero(a) == x.is_zero(), "{}", w("is_zero"));
                    Ok(())
                });
            }
        });
        $c.class(&format!("{n}/neg-by-reference"), |cx| {
            let f = Fp::new(<$F as KField>::modulus());
            for _ in 0..cx.n(2_000, 50_000) {
                if cx.full() { break }
                let x = gen_val(&mut cx.rng, &f.p);
                let a = $F::of(&x);
                cx.case(&x, !x.is_zero(), || agree(-&a, &f.neg(&x), &format!("-&a on a={x:#x}")));
            }
        });
        // operands whose Montgomery representation has extreme limbs, squared over all pairs
        $c.heavy(&format!("{n}/limb-grid"), |cx| {
            let f = Fp::new(<$F as KField>::modulus());
            let p = limbs::<4>(&f.p);
            let ri = mod_inv(&(pow2(256) % &f.p), &f.p).unwrap();
            let mut vals: Vec<BigUint> = vec![];
            let pats = |i: usize| vec![0, 1, u64::MAX, u64::MAX - 1, 1 << 63, p[i], p[i].wrapping_sub(1), p[i].wrapping_add(1)];
            for i in 0..8 { for j in 0..8 { for k in 0..8 { for l in 0..8 {
                let v = from_limbs(&[pats(0)[i], pats(1)[j], pats(2)[k], pats(3)[l]]);
                if v < f.p { vals.push(v) }
            }}}}
            let els: Vec<($F, BigUint)> = vals.iter().map(|raw| { let v = raw * &ri % &f.p; ($F::of(&v), v) }).collect();
            cx.count("grid values", els.len() as u64);
            let total = els.len() * els.len();
            let want = cx.n(120_000, 4_000_000) as usize;
            let step = (total / want).max(1);
            let off = (cx.rng.next_u64() as usize) % step;
            let mut idx = off;
            while idx < total {
                if cx.full() { break }
                let ((a, x), (b, y)) = (&els[idx / els.len()], &els[idx % els.len()]);
                cx.case((x, y), true, || {
                    let w = |o: &str| format!("{o} on a={x:#x} b={y:#x}");
                    agree(*a * *b, &f.mul(x, y), &w("a*b"))?;
                    agree(*a + *b, &f.add(x, y), &w("a+b"))?;
                    agree(*a - *b, &f.sub(x, y), &w("a-b"))
                });
                idx += step;
            }
            for (a, x) in &els {
                cx.case(("sq", x), true, || {
                    let w = |o: &str| format!("{o} on a={x:#x}");
                    agree(PrimeField::square(*a), &f.mul(x, x), &w("square"))?;
                    agree(PrimeField::double(*a), &f.add(x, x), &w("double"))?;
                    agree(-*a, &f.neg(x), &w("-a"))
                });
            }
        });
        // pairs whose integer product or sum sits next to a reduction boundary
        $c.heavy(&format!("{n}/reduction-boundary"), |cx| {
            let f = Fp::new(<$F as KField>::modulus());
            let ri = mod_inv(&(pow2(256) % &f.p), &f.p).unwrap();
            for _ in 0..cx.n(40_000, 1_000_000) {
                if cx.full() { break }
                // choose raw a, and raw target t, solve raw b so that the reduced product's raw form is t
                let ar = gen_val(&mut cx.rng, &f.p);
                if ar.is_zero() { continue }
                let t = { let mut r = gen_val(&mut cx.rng, &f.p); if cx.rng.next_u64() % 3 == 0 { r = &f.p - 1u32 - BigUint::from(below(&mut cx.rng, 4)); } r };
                // a*b = t*R^-1 ... in value space: xa*xb = xt
                let (xa, xt) = (&ar * &ri % &f.p, &t * &ri % &f.p);
                let xb = f.mul(&xt, &f.inv(&xa).unwrap());
                let (a, b) = ($F::of(&xa), $F::of(&xb));
                // sums landing on p-1, p, p+1 in the raw domain
                let k = below(&mut cx.rng, 3);
                let raw_c = (&f.p * 2u32 + k - 1u32 - &ar) % &f.p;
                let xc = &raw_c * &ri % &f.p;
                let c2 = $F::of(&xc);
                cx.case((&xa, &xb), true, || {
                    let w = |o: &str| format!("{o} on a={xa:#x} b={xb:#x} c={xc:#x}");
                    agree(a * b, &xt, &w("a*b"))?;
                    agree(b * a, &xt, &w("b*a"))?;
                    agree(a + c2, &f.add(&xa, &xc), &w("a+c"))?;
                    agree(a - c2, &f.sub(&xa, &xc), &w("a-c"))?;
                    agree(c2 - a, &f.sub(&xc, &xa), &w("c-a"))?;
                    Ok(())
                });
            }
        });
        $c.class(&format!("{n}/iterators-and-identities"), |cx| {
            let f = Fp::new(<$F as KField>::modulus());
            cx.case("zero/one", true, || {
                agree(<$F as IntGroup>::zero(), &BigUint::zero(), "zero()")?;
                agree($F::zero(), &BigUint::zero(), "inherent zero()")?;
                agree(<$F as Ring>::one(), &BigUint::one(), "one()")?;
                agree($F::one(), &BigUint::one(), "inherent one()")?;
                agree(<$F as Ring>::MULTIPLICATIVE_IDENTITY, &BigUint::one(), "MULTIPLICATIVE_IDENTITY")
            });
            for _ in 0..cx.n(3_000, 60_000) {
                if cx.full() { break }
                let k = below(&mut cx.rng, 9);
                let xs: Vec<BigUint> = (0..k).map(|_| gen_val(&mut cx.rng, &f.p)).collect();
                let fs: Vec<$F> = xs.iter().map(|x| $F::of(x)).collect();
                let s = xs.iter().fold(BigUint::zero(), |a, b| f.add(&a, b));
                let m = xs.iter().fold(BigUint::one(), |a, b| f.mul(&a, b));
                cx.case(&xs, k > 1, || {
                    agree(fs.iter().sum::<$F>(), &s, &format!("sum of refs {xs:x?}"))?;
                    agree(fs.iter().cloned().sum::<$F>(), &s, &format!("sum {xs:x?}"))?;
                    agree(fs.iter().product::<$F>(), &m, &format!("product of refs {xs:x?}"))?;
                    agree(fs.iter().cloned().product::<$F>(), &m, &format!("product {xs:x?}"))
                });
            }
        });
        $c.class(&format!("{n}/additive-identity-constant"), |cx| {
            let f = Fp::new(<$F as KField>::modulus());
            for _ in 0..64 {
                let x = gen_val(&mut cx.rng, &f.p);
                let a = $F::of(&x);
                cx.case(&x, true, || {
                    agree(a + <$F as Group>::ADDITIVE_IDENTITY, &x, "a + ADDITIVE_IDENTITY")?;
                    agree(<$F as Group>::ADDITIVE_IDENTITY + a, &x, "ADDITIVE_IDENTITY + a")
                });
            }
        });
        // long random programs over a register file, checked at every step
        $c.sharded(&format!("{n}/programs"), 2, |cx| {
            let f = Fp::new(<$F as KField>::modulus());
            for _ in 0..cx.n(400, 12_000) {
                if cx.full() { break }
                let seed = cx.rng.next_u64();
                cx.case(seed, true, || {
                    let mut rng = ChaCha20Rng::seed_from_u64(seed);
                    let mut o: Vec<BigUint> = (0..6).map(|_| gen_val(&mut rng, &f.p)).collect();
                    let mut r: Vec<$F> = o.iter().map(|x| $F::of(x)).collect();
                    for step in 0..120 {
                        let (i, j, k) = (below(&mut rng, 6) as usize, below(&mut rng, 6) as usize, below(&mut rng, 6) as usize);
                        let op = below(&mut rng, 7);
                        match op {
                            0 => { r[k] = r[i] + r[j]; o[k] = f.add(&o[i], &o[j]) }
                            1 => { r[k] = r[i] - r[j]; o[k] = f.sub(&o[i], &o[j]) }
                            2 => { r[k] = r[i] * r[j]; o[k] = f.mul(&o[i], &o[j]) }
                            3 => { r[k] = -r[i]; o[k] = f.neg(&o[i]) }
                            4 => { r[k] = PrimeField::square(r[i]); o[k] = f.mul(&o[i], &o[i]) }
                            5 => { r[k] = PrimeField::double(r[i]); o[k] = f.add(&o[i], &o[i]) }
                            _ => { let t = r[j]; r[k] *= t; o[k] = f.mul(&o[k], &o[j]) }
                        }
                        agree(r[k], &o[k], &format!("program seed {seed} step {step} op {op}"))?;
                    }
                    Ok(())
                });
            }
        });
    }};
}

fn main() {
    let mut c = Check::new(
        "P01",
        "each case is one operand tuple (or one 120-step random program) run through the real operators and compared with big-integer arithmetic; operands are drawn from boundary values of the integer and of its Montgomery limbs; a case is non-trivial when no operand is zero",
    );
    c.assume("num-bigint implements integer arithmetic correctly; values are observed through the canonical 32-byte encoding");
    field_classes!(c, Fr);
    field_classes!(c, Fq);
    c.run()
}
