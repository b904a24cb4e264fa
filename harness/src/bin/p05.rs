//! P05: the modulus-generic 256-bit and 384-bit limb arithmetic computes modulo p for every
//! odd modulus that leaves the top bit free.
use kmon::prelude::*;
use kmon::{ensure, eqv};
use rand_chacha::ChaCha20Rng;
use zkstd::arithmetic::utils::Naf;

fn odd_modulus(rng: &mut ChaCha20Rng, n: usize) -> BigUint {
    let bits = 64 * n as u64 - 1;
    loop {
        let m = match below(rng, 6) {
            0 => pow2(bits) - 1u32 - BigUint::from(2 * below(rng, 1000)),
            1 => pow2(bits - 1) + 1u32 + BigUint::from(2 * below(rng, 1000)),
            2 | 3 => {
                let l: Vec<u64> = (0..n).map(|_| pat_limb(rng, 0x8000_0000_0000_0001)).collect();
                from_limbs(&l) % pow2(bits)
            }
            4 => { let b = bits - below(rng, 8); rand_big(rng, b) }
            _ => rand_big(rng, bits),
        };
        let m = if m.bit(0) { m } else { m + 1u32 };
        if m.bits() + 60 > bits && m.bits() <= bits {
            return m;
        }
    }
}
fn neg_inv64(p: &BigUint) -> u64 {
    let p0 = limbs::<6>(p)[0];
    let mut x: u64 = 1;
    for _ in 0..7 {
        x = x.wrapping_mul(2u64.wrapping_sub(p0.wrapping_mul(x)));
    }
    x.wrapping_neg()
}
struct Ctx {
    p: BigUint,
    r: BigUint,
    ri: BigUint,
    inv: u64,
}
fn ctx(p: BigUint, n: usize) -> Ctx {
    let r = pow2(64 * n as u64);
    let ri = mod_inv(&(&r % &p), &p).unwrap();
    let inv = neg_inv64(&p);
    Ctx { p, r, ri, inv }
}

macro_rules! suite {
    ($c:ident, $m:ident, $n:expr, $primes:expr) => {{
        use zkstd::arithmetic::$m as ar;
        let tag = stringify!($m);
        const N: usize = $n;
        let choose = |rng: &mut ChaCha20Rng| -> Ctx {
            let ps: Vec<BigUint> = $primes;
            let p = if below(rng, 2) == 0 { ps[below(rng, ps.len() as u64) as usize].clone() } else { odd_modulus(rng, N) };
            ctx(p, N)
        };
        $c.sharded(&format!("{tag}/ops"), 2, move |cx| {
            for _ in 0..cx.n(4_000, 120_000) {
                if cx.full() { break }
                let k = choose(&mut cx.rng);
                let p = limbs::<N>(&k.p);
                let f = Fp::new(k.p.clone());
                for _ in 0..8 {
                    let gen = |rng: &mut ChaCha20Rng| match below(rng, 3) {
                        0 => gen_val(rng, &k.p),
                        _ => pat_big(rng, N, &k.p, &k.p),
                    };
                    let (a, b) = (gen(&mut cx.rng), gen(&mut cx.rng));
                    let (al, bl) = (limbs::<N>(&a), limbs::<N>(&b));
                    cx.sample(|| format!("p={:#x} a={a:#x} b={b:#x}", k.p));
                    cx.case((&k.p, &a, &b), !a.is_zero() && !b.is_zero(), || {
                        let w = |o: &str| format!("{o} p={:#x} a={a:#x} b={b:#x}", k.p);
                        eqv!(from_limbs(&ar::add(al, bl, p)), f.add(&a, &b), "{}", w("add"));
                        eqv!(from_limbs(&ar::sub(al, bl, p)), f.sub(&a, &b), "{}", w("sub"));
                        eqv!(from_limbs(&ar::double(al, p)), f.add(&a, &a), "{}", w("double"));
                        eqv!(from_limbs(&ar::neg(al, p)), f.neg(&a), "{}", w("neg"));
                        eqv!(from_limbs(&ar::mul(al, bl, p, k.inv)), &a * &b % &k.p * &k.ri % &k.p, "{}", w("mul"));
                        eqv!(from_limbs(&ar::square(al, p, k.inv)), &a * &a % &k.p * &k.ri % &k.p, "{}", w("square"));
                        Ok(())
                    });
                }
            }
        });
        // the reduction itself, on double-width inputs below p*R
        $c.sharded(&format!("{tag}/mont"), 2, move |cx| {
            for _ in 0..cx.n(4_000, 120_000) {
                if cx.full() { break }
                let k = choose(&mut cx.rng);
                let p = limbs::<N>(&k.p);
                let bound = &k.p * &k.r;
                for _ in 0..8 {
                    let t = match below(&mut cx.rng, 6) {
                        0 => &bound - 1u32 - BigUint::from(below(&mut cx.rng, 4)),
                        1 => {
                            // t = u*R + v such that the unreduced quotient is close to p
                            let v = pat_big(&mut cx.rng, N, &k.p, &k.r);
                            let m = (&v * (&k.r - &(mod_inv(&k.p, &k.r).unwrap()))) % &k.r;
                            let carry = (&v + &m * &k.p) / &k.r;
                            let target = &k.p + BigUint::from(below(&mut cx.rng, 3));
                            if target >= carry && &target - &carry < k.p { (target - carry) * &k.r + v } else { v }
                        }
                        2 => BigUint::from(below(&mut cx.rng, 4)),
                        _ => pat_big(&mut cx.rng, 2 * N, &k.p, &bound),
                    };
                    if t >= bound { continue }
                    cx.case((&k.p, &t), !t.is_zero(), || {
                        eqv!(from_limbs(&ar::mont(limbs::<{ 2 * N }>(&t), p, k.inv)), (&t % &k.p) * &k.ri % &k.p,
                            "mont p={:#x} t={t:#x}", k.p);
                        Ok(())
                    });
                }
            }
        });
        $c.heavy(&format!("{tag}/pow-invert-represent"), move |cx| {
            for _ in 0..cx.n(600, 12_000) {
                if cx.full() { break }
                let mut k = choose(&mut cx.rng);
                let ps: Vec<BigUint> = $primes;
                let prime = below(&mut cx.rng, 3) > 0;
                if prime { k = ctx(ps[below(&mut cx.rng, ps.len() as u64) as usize].clone(), N) }
                let p = limbs::<N>(&k.p);
                let (r2, r3) = (&k.r * &k.r % &k.p, &k.r * &k.r % &k.p * &k.r % &k.p);
                let (r2l, r3l) = (limbs::<N>(&r2), limbs::<N>(&r3));
                let a = gen_val(&mut cx.rng, &k.p);
                let e = match below(&mut cx.rng, 4) { 0 => BigUint::from(below(&mut cx.rng, 5)), 1 => &k.p - 1u32, 2 => pat_big(&mut cx.rng, N, &k.p, &k.r), _ => gen_val(&mut cx.rng, &k.p) };
                let wide: Vec<u64> = (0..2 * N).map(|_| pat_limb(&mut cx.rng, 77)).collect();
                let u = cx.rng.next_u64() >> below(&mut cx.rng, 64);
                cx.case((&k.p, &a, &e), !a.is_zero() && !e.is_zero(), || {
                    let w = |o: &str| format!("{o} p={:#x} a={a:#x} e={e:#x}", k.p);
                    let one = ar::one(r2l, p, k.inv);
                    eqv!(from_limbs(&one), &k.r % &k.p, "{}", w("one"));
                    eqv!(from_limbs(&ar::zero()), BigUint::zero(), "zero");
                    let am = ar::to_mont_form(limbs::<N>(&a), r2l, p, k.inv);
                    eqv!(from_limbs(&am), &a * &k.r % &k.p, "{}", w("to_mont_form"));
                    eqv!(from_limbs(&ar::from_u64(u, r2l, p, k.inv)), BigUint::from(u) * &k.r % &k.p, "from_u64 {u}");
                    eqv!(from_limbs(&ar::from_u512(wide.clone().try_into().unwrap(), r2l, r3l, p, k.inv)), from_limbs(&wide) * &k.r % &k.p, "from_u512 {wide:x?}");
                    eqv!(from_limbs(&ar::pow(am, limbs::<N>(&e), one, p, k.inv)), a.modpow(&e, &k.p) * &k.r % &k.p, "{}", w("pow"));
                    eqv!(from_limbs(&ar::little_fermat(p)), &k.p - 2u32, "{}", w("little_fermat"));
                    if prime {
                        let i = ar::invert(am, ar::little_fermat(p), one, p, k.inv).map(|i| from_limbs(&i));
                        eqv!(i, mod_inv(&a, &k.p).map(|i| i * &k.r % &k.p), "{}", w("invert"));
                    }
                    Ok(())
                });
            }
        });
        $c.class(&format!("{tag}/bits-nafs"), move |cx| {
            for _ in 0..cx.n(6_000, 200_000) {
                if cx.full() { break }
                let v = match below(&mut cx.rng, 5) {
                    0 => BigUint::from(below(&mut cx.rng, 40)),
                    1 => pow2(64 * N as u64) - 1u32 - BigUint::from(below(&mut cx.rng, 4)),
                    2 => pow2(below(&mut cx.rng, 64 * N as u64)),
                    _ => pat_big(&mut cx.rng, N, &pow2(60), &pow2(64 * N as u64)),
                };
                cx.case(&v, !v.is_zero(), || {
                    let bits = ar::to_bits(limbs::<N>(&v));
                    eqv!(bits.len(), 64 * N, "bit length");
                    for (i, b) in bits.iter().rev().enumerate() {
                        ensure!(*b == v.bit(i as u64) as u8, "to_bits({v:#x}): bit {i} is {b}");
                    }
                    let nafs = ar::to_nafs(limbs::<N>(&v));
                    let mut acc = num_bigint::BigInt::from(0);
                    let mut prev = false;
                    for d in &nafs {
                        acc = acc * 2;
                        match d { Naf::Plus => acc += 1, Naf::Minus => acc -= 1, Naf::Zero => {} }
                        ensure!(!(prev && *d != Naf::Zero), "to_nafs({v:#x}): adjacent non-zero digits");
                        prev = *d != Naf::Zero;
                    }
                    ensure!(acc == num_bigint::BigInt::from(v.clone()), "to_nafs({v:#x}) evaluates to {acc:#x}");
                    Ok(())
                });
            }
        });
    }};
}

fn main() {
    let mut c = Check::new("P05", "operands not zero, distinct (modulus, operands) triples");
    c.assume("moduli are odd and leave the top bit of the top limb free, operands of add/sub/double/neg/mul/square are reduced, mont input is below p*R");
    suite!(c, bits_256, 4, vec![r_mod(), q_mod(), bls_r(), jub_r()]);
    suite!(c, bits_384, 6, vec![bls_q()]);
    c.run()
}
