//! P03: encodings and representations of field elements.
use bn_254::{Fq, Fr};
use kmon::prelude::*;
use kmon::{ensure, eqv};
use zkstd::common::*;
use parity_scale_codec::{Decode, Encode};
use std::cmp::Ordering;

fn agree<F: KField>(got: F, want: &BigUint, what: &str) -> R {
    ensure!(canonical(&got), "{what}: {} result not reduced: {:x?}", F::NAME, got.raw());
    ensure!(&got.big() == want, "{what} in {}: got {:#x} want {:#x}", F::NAME, got.big(), want);
    Ok(())
}
/// any 256-bit value, dense around the modulus and its multiples
fn any256(rng: &mut impl RngCore, p: &BigUint) -> BigUint {
    let top = pow2(256);
    let v = match rng.next_u64() % 12 {
        0 => p + BigUint::from(rng.next_u64() % 6),
        1 => p - 1u32 - BigUint::from(rng.next_u64() % 6),
        2 => { let k = 1 + rng.next_u64() % 5; p * BigUint::from(k) + BigUint::from(rng.next_u64() % 3) }
        3 => &top - 1u32 - BigUint::from(rng.next_u64() % 3),
        4 => { // differs from p in exactly one limb
            let mut l = limbs::<4>(p); let i = (rng.next_u64() % 4) as usize;
            l[i] = match rng.next_u64() % 4 { 0 => l[i].wrapping_add(1), 1 => l[i].wrapping_sub(1), 2 => 0, _ => u64::MAX };
            from_limbs(&l) }
        5 => { let d = rand_big(rng, 64); p + d }
        6 => { let k = 1 + rng.next_u64() % 250; let d = rand_big(rng, k); p - (d % p) }
        7 | 8 => pat_big(rng, 4, p, &top),
        9 => gen_val(rng, p),
        _ => rand_big(rng, 256),
    };
    v % top
}
fn naf_value(n: &[Naf]) -> Option<(BigUint, BigUint)> {
    // most significant digit first: value = pos - neg
    let (mut pos, mut neg) = (BigUint::zero(), BigUint::zero());
    for d in n {
        pos <<= 1; neg <<= 1;
        match d { Naf::Plus => pos += 1u32, Naf::Minus => neg += 1u32, Naf::Zero => {} }
    }
    Some((pos, neg))
}
macro_rules! classes {
    ($c:ident, $F:ident) => {{
        let n = stringify!($F);
        $c.sharded(&format!("{n}/bytes"), 2, |cx| {
            let p = <$F as KField>::modulus();
            for _ in 0..cx.n(60_000, 1_000_000) {
                if cx.full() { break }
                let v = any256(&mut cx.rng, &p);
                cx.count(if v < p { "canonical strings" } else { "non-canonical strings" }, 1);
                cx.sample(|| format!("from_bytes({v:#x})"));
                cx.case(&v, !v.is_zero(), || {
                    let b = le32(&v);
                    match $F::from_bytes(b) {
                        Some(x) => {
                            ensure!(v < p, "from_bytes accepted the non-canonical string {v:#x}");
                            ensure!(canonical(&x), "from_bytes({v:#x}) not reduced");
                            ensure!(x.to_bytes() == b, "to_bytes(from_bytes({v:#x})) differs");
                            ensure!(x.to_raw_bytes() == b.to_vec(), "to_raw_bytes differs from to_bytes for {v:#x}");
                        }
                        None => ensure!(v >= p, "from_bytes refused the canonical string {v:#x}"),
                    }
                    Ok(())
                });
            }
        });
        // value, computed two ways: the encoding must reflect arithmetic, not only round-trip
        $c.class(&format!("{n}/bytes-vs-arithmetic"), |cx| {
            let p = <$F as KField>::modulus();
            for _ in 0..cx.n(8_000, 100_000) {
                if cx.full() { break }
                let v = gen_val(&mut cx.rng, &p);
                cx.case(&v, !v.is_zero(), || {
                    // Horner over bytes using only from(u64), + and *
                    let b256 = $F::from(256u64);
                    let mut acc = $F::zero();
                    for b in v.to_bytes_be() { acc = acc * b256 + $F::from(b as u64) }
                    ensure!(acc.to_bytes() == le32(&v), "to_bytes of the element {v:#x} built by Horner is {:x?}", acc.to_bytes());
                    let canon = $F::to_mont_form(limbs::<4>(&v));
                    ensure!(canon == acc, "to_mont_form({v:#x}) differs from the element built by Horner");
                    let s = format!("{:?}", acc);
                    ensure!(s == format!("0x{:064x}", v), "Debug of {v:#x} prints {s}");
                    Ok(())
                });
            }
        });
        $c.sharded(&format!("{n}/bits-nafs"), 2, |cx| {
            let p = <$F as KField>::modulus();
            for _ in 0..cx.n(8_000, 150_000) {
                if cx.full() { break }
                let v = gen_val(&mut cx.rng, &p);
                let x = $F::of(&v);
                cx.case(&v, !v.is_zero(), || {
                    let bits = x.to_bits();
                    ensure!(bits.len() == 256, "to_bits has {} entries", bits.len());
                    for (i, b) in bits.iter().enumerate() {
                        ensure!(*b == v.bit(255 - i as u64) as u8, "to_bits({v:#x})[{i}] = {b}");
                    }
                    let nafs = x.to_nafs();
                    let (pos, neg) = naf_value(&nafs).unwrap();
                    ensure!(pos == &neg + &v, "to_nafs({v:#x}) represents pos {pos:#x} - neg {neg:#x}");
                    for w in nafs.windows(2) {
                        ensure!(w[0] == Naf::Zero || w[1] == Naf::Zero, "to_nafs({v:#x}) has adjacent non-zero digits");
                    }
                    ensure!(nafs.first() != Some(&Naf::Zero), "to_nafs({v:#x}) has a leading zero");
                    Ok(())
                });
            }
        });
        $c.class(&format!("{n}/integers-and-wide"), |cx| {
            let p = <$F as KField>::modulus();
            for i in 0..cx.n(25_000, 400_000) {
                if cx.full() { break }
                let u = match i % 4 { 0 => cx.rng.next_u64(), 1 => pat_limb(&mut cx.rng, limbs::<4>(&p)[0]), 2 => u64::MAX - below(&mut cx.rng, 4), _ => below(&mut cx.rng, 9) };
                cx.case(("u64", u), u > 1, || agree($F::from(u), &(BigUint::from(u) % &p), &format!("from({u})")));
                let w = match below(&mut cx.rng, 5) {
                    0 => rand_big(&mut cx.rng, 512),
                    1 => pow2(512) - 1u32 - BigUint::from(below(&mut cx.rng, 3)),
                    2 => pat_big(&mut cx.rng, 8, &p, &pow2(512)),
                    3 => { let k = rand_big(&mut cx.rng, 257); (&p * k + BigUint::from(below(&mut cx.rng, 3))) % pow2(512) }
                    _ => (gen_val(&mut cx.rng, &p) << 256) + any256(&mut cx.rng, &p),
                };
                let mut b = [0u8; 64];
                let wb = w.to_bytes_le();
                b[..wb.len()].copy_from_slice(&wb);
                cx.case(("wide", &w), !w.is_zero(), || agree($F::from_bytes_wide(&b), &(&w % &p), &format!("from_bytes_wide({w:#x})")));
                let v = any256(&mut cx.rng, &p);
                cx.case(("mont", &v), !v.is_zero(), || agree($F::to_mont_form(limbs::<4>(&v)), &(&v % &p), &format!("to_mont_form({v:#x})")));
            }
        });
        $c.class(&format!("{n}/codec"), |cx| {
            let p = <$F as KField>::modulus();
            for _ in 0..cx.n(20_000, 200_000) {
                if cx.full() { break }
                let v = gen_val(&mut cx.rng, &p);
                let x = $F::of(&v);
                cx.case(&v, !v.is_zero(), || {
                    let e = x.encode();
                    let mut s = &e[..];
                    let y = $F::decode(&mut s).map_err(|e| format!("SCALE decode failed: {e:?}"))?;
                    ensure!(y == x && s.is_empty() && y.encode() == e, "SCALE round trip of {v:#x}");
                    let j = serde_json::to_string(&x).unwrap();
                    let y: $F = serde_json::from_str(&j).map_err(|e| format!("serde: {e}"))?;
                    ensure!(y == x, "serde round trip of {v:#x}: {j}");
                    for cut in [0usize, 1, 7, 8, 31] {
                        ensure!($F::decode(&mut &e[..cut.min(e.len() - 1)]).is_err(), "SCALE decode accepted {cut} bytes");
                    }
                    Ok(())
                });
            }
        });
        $c.class(&format!("{n}/decode-any"), |cx| {
            let p = <$F as KField>::modulus();
            for _ in 0..cx.n(20_000, 200_000) {
                if cx.full() { break }
                let v = any256(&mut cx.rng, &p);
                cx.count(if v < p { "decodable strings" } else { "strings of no element" }, 1);
                cx.sample(|| format!("decode({v:#x})"));
                cx.case(&v, true, || {
                    let b = le32(&v);
                    match $F::decode(&mut &b[..]) {
                        Ok(x) => {
                            ensure!(v < p && canonical(&x), "SCALE decode of {v:#x} gave an element out of range: {:x?}", x.raw());
                            ensure!(x.encode() == b, "SCALE encoding of the decoded {v:#x} differs");
                        }
                        Err(_) => ensure!(v >= p, "SCALE decode refused {v:#x}"),
                    }
                    let j = format!("{:?}", limbs::<4>(&v));
                    match serde_json::from_str::<$F>(&j) {
                        Ok(x) => ensure!(v < p && canonical(&x), "serde accepted {v:#x}: an element out of range: {:x?}", x.raw()),
                        Err(_) => {}
                    }
                    Ok(())
                });
            }
        });
        $c.class(&format!("{n}/order"), |cx| {
            let p = <$F as KField>::modulus();
            let mut pool: Vec<$F> = (0..40).map(|_| $F::of(&gen_val(&mut cx.rng, &p))).collect();
            for _ in 0..cx.n(20_000, 200_000) {
                if cx.full() { break }
                let (a, b, d) = (*pick(&mut cx.rng, &pool), *pick(&mut cx.rng, &pool), *pick(&mut cx.rng, &pool));
                cx.case((a.raw(), b.raw(), d.raw()), a != b, || {
                    let o = a.cmp(&b);
                    ensure!((o == Ordering::Equal) == (a == b), "cmp disagrees with == on {a:?} {b:?}");
                    ensure!(o == b.cmp(&a).reverse(), "cmp not antisymmetric on {a:?} {b:?}");
                    ensure!(a.partial_cmp(&b) == Some(o), "partial_cmp differs from cmp");
                    ensure!((a < b) == (o == Ordering::Less), "< differs from cmp on {a:?} {b:?}");
                    ensure!((a <= b) == (o != Ordering::Greater), "<= differs from cmp on {a:?} {b:?}");
                    ensure!((a > b) == (o == Ordering::Greater), "> differs from cmp on {a:?} {b:?}");
                    ensure!((a >= b) == (o != Ordering::Less), ">= differs from cmp on {a:?} {b:?}");
                    if a <= b && b <= d { ensure!(a <= d, "order not transitive") }
                    Ok(())
                });
                if cx.rng.next_u64() % 16 == 0 { let k = below(&mut cx.rng, 40) as usize; let v = gen_val(&mut cx.rng, &p); pool[k] = $F::of(&v); }
            }
        });
        $c.class(&format!("{n}/random"), |cx| {
            // statistical monitor on the sampler: every canonical bit has the frequency a uniform value has
            let p = <$F as KField>::modulus();
            let m = cx.n(20_000, 200_000);
            let mut ones = [0u64; 256];
            let mut seen = std::collections::HashSet::new();
            let mut bad = None;
            for _ in 0..m {
                let x = <$F as Group>::random(&mut cx.rng);
                if !canonical(&x) { bad = Some(format!("random() not reduced: {:x?}", x.raw())) }
                let v = x.big();
                for i in 0..256 { if v.bit(i) { ones[i as usize] += 1 } }
                seen.insert(hash_of(&v));
            }
            cx.case("canonical", true, || match bad { Some(b) => Err(b.into()), None => Ok(()) });
            cx.case("distinct", true, || { ensure!(seen.len() as u64 >= m - 1, "random() repeated itself: {} of {m} distinct", seen.len()); Ok(()) });
            for i in 0..256u64 {
                // exact probability that bit i of a uniform value below p is set
                let full = &p >> (i + 1);
                let rem = &p - (&full << (i + 1));
                let half = pow2(i);
                let cnt = &full * &half + if rem > half { rem - &half } else { BigUint::zero() };
                let pr = { let s: BigUint = (cnt << 60u32) / &p; s.iter_u64_digits().next().unwrap_or(0) as f64 / (1u64 << 60) as f64 };
                let got = ones[i as usize];
                cx.case(("bit", i), pr > 0.0, || {
                    let sd = (m as f64 * pr * (1.0 - pr)).sqrt().max(1.0);
                    ensure!((got as f64 - m as f64 * pr).abs() < 7.0 * sd, "bit {i} of random() set {got} times in {m}, expected {:.0}", m as f64 * pr);
                    Ok(())
                });
            }
            // deterministic in the generator
            let seed = cx.rng.next_u64();
            cx.case("deterministic", true, || {
                let a = <$F as Group>::random(&mut ChaCha20Rng::seed_from_u64(seed));
                let b = <$F as Group>::random(&mut ChaCha20Rng::seed_from_u64(seed));
                ensure!(a == b, "random() is not a function of the generator");
                Ok(())
            });
        });
    }};
}
fn main() {
    let mut c = Check::new(
        "P03",
        "each case is one byte string / integer / element pushed through the real encoders and decoders and compared with a big-integer reading of the same data; non-trivial: the value is not zero",
    );
    c.assume("operators + and * used by the Horner construction are judged by P01");
    classes!(c, Fr);
    classes!(c, Fq);
    c.class("Fr-Fq/conversion", |cx| {
        let (r, q) = (r_mod(), q_mod());
        for _ in 0..cx.n(30_000, 300_000) {
            if cx.full() { break }
            let v = gen_val(&mut cx.rng, &r);
            cx.case(("r->q", &v), !v.is_zero(), || agree(Fq::from(Fr::of(&v)), &v, &format!("Fq::from(Fr {v:#x})")));
            let v = match below(&mut cx.rng, 4) { 0 => &q - 1u32 - BigUint::from(below(&mut cx.rng, 5)), 1 => { let d = rand_big(&mut cx.rng, 120) % (&q - &r); &r + d } _ => gen_val(&mut cx.rng, &q) };
            cx.count(if v >= r { "Fq values above r" } else { "Fq values below r" }, 1);
            cx.case(("q->r", &v), !v.is_zero(), || agree(Fr::from(Fq::of(&v)), &(&v % &r), &format!("Fr::from(Fq {v:#x})")));
        }
    });
    c.class("Fr/hash-and-reduced-view", |cx| {
        let r = r_mod();
        for _ in 0..cx.n(20_000, 300_000) {
            if cx.full() { break }
            let mut h = [0u8; 64];
            cx.rng.fill_bytes(&mut h);
            match below(&mut cx.rng, 4) { 0 => h[..32].copy_from_slice(&le32(&any256(&mut cx.rng, &r))), 1 => h[32..].copy_from_slice(&le32(&any256(&mut cx.rng, &r))), 2 => h = [0xff; 64], _ => {} }
            let w = BigUint::from_bytes_le(&h);
            cx.case(("hash", &w), true, || agree(Fr::from_hash(&h), &(&w % &r), &format!("from_hash({w:#x})")));
            let v = gen_val(&mut cx.rng, &r);
            let x = Fr::of(&v);
            let k = 1 + below(&mut cx.rng, 8) as u8;
            let w = 1 + below(&mut cx.rng, 8) as u8;
            let d = match below(&mut cx.rng, 3) { 0 => below(&mut cx.rng, 4) * 64, 1 => 256 + below(&mut cx.rng, 70), _ => below(&mut cx.rng, 256) } as u32;
            cx.case(("reduced", &v, k, w, d), !v.is_zero(), || {
                // `reduce` exposes the canonical integer in the limbs; parity, windows and shifts act on it
                let y = x.reduce();
                ensure!(from_limbs(y.inner()) == v, "reduce({v:#x}) holds {:x?}", y.inner());
                ensure!(y.is_even() == !v.bit(0), "is_even of reduced {v:#x}");
                let low = limbs::<4>(&v)[0];
                ensure!(y.mod_2_pow_k(k) as u64 == low % (1 << k), "mod_2_pow_k({k}) of reduced {v:#x} = {}", y.mod_2_pow_k(k));
                let m = (low % (1 << w)) as i64;
                let want = if m >= 1 << (w - 1) { m - (1 << w) } else { m };
                ensure!(y.mods_2_pow_k(w) as i64 == want, "mods_2_pow_k({w}) of reduced {v:#x} = {}", y.mods_2_pow_k(w));
                let mut z = y;
                z.divn(d);
                ensure!(from_limbs(z.inner()) == (&v >> d as usize), "divn({d}) of reduced {v:#x} = {:x?}", z.inner());
                ensure!(x.is_odd() == v.bit(0), "is_odd({v:#x})");
                Ok(())
            });
        }
    });
    c.class("Fr/bitwise-and-digits", |cx| {
        let r = r_mod();
        for _ in 0..cx.n(20_000, 200_000) {
            if cx.full() { break }
            let (v, u) = (gen_val(&mut cx.rng, &r), gen_val(&mut cx.rng, &r));
            let (a, b) = (Fr::of(&v), Fr::of(&u));
            cx.case((&v, &u), !v.is_zero() && !u.is_zero(), || {
                agree(a ^ b, &((&v ^ &u) % &r), &format!("{v:#x} ^ {u:#x}"))?;
                agree(&a ^ &b, &((&v ^ &u) % &r), &format!("&{v:#x} ^ &{u:#x}"))?;
                agree(a & b, &((&v & &u) % &r), &format!("{v:#x} & {u:#x}"))?;
                agree(&a & &b, &((&v & &u) % &r), &format!("&{v:#x} & &{u:#x}"))?;
                let d = a.to_costomized_repr();
                let mut t = BigUint::zero();
                for x in &d { ensure!(*x < 4, "base-4 digit {x}"); t = t * 4u32 + BigUint::from(*x) }
                ensure!(t == v && d.first() != Some(&0), "base-4 digits of {v:#x} read {t:#x}");
                Ok(())
            });
        }
    });
    c.class("Fq/sign", |cx| {
        let q = q_mod();
        let half = (&q - 1u32) / 2u32;
        for _ in 0..cx.n(40_000, 400_000) {
            if cx.full() { break }
            let v = match below(&mut cx.rng, 3) { 0 => { let k = below(&mut cx.rng, 250); let d = rand_big(&mut cx.rng, k); if below(&mut cx.rng, 2) == 0 { (&half + d) % &q } else { (&half + &q - d % &q) % &q } } _ => gen_val(&mut cx.rng, &q) };
            cx.case(&v, !v.is_zero(), || {
                ensure!(Fq::of(&v).lexicographically_largest() == (v > half), "lexicographically_largest({v:#x})");
                Ok(())
            });
        }
    });
    c.run()
}
