//! P14: sparse rows, sparse matrices and dense vectors are exact linear algebra over the field.
use kmon::prelude::*;
use kmon::{ensure, eqv};
use std::collections::BTreeMap;
use zkstd::circuit::prelude::*;
use zkstd::common::*;
use zkstd::matrix::*;

type Row = BTreeMap<(u8, u64), BigUint>;
/// the SCALE form of a sparse matrix, parsed without the crate
fn compact(b: &[u8], at: &mut usize) -> u64 {
    let m = b[*at] & 3;
    let n = [1usize, 2, 4, 0][m as usize];
    assert!(n > 0, "big compact");
    let mut v = 0u64;
    for i in 0..n {
        v |= (b[*at + i] as u64) << (8 * i);
    }
    *at += n;
    v >> 2
}
fn put_compact(v: u64, o: &mut Vec<u8>) {
    if v < 64 {
        o.push((v << 2) as u8)
    } else if v < 1 << 14 {
        o.extend_from_slice(&(((v << 2) | 1) as u16).to_le_bytes())
    } else {
        o.extend_from_slice(&(((v << 2) | 2) as u32).to_le_bytes())
    }
}

struct Env<C: CircuitDriver> {
    cs: R1cs<C>,
    rows: Vec<(SparseRow<C::Scalar>, Row)>,
    x: Vec<BigUint>,
    w: Vec<BigUint>,
}
/// rows over random wires, grown by the row operators, next to their maps
fn env<C: CircuitDriver>(rng: &mut ChaCha20Rng, n: usize, wires: u64) -> Env<C>
where
    C::Scalar: KField,
{
    let p = C::Scalar::modulus();
    let o = Fp::new(p.clone());
    let mut e = Env { cs: R1cs::<C>::default(), rows: vec![], x: vec![BigUint::one()], w: vec![] };
    for _ in 0..wires {
        let v = gen_val(rng, &p);
        let (a, key) = if below(rng, 2) == 0 {
            e.x.push(v.clone());
            (FieldAssignment::instance(&mut e.cs, C::Scalar::of(&v)), (0u8, e.x.len() as u64 - 1))
        } else {
            e.w.push(v.clone());
            (FieldAssignment::witness(&mut e.cs, C::Scalar::of(&v)), (1u8, e.w.len() as u64 - 1))
        };
        e.rows.push((a.inner().clone(), [(key, BigUint::one())].into_iter().collect()));
    }
    e.rows.push((SparseRow::one(), [((0, 0), BigUint::one())].into_iter().collect()));
    let v = gen_val(rng, &p);
    e.rows.push((SparseRow::from(C::Scalar::of(&v)), [((0, 0), v)].into_iter().filter(|(_, v)| !v.is_zero()).collect()));
    let comb = |a: &Row, b: &Row, s: &BigUint| {
        let mut r = a.clone();
        for (k, v) in b {
            let t = r.entry(*k).or_insert_with(BigUint::zero);
            *t = o.add(t, &o.mul(v, s));
        }
        r.retain(|_, v| !v.is_zero());
        r
    };
    let minus = &p - 1u32;
    while e.rows.len() < n {
        let i = below(rng, e.rows.len() as u64) as usize;
        let j = below(rng, e.rows.len() as u64) as usize;
        let ((a, ma), (b, mb)) = (e.rows[i].clone(), e.rows[j].clone());
        let r = match below(rng, 10) {
            0 => (&a + &b, comb(&ma, &mb, &BigUint::one())),
            1 => (a + b, comb(&ma, &mb, &BigUint::one())),
            2 => (a + &b, comb(&ma, &mb, &BigUint::one())),
            3 => (&a + b, comb(&ma, &mb, &BigUint::one())),
            4 => (&a - &b, comb(&ma, &mb, &minus)),
            5 => (a - b, comb(&ma, &mb, &minus)),
            6 => (if below(rng, 2) == 0 { &a - b } else { a - &b }, comb(&ma, &mb, &minus)),
            7 => (if below(rng, 2) == 0 { -&a } else { -a }, comb(&Row::new(), &ma, &minus)),
            _ => {
                let s = gen_val(rng, &p);
                let f = C::Scalar::of(&s);
                let r = match below(rng, 4) {
                    0 => &a * f,
                    1 => &a * &f,
                    2 => a * f,
                    _ => a * &f,
                };
                (r, comb(&Row::new(), &ma, &s))
            }
        };
        e.rows.push(r);
    }
    e
}
fn dot(r: &Row, x: &[BigUint], w: &[BigUint], p: &BigUint) -> BigUint {
    r.iter().fold(BigUint::zero(), |s, ((k, i), c)| (s + c * if *k == 0 { &x[*i as usize] } else { &w[*i as usize] }) % p)
}

fn driver<C: CircuitDriver + 'static>(c: &mut Check, name: &'static str)
where
    C::Scalar: KField,
{
    c.sharded(&format!("{name}/rows"), 2, |cx| {
        let p = C::Scalar::modulus();
        for _ in 0..cx.n(400, 20_000) {
            if cx.full() {
                break;
            }
            let mut rng = ChaCha20Rng::seed_from_u64(cx.rng.next_u64());
            let wires = 1 + below(&mut rng, 6);
            let e = env::<C>(&mut rng, 24, wires);
            let key = rng.next_u64();
            cx.count("row operations", 24 - wires - 2);
            cx.case(key, true, || {
                let (x, w) = (DenseVectors::new(e.cs.x()), DenseVectors::new(e.cs.w()));
                for (r, m) in &e.rows {
                    let got = r.evaluate(&x, &w).big();
                    eqv!(got, dot(m, &e.x, &e.w, &p), "row {r:?} evaluated");
                    // on fresh vectors too
                    let x2: Vec<BigUint> = e.x.iter().map(|_| gen_val(&mut rng, &p)).collect();
                    let w2: Vec<BigUint> = e.w.iter().map(|_| gen_val(&mut rng, &p)).collect();
                    let d = |v: &[BigUint]| DenseVectors::new(v.iter().map(|b| C::Scalar::of(b)).collect());
                    eqv!(r.evaluate(&d(&x2), &d(&w2)).big(), dot(m, &x2, &w2, &p), "row {r:?} on other values");
                    // a constant answer must be right; rows made of the constant wire alone must be recognised
                    match r.as_constant() {
                        Some(k) => ensure!(m.keys().all(|k| *k == (0, 0)) && m.get(&(0, 0)).cloned().unwrap_or_else(BigUint::zero) == k.big(), "as_constant({r:?}) = {k:?}"),
                        None => ensure!(m.len() != 1 || !m.contains_key(&(0, 0)), "{r:?} is the constant {m:?}, as_constant says it is not"),
                    }
                    eqv!(r.num_terms(), m.len(), "terms of {r:?}");
                }
                Ok(())
            });
        }
    });
    c.sharded(&format!("{name}/matrices"), 2, |cx| {
        let p = C::Scalar::modulus();
        for _ in 0..cx.n(250, 12_000) {
            if cx.full() {
                break;
            }
            let mut rng = ChaCha20Rng::seed_from_u64(cx.rng.next_u64());
            let wires = 1 + below(&mut rng, 90);
            let mut e = env::<C>(&mut rng, wires as usize + 20, wires);
            let m = below(&mut rng, 20) as usize;
            let mut want: Vec<[Row; 3]> = vec![];
            for _ in 0..m {
                let mut pick = || e.rows[below(&mut rng, e.rows.len() as u64) as usize].clone();
                let (a, b, c) = (pick(), pick(), pick());
                e.cs.mul_gate(&a.0, &b.0, &c.0);
                want.push([a.1, b.1, c.1]);
            }
            let key = rng.next_u64();
            cx.count("matrix rows", 3 * m as u64);
            cx.case(key, m > 0, || {
                let cs = &e.cs;
                eqv!((cs.m() as usize, cs.l(), cs.m_l_1()), (m, e.x.len(), e.w.len()), "m, l, m_l_1");
                eqv!(cs.x().iter().map(|v| v.big()).collect::<Vec<_>>(), e.x, "x");
                eqv!(cs.w().iter().map(|v| v.big()).collect::<Vec<_>>(), e.w, "w");
                let ms = cs.matrices();
                let ev = cs.evaluate();
                let (zx, zw) = cs.z_vectors(cs.l(), cs.m_l_1());
                let mut all = true;
                for (k, (mat, ev, zx, zw)) in [(&ms.0, &ev.0, &zx.0, &zw.0), (&ms.1, &ev.1, &zx.1, &zw.1), (&ms.2, &ev.2, &zx.2, &zw.2)].into_iter().enumerate() {
                    let w: Vec<BigUint> = want.iter().map(|r| dot(&r[k], &e.x, &e.w, &p)).collect();
                    eqv!(ev.iter().map(|v| v.big()).collect::<Vec<_>>(), w, "evaluate, matrix {k}");
                    // product with an arbitrary vector, split at l
                    let l = e.x.len();
                    let z: Vec<BigUint> = (0..l + e.w.len()).map(|_| gen_val(&mut rng, &p)).collect();
                    let zf = DenseVectors::new(z.iter().map(|b| C::Scalar::of(b)).collect());
                    let pr: Vec<BigUint> = mat.prod(m as u64, l, &zf).get().iter().map(|v| v.big()).collect();
                    let pw: Vec<BigUint> = want.iter().map(|r| dot(&r[k], &z[..l], &z[l..], &p)).collect();
                    eqv!(pr, pw, "prod, matrix {k}");
                    // columns
                    eqv!((zx.len(), zw.len()), (l, e.w.len()), "number of columns");
                    let mut cols: Vec<Row> = vec![Row::new(); m];
                    for (kind, side) in [(0u8, zx), (1, zw)] {
                        for (j, col) in side.iter().enumerate() {
                            for (c, i) in col {
                                let old = cols[*i].insert((kind, j as u64), c.big());
                                ensure!(old.is_none(), "column {j} names row {i} twice");
                            }
                        }
                    }
                    cols.iter_mut().for_each(|r| r.retain(|_, v| !v.is_zero()));
                    ensure!(cols.iter().zip(&want).all(|(a, b)| a == &b[k]), "columns of matrix {k} are not its rows transposed");
                    // codec, against an independent reading of the SCALE bytes
                    let bytes = mat.encode();
                    let mut at = 0;
                    let n = compact(&bytes, &mut at) as usize;
                    eqv!(n, m, "encoded row count");
                    for r in 0..n {
                        let t = compact(&bytes, &mut at);
                        let mut row = Row::new();
                        for _ in 0..t {
                            let tag = bytes[at];
                            at += 1;
                            let i = compact(&bytes, &mut at);
                            let raw = from_limbs(&(0..4).map(|q| u64::from_le_bytes(bytes[at + 8 * q..at + 8 * q + 8].try_into().unwrap())).collect::<Vec<_>>());
                            at += 32;
                            // field elements travel in Montgomery or canonical form; accept what the field's own codec says
                            let f = C::Scalar::decode(&mut &raw_bytes(&raw)[..]).map_err(|e| format!("{e:?}"))?;
                            row.insert((tag, i), f.big());
                        }
                        row.retain(|_, v| !v.is_zero());
                        eqv!(row, want[r][k], "encoded row {r}");
                    }
                    eqv!(at, bytes.len(), "trailing bytes");
                    let back = SparseMatrix::<C::Scalar>::decode(&mut &bytes[..]).map_err(|e| format!("decode: {e:?}"))?;
                    ensure!(&back == mat, "decode(encode(matrix)) differs");
                }
                for (i, r) in want.iter().enumerate() {
                    let v: Vec<BigUint> = (0..3).map(|k| dot(&r[k], &e.x, &e.w, &p)).collect();
                    all &= (&v[0] * &v[1]) % &p == v[2];
                    let _ = i;
                }
                eqv!(cs.is_sat(), all, "is_sat of random rows");
                Ok(())
            });
        }
    });
    // a matrix handed over by its encoding: wire indices beyond the compact boundaries
    c.class(&format!("{name}/decoded-matrices"), |cx| {
        let p = C::Scalar::modulus();
        for it in 0..cx.n(60, 1500) {
            if cx.full() {
                break;
            }
            let mut rng = ChaCha20Rng::seed_from_u64(cx.rng.next_u64());
            let (l, n) = (1 + below(&mut rng, 300) as usize, below(&mut rng, 20_000) as usize + 1);
            let m = 1 + below(&mut rng, 100) as usize;
            let mut want: Vec<Row> = vec![];
            let mut b = vec![];
            put_compact(m as u64, &mut b);
            for _ in 0..m {
                let mut r = Row::new();
                for _ in 0..below(&mut rng, 7) {
                    let key = if below(&mut rng, 2) == 0 { (0, below(&mut rng, l as u64)) } else { (1, below(&mut rng, n as u64)) };
                    r.insert(key, gen_val(&mut rng, &p) | BigUint::one() % &p);
                }
                put_compact(r.len() as u64, &mut b);
                for ((t, i), v) in r.iter_mut() {
                    *v = &*v % &p;
                    b.push(*t);
                    put_compact(*i, &mut b);
                    b.extend(C::Scalar::of(v).encode());
                }
                want.push(r);
            }
            cx.case((it, l, n, m), true, || {
                let mat = SparseMatrix::<C::Scalar>::decode(&mut &b[..]).map_err(|e| format!("decode: {e:?}"))?;
                eqv!(mat.encode(), b, "encode(decode(bytes))");
                let z: Vec<BigUint> = (0..l + n).map(|_| gen_rand(&mut rng, &p)).collect();
                let zf = DenseVectors::new(z.iter().map(|b| C::Scalar::of(b)).collect());
                let pr: Vec<BigUint> = mat.prod(m as u64, l, &zf).get().iter().map(|v| v.big()).collect();
                let pw: Vec<BigUint> = want.iter().map(|r| dot(r, &z[..l], &z[l..], &p)).collect();
                eqv!(pr, pw, "prod of a decoded matrix");
                Ok(())
            });
        }
    });
    c.class(&format!("{name}/vectors"), |cx| {
        let p = C::Scalar::modulus();
        let o = Fp::new(p.clone());
        for _ in 0..cx.n(1500, 40_000) {
            if cx.full() {
                break;
            }
            let n = below(&mut cx.rng, 40) as usize;
            let a: Vec<BigUint> = (0..n).map(|_| gen_val(&mut cx.rng, &p)).collect();
            let b: Vec<BigUint> = (0..n).map(|_| gen_val(&mut cx.rng, &p)).collect();
            let s = gen_val(&mut cx.rng, &p);
            let other = n + 1 + below(&mut cx.rng, 3) as usize;
            cx.case((&a, &b, &s), n > 0, || {
                type D<C> = DenseVectors<<C as CircuitDriver>::Scalar>;
                let d = |v: &[BigUint]| -> D<C> { DenseVectors::new(v.iter().map(|b| C::Scalar::of(b)).collect()) };
                let g = |v: &D<C>| -> Vec<BigUint> { v.get().iter().map(|v| v.big()).collect() };
                let z = |f: &dyn Fn(&BigUint, &BigUint) -> BigUint| -> Vec<BigUint> { a.iter().zip(&b).map(|(x, y)| f(x, y)).collect() };
                let (da, db, sf) = (d(&a), d(&b), C::Scalar::of(&s));
                eqv!(g(&(da.clone() + db.clone())), z(&|x, y| o.add(x, y)), "+");
                eqv!(g(&(&da + &db)), z(&|x, y| o.add(x, y)), "+ by reference");
                eqv!(g(&(da.clone() - db.clone())), z(&|x, y| o.sub(x, y)), "-");
                eqv!(g(&(da.clone() * db.clone())), z(&|x, y| o.mul(x, y)), "Hadamard product");
                let sc: Vec<BigUint> = a.iter().map(|x| o.mul(x, &s)).collect();
                eqv!(g(&(da.clone() * sf)), sc, "scaling");
                eqv!(g(&(&da * sf)), sc, "scaling by reference");
                eqv!(da.len(), n, "len");
                eqv!(da.is_empty(), n == 0, "is_empty");
                eqv!(da.iter().map(|v| v.big()).collect::<Vec<_>>(), a, "iter");
                for i in 0..n {
                    eqv!(da[i].big(), a[i], "index {i}");
                }
                let mut dm = da.clone();
                dm.push(sf);
                eqv!(dm.len(), n + 1, "len after push");
                eqv!(dm[n].big(), s, "pushed element");
                dm[n] = C::Scalar::one();
                eqv!(dm[n].big(), BigUint::one(), "written element");
                eqv!(g(&D::<C>::zero(n)), vec![BigUint::zero(); n], "zero");
                eqv!(g(&D::<C>::one(n)), vec![BigUint::one() % &p; n], "one");
                let bytes = da.encode();
                let back = D::<C>::decode(&mut &bytes[..]).map_err(|e| format!("{e:?}"))?;
                ensure!(back == da, "codec");
                eqv!(da == db, a == b, "equality");
                // vectors of different dimensions have no sum or product
                let dl = D::<C>::one(other);
                ensure!(guard(|| da.clone() + dl.clone()).is_err(), "sum of vectors of {n} and {other} entries");
                ensure!(guard(|| &da + &dl).is_err(), "sum by reference of vectors of {n} and {other} entries");
                ensure!(guard(|| da.clone() - dl.clone()).is_err(), "difference of vectors of {n} and {other} entries");
                ensure!(guard(|| da.clone() * dl.clone()).is_err(), "product of vectors of {n} and {other} entries");
                Ok(())
            });
        }
    });
}
fn raw_bytes(v: &BigUint) -> [u8; 32] {
    le32(v)
}

fn main() {
    let mut c = Check::new("P14", "systems with at least one row, vectors with at least one entry, distinct");
    c.assume("field elements inside encodings are read with the field's own codec (P03)");
    driver::<zkgroth16::Bn254Driver>(&mut c, "bn254");
    driver::<zknova::GrumpkinDriver>(&mut c, "grumpkin");
    c.run()
}
