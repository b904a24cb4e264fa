//! Scenarios for the circuit gadgets: a gadget applied to chosen inputs, together with what its result must be.
//! `shape` decides the structure (which operands are constants, widths, bounds), `vals` the values.
use crate::big::*;
use crate::circ::*;
use crate::curve::*;
use crate::mon::{below, Fail, R};
use crate::pts::*;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use rand_chacha::ChaCha20Rng;
use rand_core::RngCore;
use std::collections::BTreeMap;
use zkstd::circuit::prelude::*;
use zkstd::common::*;

pub enum Out<F: PrimeField> {
    Val(&'static str, FieldAssignment<F>, BigUint),
    Bit(&'static str, BinaryAssignment, bool),
    /// any value, but 0 or 1
    Boolean(BinaryAssignment),
    Point(&'static str, PointAssignment<F>, Pt<BigUint>),
}
pub struct Built<C: CircuitDriver> {
    pub name: &'static str,
    pub desc: String,
    pub cs: R1cs<C>,
    /// wires that are inputs of the gadget (index in z = x ++ w is settled when the system is complete)
    pub fixed_x: Vec<usize>,
    pub fixed_w: Vec<usize>,
    pub outs: Vec<Out<C::Scalar>>,
    /// assignments of bits an adversary would like: other bit strings denoting the same field element
    pub attacks: Vec<Vec<(BinaryAssignment, u8)>>,
    /// whether the stated relation is true of the inputs
    pub holds: bool,
}
pub const NAMES: &[&str] = &[
    "mul", "add", "linear", "select", "is-eq", "is-neq", "not", "and", "to-bits", "enforce-eq-bits", "range-check", "range-check-bits",
    "conditional-enforce-equal", "enforce-eq", "inputize", "private-bit", "point-add", "point-double", "point-select", "point-select-identity",
    "point-descale", "point-assert-equal", "scalar-point", "compound", "bits-roundtrip",
];
pub const SMALL: &[&str] = &[
    "mul", "add", "linear", "select", "is-eq", "is-neq", "not", "and", "conditional-enforce-equal", "enforce-eq", "inputize", "private-bit",
    "point-add", "point-double", "point-select", "point-select-identity", "point-descale", "point-assert-equal", "compound", "range-check-bits",
];
pub const LARGE: &[&str] = &["to-bits", "enforce-eq-bits", "range-check", "bits-roundtrip"];

pub struct B<C: CircuitDriver> {
    cs: R1cs<C>,
    fx: Vec<usize>,
    fw: Vec<usize>,
    desc: String,
}
impl<C: CircuitDriver> B<C>
where
    C::Scalar: KField,
{
    fn f(v: &BigUint) -> C::Scalar {
        C::Scalar::of(v)
    }
    /// run an allocation whose wires are inputs
    fn input<T>(&mut self, f: impl FnOnce(&mut R1cs<C>) -> T) -> T {
        let (x0, w0) = (self.cs.l(), self.cs.m_l_1());
        let t = f(&mut self.cs);
        self.fx.extend(x0..self.cs.l());
        self.fw.extend(w0..self.cs.m_l_1());
        t
    }
    fn val(&mut self, v: &BigUint, kind: u64) -> FieldAssignment<C::Scalar> {
        self.desc += &format!(" {}:{v:x}", ["x", "w", "c"][kind as usize]);
        let k = Self::f(v);
        match kind {
            0 => self.input(|cs| FieldAssignment::instance(cs, k)),
            1 => self.input(|cs| FieldAssignment::witness(cs, k)),
            _ => FieldAssignment::constant(&k),
        }
    }
    fn bit(&mut self, b: u8, kind: u64) -> BinaryAssignment {
        self.desc += &format!(" bit{}:{b}", ["x", "w"][kind as usize]);
        match kind {
            0 => self.input(|cs| BinaryAssignment::instance(cs, b)),
            _ => self.input(|cs| BinaryAssignment::witness(cs, b)),
        }
    }
}
/// operand kinds: mostly wires, sometimes constants
fn kind(shape: &mut ChaCha20Rng) -> u64 {
    match below(shape, 5) {
        0 | 1 => 0,
        2 | 3 => 1,
        _ => 2,
    }
}
fn bits_be(v: &BigUint, n: usize) -> Vec<u8> {
    (0..n).rev().map(|i| v.bit(i as u64) as u8).collect()
}
/// values that are equal, off by one, related, or unrelated
fn related(vals: &mut ChaCha20Rng, o: &Fp, a: &BigUint) -> BigUint {
    match below(vals, 6) {
        0 | 1 => a.clone(),
        2 => o.add(a, &BigUint::one()),
        3 => o.neg(a),
        4 => o.sub(a, &BigUint::one()),
        _ => gen_val(vals, &o.p),
    }
}

pub fn build<C, K>(name: &'static str, shape: &mut ChaCha20Rng, vals: &mut ChaCha20Rng) -> Built<C>
where
    C: CircuitDriver,
    C::Scalar: KField,
    K: KCurve<O = Fp, B = C::Scalar>,
{
    let p = C::Scalar::modulus();
    let o = Fp::new(p.clone());
    let crv = K::oracle();
    let mut b = B::<C> { cs: R1cs::default(), fx: vec![0], fw: vec![], desc: name.to_string() };
    let mut outs: Vec<Out<C::Scalar>> = vec![];
    let mut holds = true;
    let mut attacks = vec![];
    // some unrelated wires first, so that indices are not always the same
    for _ in 0..below(shape, 3) {
        let v = gen_val(vals, &p);
        b.val(&v, 0);
    }
    for _ in 0..below(shape, 3) {
        let v = gen_val(vals, &p);
        b.val(&v, 1);
    }
    b.desc.push_str(" |");
    // constants are part of the structure
    let gv = |k: u64, shape: &mut ChaCha20Rng, vals: &mut ChaCha20Rng| if k == 2 { gen_val(shape, &p) } else { gen_val(vals, &p) };
    let pair = |ks: (u64, u64), shape: &mut ChaCha20Rng, vals: &mut ChaCha20Rng| -> (BigUint, BigUint) {
        match ks {
            (2, 2) => {
                let y = gen_val(shape, &p);
                (related(shape, &o, &y), y)
            }
            (2, _) => {
                let x = gen_val(shape, &p);
                let y = related(vals, &o, &x);
                (x, y)
            }
            (_, 2) => {
                let y = gen_val(shape, &p);
                (related(vals, &o, &y), y)
            }
            _ => {
                let x = gen_val(vals, &p);
                let y = related(vals, &o, &x);
                (x, y)
            }
        }
    };
    let point = |vals: &mut ChaCha20Rng| -> Pt<BigUint> {
        match below(vals, 8) {
            0 => None,
            1 => K::generator(),
            _ => {
                let s = BigUint::from(vals.next_u64());
                crv.mul(&K::generator(), &s)
            }
        }
    };
    // a point operand: affine instance, witness, or a projective result of the gadgets themselves
    let operand = |b: &mut B<C>, pt: &Pt<BigUint>, how: u64| -> PointAssignment<C::Scalar> {
        b.desc += &format!(" P{how}:{pt:x?}");
        let a = K::aff(pt);
        match how {
            0 => b.input(|cs| PointAssignment::instance(cs, a)),
            1 => {
                let (x, y) = match pt {
                    None => (C::Scalar::zero(), C::Scalar::one()),
                    Some((x, y)) => (C::Scalar::of(x), C::Scalar::of(y)),
                };
                b.input(|cs| PointAssignment::witness(cs, x, y, pt.is_none()))
            }
            2 => {
                // P = (P - G) + G inside the circuit: z is not one
                let d = K::aff(&crv.add(pt, &crv.neg(&K::generator())));
                let g = K::aff(&K::generator());
                let d = b.input(|cs| PointAssignment::instance(cs, d));
                let g = b.input(|cs| PointAssignment::instance(cs, g));
                d.add(&g, &mut b.cs)
            }
            _ => PointAssignment::identity(),
        }
    };
    match name {
        "mul" => {
            let ks = (kind(shape), kind(shape));
            let (x, y) = (gv(ks.0, shape, vals), gv(ks.1, shape, vals));
            let (xa, ya) = (b.val(&x, ks.0), b.val(&y, ks.1));
            let m = FieldAssignment::mul(&mut b.cs, &xa, &ya);
            let s = FieldAssignment::square(&mut b.cs, &m);
            let e = o.mul(&x, &y);
            outs.push(Out::Val("product", m, e.clone()));
            outs.push(Out::Val("square", s, o.mul(&e, &e)));
        }
        "add" => {
            let ks = (kind(shape), kind(shape));
            let (x, y) = (gv(ks.0, shape, vals), gv(ks.1, shape, vals));
            let (xa, ya) = (b.val(&x, ks.0), b.val(&y, ks.1));
            let s = FieldAssignment::add(&mut b.cs, &xa, &ya);
            outs.push(Out::Val("sum", s, o.add(&x, &y)));
        }
        "linear" => {
            let ks = (kind(shape), kind(shape));
            let (x, y) = (gv(ks.0, shape, vals), gv(ks.1, shape, vals));
            let (xa, ya) = (b.val(&x, ks.0), b.val(&y, ks.1));
            outs.push(Out::Val("+", &xa + &ya, o.add(&x, &y)));
            outs.push(Out::Val("-", &xa - &ya, o.sub(&x, &y)));
            outs.push(Out::Val("neg", -&xa, o.neg(&x)));
            outs.push(Out::Val("x-x", &xa - &xa, BigUint::zero()));
            // products of expressions, including the ones that vanish identically
            let z = &xa - &xa;
            let m = FieldAssignment::mul(&mut b.cs, &z, &ya);
            outs.push(Out::Val("(x-x)*y", m, BigUint::zero()));
            let s = &xa + &ya;
            let m = FieldAssignment::mul(&mut b.cs, &s, &s);
            outs.push(Out::Val("(x+y)^2", m, o.mul(&o.add(&x, &y), &o.add(&x, &y))));
        }
        "select" => {
            let ks = (kind(shape), kind(shape), below(shape, 2));
            let (x, y) = (gv(ks.0, shape, vals), gv(ks.1, shape, vals));
            let bit = below(vals, 2) as u8;
            let (xa, ya) = (b.val(&x, ks.0), b.val(&y, ks.1));
            let ba = b.bit(bit, ks.2);
            let s = FieldAssignment::conditional_select(&mut b.cs, &xa, &ya, &ba);
            outs.push(Out::Val("selected", s, if bit == 1 { x } else { y }));
        }
        "is-eq" | "is-neq" => {
            let ks = (kind(shape), kind(shape));
            let (x, y) = pair(ks, shape, vals);
            let zero_const = below(shape, 4) == 0;
            let xa = b.val(&x, ks.0);
            let (ya, y) = if zero_const { (FieldAssignment::constant(&C::Scalar::zero()), BigUint::zero()) } else { (b.val(&y, ks.1), y) };
            if name == "is-eq" {
                let r = FieldAssignment::is_eq(&mut b.cs, &xa, &ya);
                outs.push(Out::Bit("is_eq", r, x == y));
            } else {
                let r = FieldAssignment::is_neq(&mut b.cs, &xa, &ya);
                outs.push(Out::Bit("is_neq", r, x != y));
            }
        }
        "not" => {
            let bit = below(vals, 2) as u8;
            let k = below(shape, 2);
            let a = b.bit(bit, k);
            let r = BinaryAssignment::not(&mut b.cs, &a);
            let rr = BinaryAssignment::not(&mut b.cs, &r);
            outs.push(Out::Bit("not", r, bit == 0));
            outs.push(Out::Bit("not not", rr, bit == 1));
        }
        "and" => {
            let (x, y) = (below(vals, 2) as u8, below(vals, 2) as u8);
            let k = (below(shape, 2), below(shape, 2));
            let (xa, ya) = (b.bit(x, k.0), b.bit(y, k.1));
            let r = BinaryAssignment::and(&mut b.cs, &xa, &ya);
            outs.push(Out::Bit("and", r, x == 1 && y == 1));
        }
        "to-bits" => {
            let ks = kind(shape);
            let x = if below(vals, 5) == 0 && ks != 2 { BigUint::from(below(vals, 2)) } else { gv(ks, shape, vals) };
            let n = match below(shape, 5) {
                0 => 256,
                1 => 254 + below(shape, 3) as usize,
                2 => 128,
                _ => 1 + below(shape, 256) as usize,
            };
            let xa = b.val(&x, ks);
            b.desc += &format!(" n={n}");
            let bits = FieldAssignment::to_bits(&mut b.cs, &xa, n);
            if bits.len() != n {
                b.desc += &format!(" returned {} bits", bits.len());
                holds = false;
            }
            let mut alias = &x + &p;
            while alias.bits() <= n as u64 {
                attacks.push(bits.iter().cloned().zip(bits_be(&alias, n)).collect());
                alias += &p;
            }
            for (i, (got, want)) in bits.into_iter().zip(bits_be(&x, n)).enumerate() {
                let _ = i;
                outs.push(Out::Bit("bit", got, want == 1));
            }
        }
        "enforce-eq-bits" => {
            let n = 1 + below(shape, 254) as usize;
            let ks = below(shape, 2);
            let v = rand_big(vals, n as u64) % &p;
            let v = match below(vals, 4) {
                0 => BigUint::zero(),
                1 => (pow2(n as u64) - 1u32) % &p,
                _ => v,
            };
            let x = match below(vals, 4) {
                0 => o.add(&v, &pow2(below(vals, n as u64))),
                1 => o.add(&v, &BigUint::one()),
                _ => v.clone(),
            };
            let xa = b.val(&x, ks);
            let k = below(shape, 2);
            let bits: Vec<BinaryAssignment> = bits_be(&v, n).into_iter().map(|t| b.bit(t, k)).collect();
            FieldAssignment::enforce_eq_bits(&mut b.cs, &xa, &bits);
            holds = x == v % &p;
        }
        "range-check" | "range-check-bits" => {
            let c = if name == "range-check" {
                match below(shape, 6) {
                    0 => BigUint::from(below(shape, 9)),
                    1 => &p - 1u32,
                    2 => pow2(below(shape, 253)),
                    3 => pow2(1 + below(shape, 253)) - 1u32,
                    _ => {
                        let k = 1 + below(shape, 254);
                        rand_big(shape, k) % &p
                    }
                }
            } else {
                pow2(1 + below(shape, 253)) - 1u32
            };
            let n = if name == "range-check" && below(shape, 3) == 0 { 256 } else { (c.bits() + below(shape, 4)).min(256).max(1) as usize };
            let n = if below(shape, 8) == 0 { 1 + below(shape, 256) as usize } else { n };
            // values around the bound, and ones that share a prefix with it
            let v = match below(vals, 7) {
                0 => c.clone(),
                1 => &c + 1u32,
                2 => if c.is_zero() { c.clone() } else { &c - 1u32 },
                3 => &c ^ pow2(below(vals, n as u64)),
                4 => {
                    let k = below(vals, n as u64);
                    ((&c >> k) << k) | rand_big(vals, k + 1)
                }
                5 => pow2(n as u64) - 1u32,
                _ => rand_big(vals, n as u64),
            } % pow2(n as u64);
            let k = below(shape, 2);
            let bits: Vec<BinaryAssignment> = bits_be(&v, n).into_iter().map(|t| b.bit(t, k)).collect();
            b.desc += &format!(" n={n} bound={c:x} value={v:x}");
            if name == "range-check" {
                FieldAssignment::range_check(&mut b.cs, &bits, C::Scalar::of(&c));
            } else {
                FieldAssignment::range_check_bits(&mut b.cs, &bits, c.bits());
            }
            holds = v <= c;
        }
        "conditional-enforce-equal" => {
            let bit = below(vals, 2) as u8;
            let ks = (kind(shape), kind(shape), below(shape, 2));
            let (x, y) = pair((ks.0, ks.1), shape, vals);
            if below(shape, 3) == 0 {
                let (u, v) = (below(vals, 2) as u8, below(vals, 2) as u8);
                let (ua, va) = (b.bit(u, ks.2), b.bit(v, ks.2));
                let ba = b.bit(bit, ks.2);
                BinaryAssignment::conditional_enforce_equal(&mut b.cs, &ua, &va, &ba);
                holds = bit == 0 || u == v;
            } else {
                let (xa, ya) = (b.val(&x, ks.0), b.val(&y, ks.1));
                let ba = b.bit(bit, ks.2);
                FieldAssignment::conditional_enforce_equal(&mut b.cs, &xa, &ya, &ba);
                holds = bit == 0 || x == y;
            }
        }
        "enforce-eq" => {
            let ks = (kind(shape), kind(shape));
            let (x, y) = pair(ks, shape, vals);
            let xa = b.val(&x, ks.0);
            let ya = b.val(&y, ks.1);
            FieldAssignment::enforce_eq(&mut b.cs, &xa, &ya);
            holds = x == y;
        }
        "inputize" => {
            let ks = (kind(shape), kind(shape));
            let (x, y) = (gv(ks.0, shape, vals), gv(ks.1, shape, vals));
            let xa = b.val(&x, ks.0);
            let ya = b.val(&y, ks.1);
            let e = if below(shape, 2) == 0 { (&xa + &ya, o.add(&x, &y)) } else { (FieldAssignment::mul(&mut b.cs, &xa, &ya), o.mul(&x, &y)) };
            let l = b.cs.l();
            let pubw = FieldAssignment::inputize(&mut b.cs, e.0);
            if b.cs.l() != l + 1 || b.cs.x()[l].big() != e.1 {
                holds = false;
                b.desc += " (public input not appended)";
            }
            outs.push(Out::Val("public input", pubw, e.1));
        }
        "private-bit" => {
            let bits: Vec<u8> = (0..1 + below(shape, 4)).map(|_| below(vals, 2) as u8).collect();
            for t in bits {
                let a = BinaryAssignment::witness(&mut b.cs, t);
                outs.push(Out::Boolean(a));
            }
        }
        "point-add" => {
            let x = point(vals);
            let y = match below(vals, 5) {
                0 => x.clone(),
                1 => crv.neg(&x),
                2 => None,
                _ => point(vals),
            };
            let h = (below(shape, 3), below(shape, 3));
            let (xa, ya) = (operand(&mut b, &x, h.0), operand(&mut b, &y, h.1));
            let r = xa.add(&ya, &mut b.cs);
            outs.push(Out::Point("sum", r, crv.add(&x, &y)));
        }
        "point-double" => {
            let x = point(vals);
            let h = below(shape, 3);
            let xa = operand(&mut b, &x, h);
            let r = xa.double(&mut b.cs);
            outs.push(Out::Point("double", r, crv.add(&x, &x)));
        }
        "point-select" => {
            let (x, y) = (point(vals), point(vals));
            let h = (below(shape, 4), below(shape, 4), below(shape, 2));
            let bit = below(vals, 2) as u8;
            let x = if h.0 == 3 { None } else { x };
            let y = if h.1 == 3 { None } else { y };
            let (xa, ya) = (operand(&mut b, &x, h.0), operand(&mut b, &y, h.1));
            let ba = b.bit(bit, h.2);
            let r = PointAssignment::conditional_select(&mut b.cs, &xa, &ya, &ba);
            outs.push(Out::Point("selected", r, if bit == 1 { x } else { y }));
        }
        "point-select-identity" => {
            let x = point(vals);
            let h = (below(shape, 3), below(shape, 2));
            let bit = below(vals, 2) as u8;
            let xa = operand(&mut b, &x, h.0);
            let ba = b.bit(bit, h.1);
            let r = xa.select_identity(&mut b.cs, &ba);
            outs.push(Out::Point("point or identity", r, if bit == 1 { x } else { None }));
        }
        "point-descale" => {
            let x = point(vals);
            let h = below(shape, 3);
            let xa = operand(&mut b, &x, h);
            let r = xa.descale(&mut b.cs);
            // descaled: the coordinates themselves are those of the affine point
            let (ex, ey, ez) = match &x {
                None => (BigUint::zero(), BigUint::one(), BigUint::zero()),
                Some((x, y)) => (x.clone(), y.clone(), BigUint::one()),
            };
            outs.push(Out::Val("descaled x", r.get_x(), ex));
            outs.push(Out::Val("descaled y", r.get_y(), ey));
            outs.push(Out::Val("descaled z", r.get_z(), ez));
            outs.push(Out::Point("descaled", r, x));
        }
        "point-assert-equal" => {
            // the public point is part of the structure
            let s = BigUint::from(shape.next_u64());
            let y: Pt<BigUint> = match below(shape, 5) {
                0 => None,
                _ => crv.mul(&K::generator(), &s),
            };
            let x = match below(vals, 5) {
                0 => crv.neg(&y),
                1 => point(vals),
                2 => y.as_ref().map(|(x, y)| (o.mul(x, &cube_root::<K>()), y.clone())),
                _ => y.clone(),
            };
            let h = below(shape, 3);
            let z = gen_rand(shape, &p) + 1u32;
            let xa = operand(&mut b, &x, h);
            b.desc += &format!(" public {y:x?}");
            xa.assert_equal_public_point(&mut b.cs, K::proj(&y, &(z % &p)));
            holds = x == y;
        }
        "scalar-point" => {
            let x = point(vals);
            let h = below(shape, 3);
            let k = kind(shape);
            let s = gv(k, shape, vals);
            let xa = operand(&mut b, &x, h);
            let sa = b.val(&s, k);
            let r = xa.scalar_point(&mut b.cs, &sa);
            outs.push(Out::Point("scalar multiple", r, crv.mul(&x, &s)));
        }
        "compound" => {
            // y = x == a ? P : Q, doubled and descaled; c = select(and(eq, not(bit)), u, v)^2
            let h = (below(shape, 2), below(shape, 2), kind(shape), kind(shape), below(shape, 2));
            let (x, a) = pair((h.0, h.2), shape, vals);
            let (pp, qq) = (point(vals), point(vals));
            let bit = below(vals, 2) as u8;
            let (u, v) = (gv(h.3, shape, vals), gv(1, shape, vals));
            let xa = b.val(&x, h.0);
            let aa = b.val(&a, h.2);
            let (pa, qa) = (operand(&mut b, &pp, h.1), operand(&mut b, &qq, h.1));
            let (ua, va) = (b.val(&u, h.3), b.val(&v, 1));
            let ba = b.bit(bit, h.4);
            let eq = FieldAssignment::is_eq(&mut b.cs, &xa, &aa);
            let sel = PointAssignment::conditional_select(&mut b.cs, &pa, &qa, &eq);
            let d = sel.double(&mut b.cs).descale(&mut b.cs);
            let nb = BinaryAssignment::not(&mut b.cs, &ba);
            let both = BinaryAssignment::and(&mut b.cs, &eq, &nb);
            let s = FieldAssignment::conditional_select(&mut b.cs, &ua, &va, &both);
            let sq = FieldAssignment::square(&mut b.cs, &s);
            let e = x == a;
            let sp = if e { pp } else { qq };
            outs.push(Out::Point("doubled selection", d, crv.add(&sp, &sp)));
            let w = if e && bit == 0 { u } else { v };
            outs.push(Out::Val("selected square", sq, o.mul(&w, &w)));
            outs.push(Out::Bit("equality", eq, e));
        }
        "bits-roundtrip" => {
            // x < bound through its own bits
            let c = match below(shape, 3) {
                0 => &p - 1u32 - BigUint::from(below(shape, 5)),
                1 => pow2(1 + below(shape, 252)),
                _ => rand_big(shape, 200),
            };
            let x = match below(vals, 4) {
                0 => c.clone(),
                1 => o.add(&c, &BigUint::one()),
                2 => rand_big(vals, c.bits()) % &p,
                _ => gen_val(vals, &p),
            };
            let k = below(shape, 2);
            let xa = b.val(&x, k);
            b.desc += &format!(" bound={c:x}");
            let bits = FieldAssignment::to_bits(&mut b.cs, &xa, 256);
            FieldAssignment::range_check(&mut b.cs, &bits, C::Scalar::of(&c));
            FieldAssignment::enforce_eq_bits(&mut b.cs, &xa, &bits);
            holds = x <= c;
        }
        n => panic!("no scenario {n}"),
    }
    Built { name, desc: b.desc, cs: b.cs, fixed_x: b.fx, fixed_w: b.fw, outs, attacks, holds }
}

impl<C: CircuitDriver> Built<C>
where
    C::Scalar: KField,
{
    /// index in z of a single-wire bit
    pub fn index(&self, b: &BinaryAssignment) -> usize {
        let e = b.inner().encode();
        let v = u64::from(<parity_scale_codec::Compact<u64> as parity_scale_codec::Decode>::decode(&mut &e[1..]).unwrap());
        if e[0] == 0 { v as usize } else { v as usize + self.cs.l() }
    }
    pub fn plans(&self) -> Vec<BTreeMap<usize, C::Scalar>> {
        self.attacks.iter().map(|a| a.iter().map(|(b, v)| (self.index(b), C::Scalar::from(*v as u64))).collect()).collect()
    }
    pub fn fixed(&self, z: &[C::Scalar]) -> BTreeMap<usize, C::Scalar> {
        let nx = self.cs.l();
        self.fixed_x.iter().copied().chain(self.fixed_w.iter().map(|w| nx + w)).map(|i| (i, z[i])).collect()
    }
    /// are all results what they must be under the assignment z?
    pub fn judge(&self, sys: &System<C::Scalar>, z: &[C::Scalar]) -> R {
        let xw = sys.split(z);
        let p = C::Scalar::modulus();
        let o = Fp::new(p);
        let bad = |what: &str, got: String, want: String| Err(Fail { tag: String::new(), detail: format!("{}: {what} is {got}, must be {want}", self.desc) });
        for out in &self.outs {
            match out {
                Out::Val(n, a, w) => {
                    let g = eval_in(a, &xw).big();
                    if &g != w {
                        return bad(n, format!("{g:x}"), format!("{w:x}"));
                    }
                }
                Out::Bit(n, a, w) => {
                    let g = eval_in(&FieldAssignment::from(a), &xw).big();
                    if g != BigUint::from(*w as u32) {
                        return bad(n, format!("{g:x}"), format!("{w}"));
                    }
                }
                Out::Boolean(a) => {
                    let g = eval_in(&FieldAssignment::from(a), &xw).big();
                    if g > BigUint::one() {
                        return bad("a private bit", format!("{g:x}"), "0 or 1".into());
                    }
                }
                Out::Point(n, a, w) => {
                    let (x, y, zz) = (eval_in(&a.get_x(), &xw).big(), eval_in(&a.get_y(), &xw).big(), eval_in(&a.get_z(), &xw).big());
                    let got: Option<Pt<BigUint>> = match o.inv(&zz) {
                        Some(i) => Some(Some((o.mul(&x, &i), o.mul(&y, &i)))),
                        None if x.is_zero() && !y.is_zero() => Some(None),
                        None => None,
                    };
                    if got.as_ref() != Some(w) {
                        return bad(n, format!("({x:x}, {y:x}, {zz:x})"), format!("{w:x?}"));
                    }
                }
            }
        }
        Ok(())
    }
}
