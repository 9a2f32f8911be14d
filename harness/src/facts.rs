//! The facts of integer arithmetic that the Kani proofs assume of products and
//! quotients, as functions that decide them.  On every run machinery/verus.py
//! extracts this file's functions and Verus proves (verus/facts.rs) that each
//! returns true of the mathematical product and quotient, and that
//! `mul128`/`umul` compute the product.  Only words, so that Kani and Verus
//! read the same text.

use ethnum::U256;

/// The product of two words.
pub fn mul128(a: u128, b: u128) -> (u128, u128) {
    let m: u128 = 0xFFFF_FFFF_FFFF_FFFF;
    let a1 = a >> 64u32;
    let a0 = a & m;
    let b1 = b >> 64u32;
    let b0 = b & m;
    let p00 = a0 * b0;
    let p01 = a0 * b1;
    let p10 = a1 * b0;
    let p11 = a1 * b1;
    let mid = (p00 >> 64u32) + (p01 & m) + (p10 & m);
    let lo = (p00 & m) | (mid << 64u32);
    let hi = p11 + (p01 >> 64u32) + (p10 >> 64u32) + (mid >> 64u32);
    (hi, lo)
}

/// The product modulo 2^256, and whether it exceeds that.
pub fn umul(a: U256, b: U256) -> (U256, bool) {
    let p = mul128(a.0[0], b.0[0]);
    let h1 = a.0[1].overflowing_mul(b.0[0]);
    let h2 = a.0[0].overflowing_mul(b.0[1]);
    let s = h1.0.overflowing_add(h2.0);
    let h = p.0.overflowing_add(s.0);
    (U256([p.1, h.0]), h1.1 || h2.1 || s.1 || h.1 || (a.0[1] != 0 && b.0[1] != 0))
}

pub fn ult(a: U256, b: U256) -> bool {
    a.0[1] < b.0[1] || (a.0[1] == b.0[1] && a.0[0] < b.0[0])
}
pub fn same(a: U256, b: U256) -> bool {
    a.0[0] == b.0[0] && a.0[1] == b.0[1]
}
pub fn is_word(a: U256, w: u128) -> bool {
    a.0[1] == 0 && a.0[0] == w
}
/// a == 2^255
pub fn is_top(a: U256) -> bool {
    a.0[1] == 0x8000_0000_0000_0000_0000_0000_0000_0000 && a.0[0] == 0
}
pub fn sign(a: U256) -> bool {
    a.0[1] >= 0x8000_0000_0000_0000_0000_0000_0000_0000
}
/// -a modulo 2^256
pub fn negw(a: U256) -> U256 {
    let l = (!a.0[0]).overflowing_add(1);
    let h = (!a.0[1]).overflowing_add(if l.1 { 1 } else { 0 });
    U256([l.0, h.0])
}
/// The magnitude of the two's complement number.
pub fn mag(a: U256) -> U256 {
    let n = negw(a);
    let r = if sign(a) { n } else { a };
    r
}
/// a*b modulo 2^256, from the product of the magnitudes.
pub fn from_mag(a: U256, b: U256, m: U256) -> U256 {
    let n = negw(m);
    let r = if sign(a) != sign(b) { n } else { m };
    r
}
/// The product of the magnitudes modulo 2^256, from a*b.
pub fn to_mag(a: U256, b: U256, lo: U256) -> U256 {
    let n = negw(lo);
    let r = if sign(a) != sign(b) { n } else { lo };
    r
}

/// lo is a*b modulo 2^256
pub fn lo_facts(a: U256, b: U256, lo: U256) -> bool {
    (!(is_word(a, 0) || is_word(b, 0)) || is_word(lo, 0))
        && (!is_word(a, 1) || same(lo, b))
        && (!is_word(b, 1) || same(lo, a))
        && (!is_top(a) || (if b.0[0] % 2 == 1 { is_top(lo) } else { is_word(lo, 0) }))
        && (!is_top(b) || (if a.0[0] % 2 == 1 { is_top(lo) } else { is_word(lo, 0) }))
        && ((lo.0[0] % 2 == 1) == (a.0[0] % 2 == 1 && b.0[0] % 2 == 1))
}

/// ovf: a*b >= 2^256
pub fn ovf_facts(a: U256, b: U256, ovf: bool) -> bool {
    if is_word(a, 0) || is_word(a, 1) || is_word(b, 0) || is_word(b, 1) {
        !ovf
    } else if a.0[1] != 0 && b.0[1] != 0 {
        ovf
    } else if a.0[1] == 0 && b.0[1] == 0 {
        !ovf
    } else if sign(a) || sign(b) {
        ovf
    } else {
        true
    }
}

/// q and r are n/d and n mod d
pub fn div_facts(n: U256, d: U256, q: U256, r: U256) -> bool {
    let c: u128 = if n.0[1] % 2 == 1 { 0x8000_0000_0000_0000_0000_0000_0000_0000 } else { 0 };
    let half = U256([n.0[0] / 2 + c, n.0[1] / 2]);
    ult(r, d)
        && !ult(n, q)
        && !ult(n, r)
        && (if ult(n, d) { is_word(q, 0) && same(r, n) } else { !is_word(q, 0) })
        && (if is_word(d, 1) { same(q, n) && is_word(r, 0) } else { !ult(half, q) })
}

/// a*b > n exactly when a > n/b; (lo, ovf) is a*b, q is n/d.
pub fn link_facts(a: U256, b: U256, lo: U256, ovf: bool, n: U256, d: U256, q: U256) -> bool {
    let gt = ovf || ult(n, lo);
    (!same(b, d) || ult(q, a) == gt) && (!same(a, d) || ult(q, b) == gt)
}
