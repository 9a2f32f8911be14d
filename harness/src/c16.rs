//! C16: exponentiation.

use crate::{arith, nd, spec::*};
use ethnum::{I256, U256};

/// base^exp modulo 2^256, and whether the magnitude reaches 2^256.
fn upow(b: U256, e: u32) -> (U256, bool) {
    // right to left would square past the end; left to right does not
    let mut acc = mku(0, 1);
    let mut over = false;
    let mut started = false;
    for i in (0..32).rev() {
        if started {
            let (p, o) = arith::umul(acc, acc);
            acc = p;
            over |= o;
        }
        if e >> i & 1 == 1 {
            started = true;
            let (p, o) = arith::umul(acc, b);
            acc = p;
            over |= o;
        }
    }
    (acc, over)
}
fn ipow(b: I256, e: u32) -> (I256, bool, bool) {
    let m = X::i(b);
    let neg = m.is_neg() && e % 2 == 1;
    let (p, over) = upow(m.abs().wu(), e);
    let v = X::u(p);
    let v = if neg { v.neg() } else { v };
    // modulo 2^256 the sign commutes
    (v.wi(), over || !v.fits_i(), neg)
}
/// A base and an exponent; often with a power near the bounds.
fn args() -> ((u128, u128), u32) {
    let k = nd::below(8);
    if k < 5 {
        // magnitude m = 2^(256/e) or so, small m for big e
        let e = match nd::below(4) {
            0 => nd::below(4),
            1 => nd::below(300),
            2 => 1 << nd::below(9),
            _ => nd::below(60),
        };
        let b = 256 / e.max(1);
        let m = match nd::below(4) {
            0 => 1u128.checked_shl(b).unwrap_or(0).wrapping_add(nd::below(5) as u128).wrapping_sub(2),
            1 => nd::below(20) as u128,
            2 => nd::u128() & (1u128.checked_shl(b + 1).unwrap_or(0).wrapping_sub(1)),
            _ => nd::u128() & (1u128.checked_shl(b).unwrap_or(0).wrapping_sub(1)),
        };
        let (h, l) = if k == 4 { (m, 0) } else { (0, m) };
        let v = X { top: 0, hi: h, lo: l };
        let v = if nd::bool() { v.neg() } else { v };
        ((v.hi, v.lo), e)
    } else {
        let v = nd::u256();
        (uw(v), nd::u32())
    }
}

harnesses! {
    fn c16_u() {
        let ((h, l), e) = args();
        let b = mku(h, l);
        let (p, o) = upow(b, e);
        assert!(ueq(b.wrapping_pow(e), p), "wrapping_pow");
        let (q, f) = b.overflowing_pow(e);
        assert!(ueq(q, p) && f == o, "overflowing_pow");
        assert!(oueq(b.checked_pow(e), if o { None } else { Some(p) }), "checked_pow");
        assert!(ueq(b.saturating_pow(e), if o { UMAX } else { p }), "saturating_pow");
        if !o || !cfg!(debug_assertions) {
            assert!(ueq(b.pow(e), p), "pow");
        }
    }
    fn c16_i() {
        let ((h, l), e) = args();
        let b = mki(h, l);
        let (p, o, neg) = ipow(b, e);
        assert!(ieq(b.wrapping_pow(e), p), "wrapping_pow");
        let (q, f) = b.overflowing_pow(e);
        assert!(ieq(q, p) && f == o, "overflowing_pow");
        assert!(oieq(b.checked_pow(e), if o { None } else { Some(p) }), "checked_pow");
        assert!(ieq(b.saturating_pow(e), if !o { p } else if neg { IMIN } else { IMAX }), "saturating_pow");
        if !o || !cfg!(debug_assertions) {
            assert!(ieq(b.pow(e), p), "pow");
        }
    }
}
panic_harnesses! {
    fn c16_panic_u_pow() {
        let ((h, l), e) = args();
        let b = mku(h, l);
        nd::assume(upow(b, e).1);
        nd::must_panic(|| b.pow(e));
    }
    fn c16_panic_i_pow() {
        let ((h, l), e) = args();
        let b = mki(h, l);
        nd::assume(ipow(b, e).1);
        nd::must_panic(|| b.pow(e));
    }
}
