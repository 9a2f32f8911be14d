//! C03: unsigned division and remainder.

use crate::{any_full, any_prim, any_prim_l, arith, nd, spec::*};
use ethnum::U256;

/// A quotient by the operator, in any of its forms.
fn pick_div(a: U256, b: U256) -> U256 {
    match nd::below(6) {
        0 => &a / &b,
        1 => a / &b,
        2 => &a / b,
        3 => a / b,
        4 => { let mut t = a; t /= b; t }
        _ => { let mut t = a; t /= &b; t }
    }
}
fn pick_rem(a: U256, b: U256) -> U256 {
    match nd::below(6) {
        0 => &a % &b,
        1 => a % &b,
        2 => &a % b,
        3 => a % b,
        4 => { let mut t = a; t %= b; t }
        _ => { let mut t = a; t %= &b; t }
    }
}
fn pick_div_p(a: U256, p: u128) -> U256 {
    match nd::below(6) {
        0 => &a / &p,
        1 => a / &p,
        2 => &a / p,
        3 => a / p,
        4 => { let mut t = a; t /= p; t }
        _ => { let mut t = a; t /= &p; t }
    }
}
fn pick_rem_p(a: U256, p: u128) -> U256 {
    match nd::below(6) {
        0 => &a % &p,
        1 => a % &p,
        2 => &a % p,
        3 => a % p,
        4 => { let mut t = a; t %= p; t }
        _ => { let mut t = a; t %= &p; t }
    }
}
fn pick_div_l(p: u128, b: U256) -> U256 {
    match nd::below(4) {
        0 => &p / &b,
        1 => p / &b,
        2 => &p / b,
        _ => p / b,
    }
}
fn pick_rem_l(p: u128, b: U256) -> U256 {
    match nd::below(4) {
        0 => &p % &b,
        1 => p % &b,
        2 => &p % b,
        _ => p % b,
    }
}
/// The quotient and remainder by each group of methods.
fn basic(a: U256, b: U256, q: U256, r: U256) {
    match nd::below(6) {
        0 => assert!(ueq(a.wrapping_div(b), q)),
        1 => assert!(ueq(a.wrapping_rem(b), r)),
        2 => { let (x, o) = a.overflowing_div(b); assert!(ueq(x, q) && !o) }
        3 => { let (x, o) = a.overflowing_rem(b); assert!(ueq(x, r) && !o) }
        4 => assert!(ueq(a.saturating_div(b), q)),
        _ => assert!(oueq(a.checked_div(b), Some(q)) && oueq(a.checked_rem(b), Some(r))),
    }
}
fn euclid(a: U256, b: U256, q: U256, r: U256) {
    match nd::below(7) {
        0 => assert!(ueq(a.wrapping_div_euclid(b), q)),
        1 => assert!(ueq(a.wrapping_rem_euclid(b), r)),
        2 => { let (x, o) = a.overflowing_div_euclid(b); assert!(ueq(x, q) && !o) }
        3 => { let (x, o) = a.overflowing_rem_euclid(b); assert!(ueq(x, r) && !o) }
        4 => assert!(ueq(a.div_euclid(b), q)),
        5 => assert!(ueq(a.rem_euclid(b), r)),
        _ => assert!(oueq(a.checked_div_euclid(b), Some(q)) && oueq(a.checked_rem_euclid(b), Some(r))),
    }
}
fn pair(a: U256, b: U256) -> (U256, U256) {
    match nd::below(5) {
        0 => a.div_rem(b),
        1 => a.wrapping_div_rem(b),
        2 => { let (q, r, o) = a.overflowing_div_rem(b); assert!(!o); (q, r) }
        3 => a.saturating_div_rem(b),
        _ => a.checked_div_rem(b).unwrap(),
    }
}
fn pair_euclid(a: U256, b: U256) -> (U256, U256) {
    match nd::below(5) {
        0 => a.div_rem_euclid(b),
        1 => a.wrapping_div_rem_euclid(b),
        2 => { let (q, r, o) = a.overflowing_div_rem_euclid(b); assert!(!o); (q, r) }
        3 => a.saturating_div_rem_euclid(b),
        _ => a.checked_div_rem_euclid(b).unwrap(),
    }
}

harnesses! {
    #[kani::stub(ethnum::intrinsics::udivmod4, crate::stubs::udivmod4)]
    fn c03_op() {
        let (a, b) = nd::divpair();
        nd::assume(!ueq(b, UZERO));
        let (q, r) = arith::udiv(a, b);
        if nd::bool() {
            assert!(ueq(pick_div(a, b), q));
        } else {
            assert!(ueq(pick_rem(a, b), r));
        }
    }
    #[kani::stub(ethnum::intrinsics::udivmod4, crate::stubs::udivmod4)]
    fn c03_op_prim_r() {
        let (a, p) = nd::divpair();
        let p = uw(p).1;
        nd::assume(p != 0);
        let (q, r) = arith::udiv(a, mku(0, p));
        if nd::bool() {
            assert!(ueq(pick_div_p(a, p), q));
        } else {
            assert!(ueq(pick_rem_p(a, p), r));
        }
    }
    #[kani::stub(ethnum::intrinsics::udivmod4, crate::stubs::udivmod4)]
    fn c03_op_prim_l() {
        let (p, b) = nd::divpair();
        let p = uw(p).1;
        nd::assume(!ueq(b, UZERO));
        let (q, r) = arith::udiv(mku(0, p), b);
        if nd::bool() {
            assert!(ueq(pick_div_l(p, b), q));
        } else {
            assert!(ueq(pick_rem_l(p, b), r));
        }
    }
    #[kani::stub(ethnum::intrinsics::udivmod4, crate::stubs::udivmod4)]
    fn c03_basic() {
        let (a, b) = nd::divpair();
        nd::assume(!ueq(b, UZERO));
        let (q, r) = arith::udiv(a, b);
        basic(a, b, q, r);
    }
    #[kani::stub(ethnum::intrinsics::udivmod4, crate::stubs::udivmod4)]
    fn c03_euclid() {
        let (a, b) = nd::divpair();
        nd::assume(!ueq(b, UZERO));
        let (q, r) = arith::udiv(a, b);
        euclid(a, b, q, r);
    }
    #[kani::stub(ethnum::intrinsics::udivmod4, crate::stubs::udivmod4)]
    fn c03_pair() {
        let (a, b) = nd::divpair();
        nd::assume(!ueq(b, UZERO));
        let (q, r) = arith::udiv(a, b);
        let (x, y) = pair(a, b);
        assert!(ueq(x, q) && ueq(y, r));
    }
    #[kani::stub(ethnum::intrinsics::udivmod4, crate::stubs::udivmod4)]
    fn c03_pair_euclid() {
        let (a, b) = nd::divpair();
        nd::assume(!ueq(b, UZERO));
        let (q, r) = arith::udiv(a, b);
        let (x, y) = pair_euclid(a, b);
        assert!(ueq(x, q) && ueq(y, r));
    }
    // A zero divisor in the checked forms.
    #[kani::stub(ethnum::intrinsics::udivmod4, crate::stubs::udivmod4)]
    fn c03_checked_zero() {
        let a = nd::u256();
        assert!(a.checked_div(UZERO).is_none() && a.checked_rem(UZERO).is_none());
        assert!(a.checked_div_euclid(UZERO).is_none() && a.checked_rem_euclid(UZERO).is_none());
        assert!(a.checked_div_rem(UZERO).is_none() && a.checked_div_rem_euclid(UZERO).is_none());
    }
    // The core against the machine division, where both operands fit a word.
    fn c03_core_words() {
        let (a, b) = (nd::u64() as u8 as u128, nd::u64() as u8 as u128);
        nd::assume(b != 0);
        let (q, r) = mku(0, a).div_rem(mku(0, b));
        assert!(ueq(q, mku(0, a / b)) && ueq(r, mku(0, a % b)));
    }
}

always_panic_harnesses! {
    #[kani::stub(ethnum::intrinsics::udivmod4, crate::stubs::udivmod4)]
    fn c03_p_op() {
        let a = nd::u256();
        match nd::below(6) {
            0 => nd::must_panic(|| pick_div(a, UZERO)),
            1 => nd::must_panic(|| pick_rem(a, UZERO)),
            2 => nd::must_panic(|| pick_div_p(a, 0)),
            3 => nd::must_panic(|| pick_rem_p(a, 0)),
            4 => nd::must_panic(|| pick_div_l(uw(a).1, UZERO)),
            _ => nd::must_panic(|| pick_rem_l(uw(a).1, UZERO)),
        }
    }
    #[kani::stub(ethnum::intrinsics::udivmod4, crate::stubs::udivmod4)]
    fn c03_p_methods() {
        let a = nd::u256();
        match nd::below(16) {
            0 => nd::must_panic(|| a.wrapping_div(UZERO)),
            1 => nd::must_panic(|| a.wrapping_div_euclid(UZERO)),
            2 => nd::must_panic(|| a.div_euclid(UZERO)),
            3 => nd::must_panic(|| a.overflowing_div(UZERO)),
            4 => nd::must_panic(|| a.overflowing_div_euclid(UZERO)),
            5 => nd::must_panic(|| a.saturating_div(UZERO)),
            6 => nd::must_panic(|| a.div_rem(UZERO)),
            7 => nd::must_panic(|| a.div_rem_euclid(UZERO)),
            8 => nd::must_panic(|| a.wrapping_div_rem(UZERO)),
            9 => nd::must_panic(|| a.overflowing_div_rem(UZERO)),
            10 => nd::must_panic(|| a.saturating_div_rem(UZERO)),
            11 => nd::must_panic(|| a.wrapping_rem(UZERO)),
            12 => nd::must_panic(|| a.wrapping_rem_euclid(UZERO)),
            13 => nd::must_panic(|| a.rem_euclid(UZERO)),
            14 => nd::must_panic(|| a.overflowing_rem(UZERO)),
            _ => nd::must_panic(|| a.overflowing_rem_euclid(UZERO)),
        }
    }
}
