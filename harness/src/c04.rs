//! C04: signed division and remainder.

use crate::{any_full, any_prim, any_prim_l, arith, nd, spec::*};
use ethnum::I256;

const M1: I256 = mki(!0, !0);

fn pick_div(a: I256, b: I256) -> I256 {
    match nd::below(6) {
        0 => &a / &b,
        1 => a / &b,
        2 => &a / b,
        3 => a / b,
        4 => { let mut t = a; t /= b; t }
        _ => { let mut t = a; t /= &b; t }
    }
}
fn pick_rem(a: I256, b: I256) -> I256 {
    match nd::below(6) {
        0 => &a % &b,
        1 => a % &b,
        2 => &a % b,
        3 => a % b,
        4 => { let mut t = a; t %= b; t }
        _ => { let mut t = a; t %= &b; t }
    }
}
fn pick_div_p(a: I256, p: i128) -> I256 {
    match nd::below(6) {
        0 => &a / &p,
        1 => a / &p,
        2 => &a / p,
        3 => a / p,
        4 => { let mut t = a; t /= p; t }
        _ => { let mut t = a; t /= &p; t }
    }
}
fn pick_rem_p(a: I256, p: i128) -> I256 {
    match nd::below(6) {
        0 => &a % &p,
        1 => a % &p,
        2 => &a % p,
        3 => a % p,
        4 => { let mut t = a; t %= p; t }
        _ => { let mut t = a; t %= &p; t }
    }
}
fn pick_div_l(p: i128, b: I256) -> I256 {
    match nd::below(4) {
        0 => &p / &b,
        1 => p / &b,
        2 => &p / b,
        _ => p / b,
    }
}
fn pick_rem_l(p: i128, b: I256) -> I256 {
    match nd::below(4) {
        0 => &p % &b,
        1 => p % &b,
        2 => &p % b,
        _ => p % b,
    }
}
fn pick_m(a: I256, b: I256) -> (I256, I256) {
    match nd::below(4) {
        0 => (a.wrapping_div(b), a.wrapping_rem(b)),
        1 => {
            let ((q, o), (r, p)) = (a.overflowing_div(b), a.overflowing_rem(b));
            assert!(!o && !p);
            (q, r)
        }
        2 => (a.saturating_div(b), a.wrapping_rem(b)),
        _ => (a.checked_div(b).unwrap(), a.checked_rem(b).unwrap()),
    }
}
fn pick_pair(a: I256, b: I256) -> (I256, I256) {
    match nd::below(5) {
        0 => a.div_rem(b),
        1 => a.wrapping_div_rem(b),
        2 => {
            let (q, r, o) = a.overflowing_div_rem(b);
            assert!(!o);
            (q, r)
        }
        3 => a.saturating_div_rem(b),
        _ => a.checked_div_rem(b).unwrap(),
    }
}
/// Euclidean quotients.
fn pick_ediv(a: I256, b: I256) -> I256 {
    match nd::below(4) {
        0 => a.wrapping_div_euclid(b),
        1 => { let (q, o) = a.overflowing_div_euclid(b); assert!(!o); q }
        2 => a.div_euclid(b),
        _ => a.checked_div_euclid(b).unwrap(),
    }
}
fn pick_erem(a: I256, b: I256) -> I256 {
    match nd::below(4) {
        0 => a.wrapping_rem_euclid(b),
        1 => { let (q, o) = a.overflowing_rem_euclid(b); assert!(!o); q }
        2 => a.rem_euclid(b),
        _ => a.checked_rem_euclid(b).unwrap(),
    }
}
fn pick_epair(a: I256, b: I256) -> (I256, I256) {
    match nd::below(5) {
        0 => a.div_rem_euclid(b),
        1 => a.wrapping_div_rem_euclid(b),
        2 => {
            let (q, r, o) = a.overflowing_div_rem_euclid(b);
            assert!(!o);
            (q, r)
        }
        3 => a.saturating_div_rem_euclid(b),
        _ => a.checked_div_rem_euclid(b).unwrap(),
    }
}

fn idivpair() -> (I256, I256) {
    let (a, b) = nd::divpair();
    (X::u(a).wi(), X::u(b).wi())
}
fn regular(a: I256, b: I256) -> bool {
    !ieq(b, IZERO) && !(ieq(a, IMIN) && ieq(b, M1))
}

harnesses! {
    // The core, with and without a remainder.
    #[kani::stub(ethnum::intrinsics::udivmod4, crate::stubs::udivmod4)]
    fn c04_core() {
        let (a, b) = idivpair();
        nd::assume(regular(a, b));
        let (q, r) = arith::idiv(a, b);
        let (x, y) = a.wrapping_div_rem(b);
        assert!(ieq(x, q.wi()));
        assert!(ieq(y, r.wi()));
    }
    #[kani::stub(ethnum::intrinsics::udivmod4, crate::stubs::udivmod4)]
    fn c04_core_div() {
        let (a, b) = idivpair();
        nd::assume(regular(a, b));
        let (q, r) = arith::idiv(a, b);
        assert!(ieq(a.wrapping_div(b), q.wi()));
    }
    #[kani::stub(ethnum::intrinsics::idivmod4, crate::stubs::idivmod4)]
    fn c04_op_div() {
        let (a, b) = idivpair();
        nd::assume(regular(a, b));
        let (q, r) = arith::idiv(a, b);
        assert!(ieq(pick_div(a, b), q.wi()));
    }
    #[kani::stub(ethnum::intrinsics::idivmod4, crate::stubs::idivmod4)]
    fn c04_op_rem() {
        let (a, b) = idivpair();
        nd::assume(regular(a, b));
        let (q, r) = arith::idiv(a, b);
        assert!(ieq(pick_rem(a, b), r.wi()));
    }
    #[kani::stub(ethnum::intrinsics::idivmod4, crate::stubs::idivmod4)]
    fn c04_op_prim_r_div() {
        let (a, b) = idivpair();
        let p = iw(b).1 as i128;
        let b = X::pi(p).wi();
        nd::assume(regular(a, b));
        let (q, r) = arith::idiv(a, b);
        assert!(ieq(pick_div_p(a, p), q.wi()));
    }
    #[kani::stub(ethnum::intrinsics::idivmod4, crate::stubs::idivmod4)]
    fn c04_op_prim_r_rem() {
        let (a, b) = idivpair();
        let p = iw(b).1 as i128;
        let b = X::pi(p).wi();
        nd::assume(regular(a, b));
        let (q, r) = arith::idiv(a, b);
        assert!(ieq(pick_rem_p(a, p), r.wi()));
    }
    #[kani::stub(ethnum::intrinsics::idivmod4, crate::stubs::idivmod4)]
    fn c04_op_prim_l_div() {
        let (a, b) = idivpair();
        let p = iw(a).1 as i128;
        let a = X::pi(p).wi();
        nd::assume(regular(a, b));
        let (q, r) = arith::idiv(a, b);
        assert!(ieq(pick_div_l(p, b), q.wi()));
    }
    #[kani::stub(ethnum::intrinsics::idivmod4, crate::stubs::idivmod4)]
    fn c04_op_prim_l_rem() {
        let (a, b) = idivpair();
        let p = iw(a).1 as i128;
        let a = X::pi(p).wi();
        nd::assume(regular(a, b));
        let (q, r) = arith::idiv(a, b);
        assert!(ieq(pick_rem_l(p, b), r.wi()));
    }
    #[kani::stub(ethnum::intrinsics::idivmod4, crate::stubs::idivmod4)]
    fn c04_methods() {
        let (a, b) = idivpair();
        nd::assume(regular(a, b));
        let (q, r) = arith::idiv(a, b);
        let (x, y) = pick_m(a, b);
        assert!(ieq(x, q.wi()));
        assert!(ieq(y, r.wi()));
    }
    #[kani::stub(ethnum::intrinsics::idivmod4, crate::stubs::idivmod4)]
    fn c04_pair() {
        let (a, b) = idivpair();
        nd::assume(regular(a, b));
        let (q, r) = arith::idiv(a, b);
        let (x, y) = pick_pair(a, b);
        assert!(ieq(x, q.wi()));
        assert!(ieq(y, r.wi()));
    }
    // The Euclidean specification itself.
    fn c04_euclid_definition() {
        let (a, b) = idivpair();
        nd::assume(regular(a, b));
        let (q, r) = arith::idiv_euclid(a, b);
        assert!(q.fits_i() && r.fits_i() && !r.is_neg() && r.lt(X::i(b).abs()));
    }
    #[kani::stub(ethnum::intrinsics::idivmod4, crate::stubs::idivmod4)]
    fn c04_euclid_div() {
        let (a, b) = idivpair();
        nd::assume(regular(a, b));
        let (q, r) = arith::idiv_euclid(a, b);
        assert!(ieq(pick_ediv(a, b), q.wi()));
    }
    #[kani::stub(ethnum::intrinsics::idivmod4, crate::stubs::idivmod4)]
    fn c04_euclid_rem() {
        let (a, b) = idivpair();
        nd::assume(regular(a, b));
        let (q, r) = arith::idiv_euclid(a, b);
        assert!(ieq(pick_erem(a, b), r.wi()));
    }
    #[kani::stub(ethnum::intrinsics::udivmod4, crate::stubs::udivmod4)]
    #[kani::stub(ethnum::intrinsics::idivmod4, crate::stubs::idivmod4)]
    fn c04_core_euclid_q() {
        let (a, b) = idivpair();
        nd::assume(regular(a, b));
        let (q, r) = arith::idiv_euclid(a, b);
        let (x, y) = a.wrapping_div_rem_euclid(b);
        assert!(ieq(x, q.wi()));
    }
    #[kani::stub(ethnum::intrinsics::udivmod4, crate::stubs::udivmod4)]
    #[kani::stub(ethnum::intrinsics::idivmod4, crate::stubs::idivmod4)]
    fn c04_core_euclid_r() {
        let (a, b) = idivpair();
        nd::assume(regular(a, b));
        let (q, r) = arith::idiv_euclid(a, b);
        let (x, y) = a.wrapping_div_rem_euclid(b);
        assert!(ieq(y, r.wi()));
    }
    #[kani::stub(ethnum::intrinsics::udivmod4, crate::stubs::udivmod4)]
    #[kani::stub(ethnum::intrinsics::idivmod4, crate::stubs::idivmod4)]
    #[kani::stub(ethnum::I256::wrapping_div_rem_euclid, crate::stubs::wrapping_div_rem_euclid)]
    fn c04_euclid_pair() {
        let (a, b) = idivpair();
        nd::assume(regular(a, b));
        let (q, r) = arith::idiv_euclid(a, b);
        let (x, y) = pick_epair(a, b);
        assert!(ieq(x, q.wi()));
        assert!(ieq(y, r.wi()));
    }
    // I256::MIN by -1.
    #[kani::stub(ethnum::intrinsics::udivmod4, crate::stubs::udivmod4)]
    #[kani::stub(ethnum::intrinsics::idivmod4, crate::stubs::idivmod4)]
    fn c04_min_by_minus_one() {
        let (a, b) = (IMIN, M1);
        assert!(a.checked_div(b).is_none() && a.checked_rem(b).is_none());
        assert!(a.checked_div_euclid(b).is_none() && a.checked_rem_euclid(b).is_none());
        assert!(a.checked_div_rem(b).is_none() && a.checked_div_rem_euclid(b).is_none());
        assert!(ieq(a.wrapping_div(b), IMIN) && ieq(a.wrapping_div_euclid(b), IMIN));
        assert!(ieq(a.wrapping_rem(b), IZERO) && ieq(a.wrapping_rem_euclid(b), IZERO));
        assert!(ieq(a.saturating_div(b), IMAX));
        for (q, o) in [a.overflowing_div(b), a.overflowing_div_euclid(b)] {
            assert!(ieq(q, IMIN) && o);
        }
        for (r, o) in [a.overflowing_rem(b), a.overflowing_rem_euclid(b)] {
            assert!(ieq(r, IZERO) && o);
        }
        for (q, r) in [a.wrapping_div_rem(b), a.wrapping_div_rem_euclid(b)] {
            assert!(ieq(q, IMIN) && ieq(r, IZERO));
        }
        for (q, r, o) in [a.overflowing_div_rem(b), a.overflowing_div_rem_euclid(b)] {
            assert!(ieq(q, IMIN) && ieq(r, IZERO) && o);
        }
        for (q, r) in [a.saturating_div_rem(b), a.saturating_div_rem_euclid(b)] {
            assert!(ieq(q, IMAX) && ieq(r, IZERO));
        }
    }
    #[kani::stub(ethnum::intrinsics::udivmod4, crate::stubs::udivmod4)]
    #[kani::stub(ethnum::intrinsics::idivmod4, crate::stubs::idivmod4)]
    fn c04_checked_zero() {
        let a = nd::i256();
        assert!(a.checked_div(IZERO).is_none() && a.checked_rem(IZERO).is_none());
        assert!(a.checked_div_euclid(IZERO).is_none() && a.checked_rem_euclid(IZERO).is_none());
        assert!(a.checked_div_rem(IZERO).is_none() && a.checked_div_rem_euclid(IZERO).is_none());
    }
}

panic_harnesses! {
    #[kani::stub(ethnum::intrinsics::udivmod4, crate::stubs::udivmod4)]
    #[kani::stub(ethnum::intrinsics::idivmod4, crate::stubs::idivmod4)]
    fn c04_p_overflow() {
        let (a, b) = (IMIN, M1);
        match nd::below(4) {
            0 => nd::must_panic(|| a.div_euclid(b)),
            1 => nd::must_panic(|| a.rem_euclid(b)),
            2 => nd::must_panic(|| a.div_rem(b)),
            _ => nd::must_panic(|| a.div_rem_euclid(b)),
        }
    }
}

always_panic_harnesses! {
    #[kani::stub(ethnum::intrinsics::idivmod4, crate::stubs::idivmod4)]
    fn c04_p_op() {
        let a = nd::i256();
        match nd::below(6) {
            0 => nd::must_panic(|| pick_div(a, IZERO)),
            1 => nd::must_panic(|| pick_rem(a, IZERO)),
            2 => nd::must_panic(|| pick_div_p(a, 0)),
            3 => nd::must_panic(|| pick_rem_p(a, 0)),
            4 => nd::must_panic(|| pick_div_l(iw(a).1 as i128, IZERO)),
            _ => nd::must_panic(|| pick_rem_l(iw(a).1 as i128, IZERO)),
        }
    }
    #[kani::stub(ethnum::intrinsics::udivmod4, crate::stubs::udivmod4)]
    #[kani::stub(ethnum::intrinsics::idivmod4, crate::stubs::idivmod4)]
    fn c04_p_methods() {
        let a = nd::i256();
        match nd::below(19) {
            0 => nd::must_panic(|| a.wrapping_div(IZERO)),
            1 => nd::must_panic(|| a.wrapping_div_euclid(IZERO)),
            2 => nd::must_panic(|| a.div_euclid(IZERO)),
            3 => nd::must_panic(|| a.overflowing_div(IZERO)),
            4 => nd::must_panic(|| a.overflowing_div_euclid(IZERO)),
            5 => nd::must_panic(|| a.saturating_div(IZERO)),
            6 => nd::must_panic(|| a.div_rem(IZERO)),
            7 => nd::must_panic(|| a.div_rem_euclid(IZERO)),
            8 => nd::must_panic(|| a.wrapping_div_rem(IZERO)),
            9 => nd::must_panic(|| a.overflowing_div_rem(IZERO)),
            10 => nd::must_panic(|| a.saturating_div_rem(IZERO)),
            11 => nd::must_panic(|| a.wrapping_rem(IZERO)),
            12 => nd::must_panic(|| a.wrapping_rem_euclid(IZERO)),
            13 => nd::must_panic(|| a.rem_euclid(IZERO)),
            14 => nd::must_panic(|| a.overflowing_rem(IZERO)),
            15 => nd::must_panic(|| a.wrapping_div_rem_euclid(IZERO)),
            16 => nd::must_panic(|| a.overflowing_div_rem_euclid(IZERO)),
            17 => nd::must_panic(|| a.saturating_div_rem_euclid(IZERO)),
            _ => nd::must_panic(|| a.overflowing_rem_euclid(IZERO)),
        }
    }
}
