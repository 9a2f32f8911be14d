//! Contracts of the multiplication and division intrinsics, used in place of
//! their bodies when their callers are verified (the bodies are verified
//! against the same contracts in c02 and in the Verus proofs of c03).

use crate::spec::*;
use core::mem::MaybeUninit;
use ethnum::{I256, U256};

fn any_u() -> U256 {
    U256([kani::any(), kani::any()])
}

/// Products with 0, 1 and -1 only; anything else is unconstrained.
pub fn mul3_by_sign(res: &mut MaybeUninit<U256>, a: &U256, b: &U256) {
    let (wa, wb) = (uw(*a), uw(*b));
    let r = if wb == (0, 1) {
        *a
    } else if wb == (!0, !0) {
        X::u(*a).neg().wu()
    } else if wb == (0, 0) || wa == (0, 0) {
        UZERO
    } else if wa == (0, 1) {
        *b
    } else if wa == (!0, !0) {
        X::u(*b).neg().wu()
    } else {
        any_u()
    };
    res.write(r);
}
pub fn imulc_by_sign(res: &mut MaybeUninit<I256>, a: &I256, b: &I256) -> bool {
    let (wa, wb) = (iw(*a), iw(*b));
    let (e, known) = if wb == (0, 1) {
        (X::i(*a), true)
    } else if wb == (!0, !0) {
        (X::i(*a).neg(), true)
    } else if wb == (0, 0) || wa == (0, 0) {
        (X::pu(0), true)
    } else if wa == (0, 1) {
        (X::i(*b), true)
    } else if wa == (!0, !0) {
        (X::i(*b).neg(), true)
    } else {
        (X::pu(0), false)
    };
    if known {
        res.write(e.wi());
        !e.fits_i()
    } else {
        res.write(I256([kani::any(), kani::any()]));
        kani::any()
    }
}

pub fn mul3(res: &mut MaybeUninit<U256>, a: &U256, b: &U256) {
    res.write(crate::arith::umul_q(*a, *b).0);
}
pub fn mul2(r: &mut U256, a: &U256) {
    *r = crate::arith::umul_q(*r, *a).0;
}
pub fn umulc(r: &mut MaybeUninit<U256>, a: &U256, b: &U256) -> bool {
    let (lo, ovf) = crate::arith::umul_q(*a, *b);
    r.write(lo);
    ovf
}
pub fn imulc(r: &mut MaybeUninit<I256>, a: &I256, b: &I256) -> bool {
    let (lo, ovf) = crate::arith::imul_q(*a, *b);
    r.write(lo);
    ovf
}
/// Contract of `udivmod4`, proved in Verus; a zero divisor panics.
pub fn udivmod4(res: &mut MaybeUninit<U256>, a: &U256, b: &U256, rem: Option<&mut MaybeUninit<U256>>) {
    if ueq(*b, UZERO) {
        panic!("attempt to divide by zero");
    }
    let (q, r) = crate::arith::udiv_q(*a, *b);
    res.write(q);
    if let Some(rem) = rem {
        rem.write(r);
    }
}
/// Contract of `idivmod4` (proved in c03); a zero divisor panics.
pub fn idivmod4(res: &mut MaybeUninit<I256>, a: &I256, b: &I256, rem: Option<&mut MaybeUninit<I256>>) {
    if ieq(*b, IZERO) {
        panic!("attempt to divide by zero");
    }
    let (q, r) = crate::arith::idiv_q(*a, *b);
    res.write(q.wi());
    if let Some(rem) = rem {
        rem.write(r.wi());
    }
}
/// Contract of `umulddi3` (proved in `c02_core_u_wide`).
pub fn umulddi3(a: &u128, b: &u128) -> U256 {
    let (h, l) = crate::c02::core_spec::mul128(*a, *b);
    mku(h, l)
}
/// Contract of `I256::wrapping_div_rem_euclid` (proved in `c04_core_euclid_*`).
pub fn wrapping_div_rem_euclid(a: I256, b: I256) -> (I256, I256) {
    if ieq(b, IZERO) {
        panic!("attempt to divide by zero");
    }
    let (q, r) = crate::arith::idiv_euclid_q(a, b);
    (q.wi(), r.wi())
}
