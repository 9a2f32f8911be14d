//! C02: multiplication.

use crate::{any_full, any_prim, any_prim_l, arith, nd, spec::*};
use ethnum::{I256, U256};

const DEBUG: bool = cfg!(debug_assertions);

/// The formula of the product that the core is proved against under Kani;
/// Verus proves that it is the product, and every native run compares them.
pub use crate::facts as core_spec;

fn pick_mul_u(a: U256, b: U256) -> U256 {
    match nd::below(6) {
        0 => &a * &b,
        1 => a * &b,
        2 => &a * b,
        3 => a * b,
        4 => { let mut t = a; t *= b; t }
        _ => { let mut t = a; t *= &b; t }
    }
}
fn pick_mul_i(a: I256, b: I256) -> I256 {
    match nd::below(6) {
        0 => &a * &b,
        1 => a * &b,
        2 => &a * b,
        3 => a * b,
        4 => { let mut t = a; t *= b; t }
        _ => { let mut t = a; t *= &b; t }
    }
}
fn pick_mul_up(a: U256, p: u128) -> U256 {
    match nd::below(10) {
        0 => &a * &p,
        1 => a * &p,
        2 => &a * p,
        3 => a * p,
        4 => { let mut t = a; t *= p; t }
        5 => { let mut t = a; t *= &p; t }
        6 => &p * &a,
        7 => p * &a,
        8 => &p * a,
        _ => p * a,
    }
}
fn pick_mul_ip(a: I256, p: i128) -> I256 {
    match nd::below(10) {
        0 => &a * &p,
        1 => a * &p,
        2 => &a * p,
        3 => a * p,
        4 => { let mut t = a; t *= p; t }
        5 => { let mut t = a; t *= &p; t }
        6 => &p * &a,
        7 => p * &a,
        8 => &p * a,
        _ => p * a,
    }
}

harnesses! {
    // The cores, against the formula.
    #[kani::solver(cvc5)]
    fn c02_core_u_wide() {
        let (a, b) = (nd::u128(), nd::u128());
        let (h, l) = core_spec::mul128(a, b);
        #[cfg(not(kani))]
        assert!(mku(h, l) == arith::umul(mku(0, a), mku(0, b)).0);
        #[cfg(not(kani))]
        let r = mku(0, a).wrapping_mul(mku(0, b));
        #[cfg(kani)]
        let r = ethnum::intrinsics::umulddi3(&a, &b);
        assert!(ueq(r, mku(h, l)));
    }
    #[kani::stub(ethnum::intrinsics::umulddi3, crate::stubs::umulddi3)]
    #[kani::solver(cvc5)]
    fn c02_core_u_wrapping() {
        let (a, b) = (nd::u256(), nd::u256());
        let e = core_spec::umul(a, b);
        #[cfg(not(kani))]
        assert!(e == arith::umul(a, b));
        assert!(ueq(a.wrapping_mul(b), e.0));
    }
    #[kani::stub(ethnum::intrinsics::umulddi3, crate::stubs::umulddi3)]
    #[kani::solver(cvc5)]
    fn c02_core_u_overflowing() {
        let (a, b) = (nd::u256(), nd::u256());
        let e = core_spec::umul(a, b);
        #[cfg(not(kani))]
        assert!(e == arith::umul(a, b));
        let (r, o) = a.overflowing_mul(b);
        assert!(ueq(r, e.0) && o == e.1);
    }
    #[kani::stub(ethnum::intrinsics::mul3, crate::stubs::mul3)]
    #[kani::stub(ethnum::intrinsics::idivmod4, crate::stubs::idivmod4)]
    fn c02_core_i_overflowing() {
        let (a, b) = (nd::i256(), nd::i256());
        let e = arith::imul(a, b);
        let (r, o) = a.overflowing_mul(b);
        assert!(o == e.1);
        assert!(ieq(r, e.0));
    }

    // Everything above the cores.
    #[kani::stub(ethnum::intrinsics::mul3, crate::stubs::mul3)]
    #[kani::stub(ethnum::intrinsics::mul2, crate::stubs::mul2)]
    #[kani::stub(ethnum::intrinsics::umulc, crate::stubs::umulc)]
    fn c02_u_families() {
        let (a, b) = (nd::u256(), nd::u256());
        let (e, o) = arith::umul(a, b);
        let (r, f) = a.overflowing_mul(b);
        assert!(ueq(r, e) && f == o);
        assert!(ueq(a.wrapping_mul(b), e));
        assert!(oueq(a.checked_mul(b), if o { None } else { Some(e) }));
        assert!(ueq(a.saturating_mul(b), if o { UMAX } else { e }));
    }
    #[kani::stub(ethnum::intrinsics::mul3, crate::stubs::mul3)]
    #[kani::stub(ethnum::intrinsics::mul2, crate::stubs::mul2)]
    #[kani::stub(ethnum::intrinsics::imulc, crate::stubs::imulc)]
    fn c02_i_families() {
        let (a, b) = (nd::i256(), nd::i256());
        let (e, o) = arith::imul(a, b);
        let neg = X::i(a).is_neg() != X::i(b).is_neg();
        let (r, f) = a.overflowing_mul(b);
        assert!(ieq(r, e) && f == o);
        assert!(ieq(a.wrapping_mul(b), e));
        assert!(oieq(a.checked_mul(b), if o { None } else { Some(e) }));
        assert!(ieq(a.saturating_mul(b), if !o { e } else if neg { IMIN } else { IMAX }));
    }
    #[kani::stub(ethnum::intrinsics::mul3, crate::stubs::mul3)]
    #[kani::stub(ethnum::intrinsics::mul2, crate::stubs::mul2)]
    #[kani::stub(ethnum::intrinsics::umulc, crate::stubs::umulc)]
    fn c02_u_op() {
        let (a, b) = (nd::u256(), nd::u256());
        let (e, o) = arith::umul(a, b);
        nd::assume(!DEBUG || !o);
        assert!(ueq(pick_mul_u(a, b), e));
    }
    #[kani::stub(ethnum::intrinsics::mul3, crate::stubs::mul3)]
    #[kani::stub(ethnum::intrinsics::mul2, crate::stubs::mul2)]
    #[kani::stub(ethnum::intrinsics::imulc, crate::stubs::imulc)]
    fn c02_i_op() {
        let (a, b) = (nd::i256(), nd::i256());
        let (e, o) = arith::imul(a, b);
        nd::assume(!DEBUG || !o);
        assert!(ieq(pick_mul_i(a, b), e));
    }
    #[kani::stub(ethnum::intrinsics::mul3, crate::stubs::mul3)]
    #[kani::stub(ethnum::intrinsics::mul2, crate::stubs::mul2)]
    #[kani::stub(ethnum::intrinsics::umulc, crate::stubs::umulc)]
    fn c02_u_op_prim() {
        let (a, p) = (nd::u256(), nd::u128());
        let (e, o) = arith::umul(a, mku(0, p));
        nd::assume(!DEBUG || !o);
        assert!(ueq(pick_mul_up(a, p), e));
    }
    #[kani::stub(ethnum::intrinsics::mul3, crate::stubs::mul3)]
    #[kani::stub(ethnum::intrinsics::mul2, crate::stubs::mul2)]
    #[kani::stub(ethnum::intrinsics::imulc, crate::stubs::imulc)]
    fn c02_i_op_prim() {
        let (a, p) = (nd::i256(), nd::i128());
        let (e, o) = arith::imul(a, X::pi(p).wi());
        nd::assume(!DEBUG || !o);
        assert!(ieq(pick_mul_ip(a, p), e));
    }
    // Product of up to two factors (and the empty one).
    #[kani::stub(ethnum::intrinsics::mul3, crate::stubs::mul3)]
    #[kani::stub(ethnum::intrinsics::mul2, crate::stubs::mul2)]
    #[kani::stub(ethnum::intrinsics::umulc, crate::stubs::umulc)]
    fn c02_u_product() {
        let v = [nd::u256(), nd::u256()];
        let n = nd::below(3) as usize;
        let (e, o) = match n {
            0 => (mku(0, 1), false),
            1 => (v[0], false),
            _ => arith::umul(v[0], v[1]),
        };
        nd::assume(!DEBUG || !o);
        let r: U256 = if nd::bool() { v[..n].iter().product() } else { v[..n].iter().copied().product() };
        assert!(ueq(r, e));
    }
    #[kani::stub(ethnum::intrinsics::mul3, crate::stubs::mul3)]
    #[kani::stub(ethnum::intrinsics::mul2, crate::stubs::mul2)]
    #[kani::stub(ethnum::intrinsics::imulc, crate::stubs::imulc)]
    fn c02_i_product() {
        let v = [nd::i256(), nd::i256()];
        let n = nd::below(3) as usize;
        let (e, o) = match n {
            0 => (mki(0, 1), false),
            1 => (v[0], false),
            _ => arith::imul(v[0], v[1]),
        };
        nd::assume(!DEBUG || !o);
        let r: I256 = if nd::bool() { v[..n].iter().product() } else { v[..n].iter().copied().product() };
        assert!(ieq(r, e));
    }
}

panic_harnesses! {
    #[kani::stub(ethnum::intrinsics::mul3, crate::stubs::mul3)]
    #[kani::stub(ethnum::intrinsics::mul2, crate::stubs::mul2)]
    #[kani::stub(ethnum::intrinsics::umulc, crate::stubs::umulc)]
    fn c02_p_u() {
        let a = nd::u256();
        if nd::bool() {
            let b = nd::u256();
            nd::assume(arith::umul(a, b).1);
            nd::must_panic(|| pick_mul_u(a, b));
        } else {
            let b = nd::u128();
            nd::assume(arith::umul(a, mku(0, b)).1);
            nd::must_panic(|| pick_mul_up(a, b));
        }
    }
    #[kani::stub(ethnum::intrinsics::mul3, crate::stubs::mul3)]
    #[kani::stub(ethnum::intrinsics::mul2, crate::stubs::mul2)]
    #[kani::stub(ethnum::intrinsics::imulc, crate::stubs::imulc)]
    fn c02_p_i() {
        let a = nd::i256();
        if nd::bool() {
            let b = nd::i256();
            nd::assume(arith::imul(a, b).1);
            nd::must_panic(|| pick_mul_i(a, b));
        } else {
            let b = nd::i128();
            nd::assume(arith::imul(a, X::pi(b).wi()).1);
            nd::must_panic(|| pick_mul_ip(a, b));
        }
    }
}
