//! C17: the intrinsics, against the contracts that `machinery/llvmir.py`
//! proves of the generated LLVM IR.  Kani proves them of the native backend;
//! natively they run on whichever backend is linked.

use crate::{arith, c02::core_spec, nd, spec::*};
use core::mem::MaybeUninit;
use ethnum::{intrinsics as n, I256, U256};

fn get<T: Copy>(f: impl FnOnce(&mut MaybeUninit<T>)) -> T {
    let mut r = MaybeUninit::uninit();
    f(&mut r);
    unsafe { r.assume_init() }
}
fn flag<T: Copy>(f: impl FnOnce(&mut MaybeUninit<T>) -> bool) -> (T, bool) {
    let mut r = MaybeUninit::uninit();
    let c = f(&mut r);
    (unsafe { r.assume_init() }, c)
}
fn upd<T>(mut a: T, f: impl FnOnce(&mut T)) -> T {
    f(&mut a);
    a
}
/// The 256-bit product modulo 2^256 and whether it exceeds.
fn mul(a: U256, b: U256) -> (U256, bool) {
    #[cfg(kani)]
    return core_spec::umul(a, b);
    #[cfg(not(kani))]
    arith::umul(a, b)
}
fn rol(a: U256, k: u32) -> U256 {
    let k = k & 255;
    let (l, r) = (wshl(uw(a), k), wshr(uw(a), (256 - k) & 255));
    mku(l.0 | r.0, l.1 | r.1)
}

harnesses! {
    fn c17_add2() {
        let (a, b) = (nd::u256(), nd::u256());
        assert!(ueq(upd(a, |r| n::add2(r, &b)), X::u(a).add(X::u(b)).wu()));
    }
    fn c17_add3() {
        let (a, b) = (nd::u256(), nd::u256());
        assert!(ueq(get(|r| n::add3(r, &a, &b)), X::u(a).add(X::u(b)).wu()));
    }
    fn c17_uaddc() {
        let (a, b) = (nd::u256(), nd::u256());
        let (r, c) = flag(|r| n::uaddc(r, &a, &b));
        let e = X::u(a).add(X::u(b));
        assert!(ueq(r, e.wu()) && c == !e.fits_u());
    }
    fn c17_iaddc() {
        let (a, b) = (nd::i256(), nd::i256());
        let (r, c) = flag(|r| n::iaddc(r, &a, &b));
        let e = X::i(a).add(X::i(b));
        assert!(ieq(r, e.wi()) && c == !e.fits_i());
    }
    fn c17_sub2() {
        let (a, b) = (nd::u256(), nd::u256());
        assert!(ueq(upd(a, |r| n::sub2(r, &b)), X::u(a).sub(X::u(b)).wu()));
    }
    fn c17_sub3() {
        let (a, b) = (nd::u256(), nd::u256());
        assert!(ueq(get(|r| n::sub3(r, &a, &b)), X::u(a).sub(X::u(b)).wu()));
    }
    fn c17_usubc() {
        let (a, b) = (nd::u256(), nd::u256());
        let (r, c) = flag(|r| n::usubc(r, &a, &b));
        let e = X::u(a).sub(X::u(b));
        assert!(ueq(r, e.wu()) && c == !e.fits_u());
    }
    fn c17_isubc() {
        let (a, b) = (nd::i256(), nd::i256());
        let (r, c) = flag(|r| n::isubc(r, &a, &b));
        let e = X::i(a).sub(X::i(b));
        assert!(ieq(r, e.wi()) && c == !e.fits_i());
    }
    #[kani::stub(ethnum::intrinsics::umulddi3, crate::stubs::umulddi3)]
    #[kani::solver(cvc5)]
    fn c17_mul2() {
        let (a, b) = (nd::u256(), nd::u256());
        assert!(ueq(upd(a, |r| n::mul2(r, &b)), mul(a, b).0));
    }
    #[kani::stub(ethnum::intrinsics::umulddi3, crate::stubs::umulddi3)]
    #[kani::solver(cvc5)]
    fn c17_mul3() {
        let (a, b) = (nd::u256(), nd::u256());
        assert!(ueq(get(|r| n::mul3(r, &a, &b)), mul(a, b).0));
    }
    #[kani::stub(ethnum::intrinsics::umulddi3, crate::stubs::umulddi3)]
    #[kani::solver(cvc5)]
    fn c17_umulc() {
        let (a, b) = (nd::u256(), nd::u256());
        let (r, c) = flag(|r| n::umulc(r, &a, &b));
        let (e, o) = mul(a, b);
        assert!(ueq(r, e) && c == o);
    }
    // The amounts of the shifts are below 256: every caller reduces or rejects.
    fn c17_shl2() {
        let (a, k) = (nd::u256(), nd::u8() as u32);
        assert!(ueq(upd(a, |r| n::shl2(r, k)), ushl(a, k)));
    }
    fn c17_shl3() {
        let (a, k) = (nd::u256(), nd::u8() as u32);
        assert!(ueq(get(|r| n::shl3(r, &a, k)), ushl(a, k)));
    }
    fn c17_shr2() {
        let (a, k) = (nd::u256(), nd::u8() as u32);
        assert!(ueq(upd(a, |r| n::shr2(r, k)), ushr(a, k)));
    }
    fn c17_shr3() {
        let (a, k) = (nd::u256(), nd::u8() as u32);
        assert!(ueq(get(|r| n::shr3(r, &a, k)), ushr(a, k)));
    }
    fn c17_sar2() {
        let (a, k) = (nd::i256(), nd::u8() as u32);
        assert!(ieq(upd(a, |r| n::sar2(r, k)), isar(a, k)));
    }
    fn c17_sar3() {
        let (a, k) = (nd::i256(), nd::u8() as u32);
        assert!(ieq(get(|r| n::sar3(r, &a, k)), isar(a, k)));
    }
    fn c17_rol3() {
        let (a, k) = (nd::u256(), nd::shift());
        assert!(ueq(get(|r| n::rol3(r, &a, k)), rol(a, k)));
    }
    fn c17_ror3() {
        let (a, k) = (nd::u256(), nd::shift());
        assert!(ueq(get(|r| n::ror3(r, &a, k)), rol(a, 0u32.wrapping_sub(k))));
    }
    fn c17_ctlz() {
        let a = nd::u256();
        let (h, l) = uw(a);
        let e = if h != 0 { h.leading_zeros() } else { 128 + l.leading_zeros() };
        assert!(n::ctlz(&a) == e);
    }
    fn c17_cttz() {
        let a = nd::u256();
        let (h, l) = uw(a);
        let e = if l != 0 { l.trailing_zeros() } else { 128 + h.trailing_zeros() };
        assert!(n::cttz(&a) == e);
    }
}
