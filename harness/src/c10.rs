//! C10: float to integer conversion.

use crate::{nd, spec::*};
use ethnum::{AsI256, AsU256, I256, U256};

/// Truncated magnitude of a finite float with `frac` fraction bits, or None
/// when it is 2^256 or more; `bias` includes the fraction width.
fn magnitude(exp: u32, frac: u128, fbits: u32, bias: u32) -> Option<(u128, u128)> {
    let (m, e) = if exp == 0 { (frac, 1) } else { (frac | 1 << fbits, exp) };
    if e >= bias {
        let s = e - bias;
        if fbits + s > 255 {
            None
        } else {
            Some(wshl((0, m), s))
        }
    } else {
        let s = bias - e;
        Some((0, if s > fbits { 0 } else { m >> s }))
    }
}
fn to_u(neg: bool, exp: u32, frac: u128, fbits: u32, ebits: u32) -> U256 {
    let top = (1 << ebits) - 1;
    if exp == top && frac != 0 || neg {
        return UZERO; // NaN, or at most zero
    }
    if exp == top {
        return UMAX;
    }
    match magnitude(exp, frac, fbits, top / 2 + fbits) {
        None => UMAX,
        Some((h, l)) => mku(h, l),
    }
}
fn to_i(neg: bool, exp: u32, frac: u128, fbits: u32, ebits: u32) -> I256 {
    let top = (1 << ebits) - 1;
    if exp == top && frac != 0 {
        return IZERO;
    }
    let m = if exp == top { None } else { magnitude(exp, frac, fbits, top / 2 + fbits) };
    let m = match m {
        Some((h, _)) if h >> 127 != 0 => None, // 2^255 or more
        m => m,
    };
    match m {
        None if neg => IMIN,
        None => IMAX,
        Some((h, l)) => {
            let v = x(0, h, l);
            if neg { v.neg().wi() } else { v.wi() }
        }
    }
}
fn f64_of(neg: bool, exp: u32, frac: u128) -> f64 {
    f64::from_bits((neg as u64) << 63 | (exp as u64) << 52 | frac as u64)
}
fn f32_of(neg: bool, exp: u32, frac: u128) -> f32 {
    f32::from_bits((neg as u32) << 31 | exp << 23 | frac as u32)
}

macro_rules! float {
    ($u:ident, $i:ident, $of:ident, $fb:expr, $eb:expr, $neg:expr) => {
        pub fn $u() {
            let exp = nd::exponent($eb);
            let frac = nd::u128() & ((1 << $fb) - 1);
            let f = $of($neg, exp, frac);
            assert!(ueq(f.as_u256(), to_u($neg, exp, frac, $fb, $eb)));
        }
        pub fn $i() {
            let exp = nd::exponent($eb);
            let frac = nd::u128() & ((1 << $fb) - 1);
            let f = $of($neg, exp, frac);
            assert!(ieq(f.as_i256(), to_i($neg, exp, frac, $fb, $eb)));
        }
    };
}
mod body {
    use super::*;
    float!(f64_u_pos, f64_i_pos, f64_of, 52, 11, false);
    float!(f64_u_neg, f64_i_neg, f64_of, 52, 11, true);
    float!(f32_u_pos, f32_i_pos, f32_of, 23, 8, false);
    float!(f32_u_neg, f32_i_neg, f32_of, 23, 8, true);
}

harnesses! {
    fn c10_f64_u_pos() { body::f64_u_pos() }
    fn c10_f64_u_neg() { body::f64_u_neg() }
    #[kani::stub(ethnum::intrinsics::mul3, crate::stubs::mul3_by_sign)]
    #[kani::stub(ethnum::intrinsics::imulc, crate::stubs::imulc_by_sign)]
    fn c10_f64_i_pos() { body::f64_i_pos() }
    #[kani::stub(ethnum::intrinsics::mul3, crate::stubs::mul3_by_sign)]
    #[kani::stub(ethnum::intrinsics::imulc, crate::stubs::imulc_by_sign)]
    fn c10_f64_i_neg() { body::f64_i_neg() }
    fn c10_f32_u_pos() { body::f32_u_pos() }
    fn c10_f32_u_neg() { body::f32_u_neg() }
    #[kani::stub(ethnum::intrinsics::mul3, crate::stubs::mul3_by_sign)]
    #[kani::stub(ethnum::intrinsics::imulc, crate::stubs::imulc_by_sign)]
    fn c10_f32_i_pos() { body::f32_i_pos() }
    #[kani::stub(ethnum::intrinsics::mul3, crate::stubs::mul3_by_sign)]
    #[kani::stub(ethnum::intrinsics::imulc, crate::stubs::imulc_by_sign)]
    fn c10_f32_i_neg() { body::f32_i_neg() }
}
