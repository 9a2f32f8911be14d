//! C18: casts to floating point.

use crate::{nd, spec::*};
use ethnum::{I256, U256};

/// Whether `bits` (a non-negative float of P significant bits) is v itself, or,
/// when no such float is equal to v, one of the two next to it.
fn faithful(v: U256, bits: u64, p: u32, bias: u64, inf: u64) -> bool {
    let w = uw(v);
    if w == (0, 0) {
        return bits == 0;
    }
    let top = if w.0 != 0 { 255 - w.0.leading_zeros() } else { 127 - w.1.leading_zeros() };
    if top as u64 > bias {
        return bits == inf;
    }
    let (m, exact) = if top < p {
        (wshl(w, p - 1 - top).1, true)
    } else {
        let s = top - (p - 1);
        let m = wshr(w, s);
        (m.1, wshl(m, s) == w)
    };
    let floor = ((top as u64 + bias) << (p - 1)) + (m as u64 - (1 << (p - 1)));
    bits == floor || !exact && bits == floor + 1
}
fn f64_ok(v: U256, r: f64) -> bool {
    faithful(v, r.to_bits(), 53, 1023, 0x7ff << 52)
}
fn f32_ok(v: U256, r: f32) -> bool {
    faithful(v, r.to_bits() as u64, 24, 127, 0xff << 23)
}

/// Contract of `U256::as_f64`, proved by `c18_u_f64` and `c18_u_monotone`.
#[cfg(kani)]
pub fn u_as_f64(a: U256) -> f64 {
    static mut LAST: Option<(U256, f64)> = None;
    let r = f64::from_bits(kani::any());
    kani::assume(f64_ok(a, r));
    unsafe {
        if let Some((b, t)) = LAST {
            if uw(a) <= uw(b) {
                kani::assume(r <= t);
            }
            if uw(b) <= uw(a) {
                kani::assume(t <= r);
            }
        }
        LAST = Some((a, r));
    }
    r
}

harnesses! {
    fn c18_u_f64() {
        let a = nd::u256();
        assert!(f64_ok(a, a.as_f64()));
    }
    fn c18_u_f32() {
        let a = nd::u256();
        assert!(f32_ok(a, a.as_f32()));
    }
    #[kani::stub(ethnum::U256::as_f64, u_as_f64)]
    fn c18_i_f64() {
        let a = nd::i256();
        let r = a.as_f64();
        let x = X::i(a);
        assert!(f64_ok(x.abs().wu(), if x.is_neg() { -r } else { r }));
    }
    #[kani::stub(ethnum::U256::as_f64, u_as_f64)]
    fn c18_i_f32() {
        let a = nd::i256();
        let r = a.as_f32();
        let x = X::i(a);
        assert!(f32_ok(x.abs().wu(), if x.is_neg() { -r } else { r }));
    }
    // Larger values do not give smaller floats.
    fn c18_u_monotone() {
        let (a, b) = (nd::u256(), nd::u256());
        nd::assume(uw(a) <= uw(b));
        assert!(a.as_f64() <= b.as_f64());
    }
    fn c18_u_monotone_f32() {
        let (a, b) = (nd::u256(), nd::u256());
        nd::assume(uw(a) <= uw(b));
        assert!(a.as_f32() <= b.as_f32());
    }
    #[kani::stub(ethnum::U256::as_f64, u_as_f64)]
    fn c18_i_monotone() {
        let (a, b) = (nd::i256(), nd::i256());
        nd::assume(!X::i(b).lt(X::i(a)));
        if nd::bool() {
            assert!(a.as_f64() <= b.as_f64());
        } else {
            assert!(a.as_f32() <= b.as_f32());
        }
    }
}
