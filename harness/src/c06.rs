//! C06: bitwise operators, bit counting and manipulation.

use crate::{any_full, each_full, each_prim_l, each_prim_r, nd, spec::*};
use ethnum::{I256, U256};

const DEBUG: bool = cfg!(debug_assertions);

fn ones(w: (u128, u128)) -> u32 {
    w.0.count_ones() + w.1.count_ones()
}
/// `r` is the number of equal-to-`v` bits at the most significant end.
fn is_leading(w: (u128, u128), v: bool, r: u32, i: u32) -> bool {
    r <= 256 && (i >= r || bit(w, 255 - i) == v) && (r == 256 || bit(w, 255 - (r & 255)) != v)
}
fn is_trailing(w: (u128, u128), v: bool, r: u32, i: u32) -> bool {
    r <= 256 && (i >= r || bit(w, i) == v) && (r == 256 || bit(w, r & 255) != v)
}

macro_rules! for_type {
    ($m:ident, $T:ident, $P:ident, $get:ident, $w:ident, $mk:ident, $x:ident, $pget:ident) => {
        pub mod $m {
            use super::*;
            harnesses! {
                fn c06_counts() {
                    let a = nd::$get();
                    let n = ones($w(a));
                    assert!(a.count_ones() == n && a.count_zeros() == 256 - n);
                }
                fn c06_leading() {
                    let (a, i) = (nd::$get(), nd::u8() as u32);
                    assert!(is_leading($w(a), false, a.leading_zeros(), i));
                    assert!(is_leading($w(a), true, a.leading_ones(), i));
                }
                fn c06_trailing() {
                    let (a, i) = (nd::$get(), nd::u8() as u32);
                    assert!(is_trailing($w(a), false, a.trailing_zeros(), i));
                    assert!(is_trailing($w(a), true, a.trailing_ones(), i));
                }
                fn c06_reverse() {
                    let (a, i) = (nd::$get(), nd::u8() as u32);
                    assert!(bit($w(a.reverse_bits()), i) == bit($w(a), 255 - i));
                    assert!(bit($w(a.swap_bytes()), i) == bit($w(a), 8 * (31 - i / 8) + i % 8));
                }
                fn c06_bitops() {
                    let (a, b) = (nd::$get(), nd::$get());
                    let (x, y) = ($w(a), $w(b));
                    let e = $mk(x.0 & y.0, x.1 & y.1);
                    let chk = |r: $T| assert!($w(r) == $w(e));
                    each_full!(chk; a, &, &=, b);
                    let e = $mk(x.0 | y.0, x.1 | y.1);
                    let chk = |r: $T| assert!($w(r) == $w(e));
                    each_full!(chk; a, |, |=, b);
                    let e = $mk(x.0 ^ y.0, x.1 ^ y.1);
                    let chk = |r: $T| assert!($w(r) == $w(e));
                    each_full!(chk; a, ^, ^=, b);
                    assert!($w(!a) == (!x.0, !x.1));
                    assert!($w(!&a) == (!x.0, !x.1));
                }
                fn c06_bitops_prim() {
                    let (a, b) = (nd::$get(), nd::$pget());
                    let v = X::$x(b);
                    let (x, y) = ($w(a), (v.hi, v.lo));
                    let e = $mk(x.0 & y.0, x.1 & y.1);
                    let chk = |r: $T| assert!($w(r) == $w(e));
                    each_prim_r!(chk; a, &, &=, b);
                    each_prim_l!(chk; b, &, a);
                    let e = $mk(x.0 | y.0, x.1 | y.1);
                    let chk = |r: $T| assert!($w(r) == $w(e));
                    each_prim_r!(chk; a, |, |=, b);
                    each_prim_l!(chk; b, |, a);
                    let e = $mk(x.0 ^ y.0, x.1 ^ y.1);
                    let chk = |r: $T| assert!($w(r) == $w(e));
                    each_prim_r!(chk; a, ^, ^=, b);
                    each_prim_l!(chk; b, ^, a);
                }
            }
        }
    };
}
for_type!(u, U256, u128, u256, uw, mku, pu, u128);
for_type!(i, I256, i128, i256, iw, mki, pi, i128);

harnesses! {
    fn c06_power_of_two() {
        let a = nd::u256();
        let w = uw(a);
        assert!(a.is_power_of_two() == (ones(w) == 1));
        // the smallest power of two p with p >= a
        let fits = w.0 < 1 << 127 || (w.0 == 1 << 127 && w.1 == 0);
        match a.checked_next_power_of_two() {
            None => assert!(!fits),
            Some(p) => {
                assert!(fits && ones(uw(p)) == 1);
                assert!(!X::u(p).lt(X::u(a)));
                // p/2 < a, or p == 1
                assert!(ueq(p, mku(0, 1)) || X::u(ushr(p, 1)).lt(X::u(a)));
                assert!(ueq(a.next_power_of_two(), p));
            }
        }
        if !DEBUG && !fits {
            assert!(ueq(a.next_power_of_two(), UZERO));
        }
    }
}

panic_harnesses! {
    fn c06_p_next_power_of_two() {
        let a = nd::u256();
        let w = uw(a);
        nd::assume(w.0 > 1 << 127 || (w.0 == 1 << 127 && w.1 != 0));
        nd::must_panic(|| a.next_power_of_two());
    }
}
