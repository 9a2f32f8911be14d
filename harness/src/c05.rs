//! C05: shifts and rotations.

use crate::{nd, spec::*};
use ethnum::{I256, U256};

const DEBUG: bool = cfg!(debug_assertions);

/// Any operator form with a shift amount of one type.
macro_rules! pick_form {
    ($a:expr, $b:expr, $op:tt, $opa:tt) => {{
        let (a, b) = ($a, $b);
        match nd::below(6) {
            0 => &a $op &b,
            1 => a $op &b,
            2 => &a $op b,
            3 => a $op b,
            4 => { let mut t = a; t $opa b; t }
            _ => { let mut t = a; t $opa &b; t }
        }
    }};
}
/// Every bit of every operator form; the whatever the form.
macro_rules! shl_bits {
    ($w:ident, $a:expr, $b:expr, $n:expr) => {{
        let (a, b, n, i) = ($a, $b, $n, nd::u8() as u32);
        let r = pick_form!(a, b, <<, <<=);
        assert!(bit($w(r), i) == (i >= n && bit($w(a), i.wrapping_sub(n) & 255)));
    }};
}
macro_rules! shr_bits {
    ($w:ident, $a:expr, $b:expr, $n:expr, $fill:expr) => {{
        let (a, b, n, i) = ($a, $b, $n, nd::u8() as u32);
        let r = pick_form!(a, b, >>, >>=);
        let e = if i + n < 256 { bit($w(a), (i + n) & 255) } else { $fill };
        assert!(bit($w(r), i) == e);
    }};
}
macro_rules! any_form {
    ($a:expr, $b:expr, $op:tt, $opa:tt) => {{
        let (a, b) = ($a, $b);
        match nd::below(6) {
            0 => { let _ = &a $op &b; }
            1 => { let _ = a $op &b; }
            2 => { let _ = &a $op b; }
            3 => { let _ = a $op b; }
            4 => { let mut t = a; t $opa b; }
            _ => { let mut t = a; t $opa &b; }
        }
    }};
}

/// The amounts the operators accept: below 256 with debug assertions, any
/// without.
fn amount() -> u128 {
    if DEBUG { nd::u8() as u128 } else { nd::amount() }
}
fn amount256() -> U256 {
    if DEBUG { U256([nd::u8() as u128, 0]) } else { nd::amount256() }
}

harnesses! {
    // The core: bit i of the result, for every i.
    fn c05_u_shl_bits() {
        let (a, n, i) = (nd::u256(), nd::below(256), nd::below(256));
        let r = &a << n;
        assert!(bit(uw(r), i) == (i >= n && bit(uw(a), i.wrapping_sub(n) & 255)));
        assert!(ueq(r, ushl(a, n)));
    }
    fn c05_u_shr_bits() {
        let (a, n, i) = (nd::u256(), nd::below(256), nd::below(256));
        let r = &a >> n;
        assert!(bit(uw(r), i) == (i + n < 256 && bit(uw(a), (i + n) & 255)));
        assert!(ueq(r, ushr(a, n)));
    }
    fn c05_i_shl_bits() {
        let (a, n, i) = (nd::i256(), nd::below(256), nd::below(256));
        let r = &a << n;
        assert!(bit(iw(r), i) == (i >= n && bit(iw(a), i.wrapping_sub(n) & 255)));
        assert!(ieq(r, ishl(a, n)));
    }
    fn c05_i_shr_bits() {
        let (a, n, i) = (nd::i256(), nd::below(256), nd::below(256));
        let r = &a >> n;
        let j = if i + n < 256 { i + n } else { 255 };
        assert!(bit(iw(r), i) == bit(iw(a), j));
        assert!(ieq(r, isar(a, n)));
    }
    fn c05_u_rot_bits() {
        let (a, n, i) = (nd::u256(), nd::shift(), nd::below(256));
        assert!(bit(uw(a.rotate_left(n)), i) == bit(uw(a), i.wrapping_sub(n) & 255));
        assert!(bit(uw(a.rotate_right(n)), i) == bit(uw(a), i.wrapping_add(n) & 255));
    }
    fn c05_i_rot_bits() {
        let (a, n, i) = (nd::i256(), nd::shift(), nd::below(256));
        assert!(bit(iw(a.rotate_left(n)), i) == bit(iw(a), i.wrapping_sub(n) & 255));
        assert!(bit(iw(a.rotate_right(n)), i) == bit(iw(a), i.wrapping_add(n) & 255));
    }
    // checked / overflowing / wrapping families, any u32 amount.
    fn c05_u_families() {
        let (a, n) = (nd::u256(), nd::shift());
        let (m, big) = (n & 255, n > 255);
        let (l, r) = (ushl(a, m), ushr(a, m));
        assert!(ueq(a.wrapping_shl(n), l) && ueq(a.wrapping_shr(n), r));
        let (x, o) = a.overflowing_shl(n);
        assert!(ueq(x, l) && o == big);
        let (x, o) = a.overflowing_shr(n);
        assert!(ueq(x, r) && o == big);
        assert!(oueq(a.checked_shl(n), if big { None } else { Some(l) }));
        assert!(oueq(a.checked_shr(n), if big { None } else { Some(r) }));
    }
    fn c05_i_families() {
        let (a, n) = (nd::i256(), nd::shift());
        let (m, big) = (n & 255, n > 255);
        let (l, r) = (ishl(a, m), isar(a, m));
        assert!(ieq(a.wrapping_shl(n), l) && ieq(a.wrapping_shr(n), r));
        let (x, o) = a.overflowing_shl(n);
        assert!(ieq(x, l) && o == big);
        let (x, o) = a.overflowing_shr(n);
        assert!(ieq(x, r) && o == big);
        assert!(oieq(a.checked_shl(n), if big { None } else { Some(l) }));
        assert!(oieq(a.checked_shr(n), if big { None } else { Some(r) }));
    }
    // 256-bit amounts.
    fn c05_u_by_u256() {
        let (a, n) = (nd::u256(), amount256());
        let m = (n.0[0] & 255) as u32;
        shl_bits!(uw, a, n, m);
        shr_bits!(uw, a, n, m, false);
    }
    fn c05_u_by_i256() {
        let (a, n) = (nd::u256(), amount256());
        let m = (n.0[0] & 255) as u32;
        let n = mki(n.0[1], n.0[0]);
        shl_bits!(uw, a, n, m);
        shr_bits!(uw, a, n, m, false);
    }
    fn c05_i_by_u256() {
        let (a, n) = (nd::i256(), amount256());
        let m = (n.0[0] & 255) as u32;
        shl_bits!(iw, a, n, m);
        shr_bits!(iw, a, n, m, bit(iw(a), 255));
    }
    fn c05_i_by_i256() {
        let (a, n) = (nd::i256(), amount256());
        let m = (n.0[0] & 255) as u32;
        let n = mki(n.0[1], n.0[0]);
        shl_bits!(iw, a, n, m);
        shr_bits!(iw, a, n, m, bit(iw(a), 255));
    }
}

macro_rules! per_type {
    ($($t:ident),*) => {
        $(pub mod $t {
            use super::*;
            harnesses! {
                fn c05_shl_u() {
                    let (a, b) = (nd::u256(), amount() as $t);
                    let n = b as u128;
                    nd::assume(!DEBUG || n < 256);
                    shl_bits!(uw, a, b, (n & 255) as u32);
                }
                fn c05_shr_u() {
                    let (a, b) = (nd::u256(), amount() as $t);
                    let n = b as u128;
                    nd::assume(!DEBUG || n < 256);
                    shr_bits!(uw, a, b, (n & 255) as u32, false);
                }
                fn c05_shl_i() {
                    let (a, b) = (nd::i256(), amount() as $t);
                    let n = b as u128;
                    nd::assume(!DEBUG || n < 256);
                    shl_bits!(iw, a, b, (n & 255) as u32);
                }
                fn c05_shr_i() {
                    let (a, b) = (nd::i256(), amount() as $t);
                    let n = b as u128;
                    nd::assume(!DEBUG || n < 256);
                    shr_bits!(iw, a, b, (n & 255) as u32, bit(iw(a), 255));
                }
            }
        })*
        #[cfg(not(kani))]
        pub fn prim_registry() -> Vec<(String, fn())> {
            let mut v: Vec<(String, fn())> = vec![];
            $(for (n, f) in $t::REG { v.push((format!("{}_{}", n, stringify!($t)), *f)); })*
            v
        }
    };
}
per_type!(i8, i16, i32, i64, i128, isize,
    u8, u16, u32, u64, u128, usize);

macro_rules! out_of_range {
    ($a:ident, $n:ident, $op:tt, $opa:tt; $($k:literal => $t:ty),*) => {
        match nd::below(14) {
            $($k => {
                let b = $n as $t;
                nd::assume(b as u128 > 255);
                nd::must_panic(|| any_form!($a, b, $op, $opa));
            })*
            12 => {
                let n = nd::amount256();
                nd::assume(n.0[1] != 0 || n.0[0] > 255);
                nd::must_panic(|| any_form!($a, n, $op, $opa));
            }
            _ => {
                let n = nd::amount256();
                nd::assume(n.0[1] != 0 || n.0[0] > 255);
                let n = mki(n.0[1], n.0[0]);
                nd::must_panic(|| any_form!($a, n, $op, $opa));
            }
        }
    };
    ($a:ident, $n:ident, $op:tt, $opa:tt) => {
        out_of_range!($a, $n, $op, $opa; 0 => i8, 1 => i16, 2 => i32, 3 => i64, 4 => i128, 5 => isize,
            6 => u8, 7 => u16, 8 => u32, 9 => u64, 10 => u128, 11 => usize)
    };
}

panic_harnesses! {
    fn c05_p_u_shl() {
        let (a, n) = (nd::u256(), nd::amount());
        out_of_range!(a, n, <<, <<=);
    }
    fn c05_p_u_shr() {
        let (a, n) = (nd::u256(), nd::amount());
        out_of_range!(a, n, >>, >>=);
    }
    fn c05_p_i_shl() {
        let (a, n) = (nd::i256(), nd::amount());
        out_of_range!(a, n, <<, <<=);
    }
    fn c05_p_i_shr() {
        let (a, n) = (nd::i256(), nd::amount());
        out_of_range!(a, n, >>, >>=);
    }
}
