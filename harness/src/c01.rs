//! C01: addition, subtraction, negation, absolute value and difference.

use crate::{nd, spec::*};
use ethnum::{I256, U256};

const DEBUG: bool = cfg!(debug_assertions);

/// Every implementation of a binary operator between two 256-bit values.
#[macro_export]
macro_rules! each_full {
    ($chk:expr; $a:expr, $op:tt, $op_assign:tt, $b:expr) => {{
        let (a, b) = ($a, $b);
        $chk(&a $op &b);
        $chk(a $op &b);
        $chk(&a $op b);
        $chk(a $op b);
        let mut t = a;
        t $op_assign b;
        $chk(t);
        let mut t = a;
        t $op_assign &b;
        $chk(t);
    }};
}
/// Every implementation with a primitive right operand.
#[macro_export]
macro_rules! each_prim_r {
    ($chk:expr; $a:expr, $op:tt, $op_assign:tt, $p:expr) => {{
        let (a, p) = ($a, $p);
        $chk(&a $op &p);
        $chk(a $op &p);
        $chk(&a $op p);
        $chk(a $op p);
        let mut t = a;
        t $op_assign p;
        $chk(t);
        let mut t = a;
        t $op_assign &p;
        $chk(t);
    }};
}
/// Every implementation with a primitive left operand.
#[macro_export]
macro_rules! each_prim_l {
    ($chk:expr; $p:expr, $op:tt, $b:expr) => {{
        let (p, b) = ($p, $b);
        $chk(&p $op &b);
        $chk(p $op &b);
        $chk(&p $op b);
        $chk(p $op b);
    }};
}
/// One operator implementation, picked nondeterministically (for panics).
#[macro_export]
macro_rules! any_full {
    ($a:expr, $op:tt, $op_assign:tt, $b:expr) => {{
        let (a, b) = ($a, $b);
        match nd::below(6) {
            0 => { let _ = &a $op &b; }
            1 => { let _ = a $op &b; }
            2 => { let _ = &a $op b; }
            3 => { let _ = a $op b; }
            4 => { let mut t = a; t $op_assign b; }
            _ => { let mut t = a; t $op_assign &b; }
        }
    }};
}
#[macro_export]
macro_rules! any_prim {
    ($a:expr, $op:tt, $op_assign:tt, $p:expr) => {{
        let (a, p) = ($a, $p);
        match nd::below(6) {
            0 => { let _ = &a $op &p; }
            1 => { let _ = a $op &p; }
            2 => { let _ = &a $op p; }
            3 => { let _ = a $op p; }
            4 => { let mut t = a; t $op_assign p; }
            _ => { let mut t = a; t $op_assign &p; }
        }
    }};
}
#[macro_export]
macro_rules! any_prim_l {
    ($p:expr, $op:tt, $b:expr) => {{
        let (p, b) = ($p, $b);
        match nd::below(4) {
            0 => { let _ = &p $op &b; }
            1 => { let _ = p $op &b; }
            2 => { let _ = &p $op b; }
            _ => { let _ = p $op b; }
        }
    }};
}

harnesses! {
    fn c01_u_add() {
        let (a, b) = (nd::u256(), nd::u256());
        let e = X::u(a).add(X::u(b));
        let (r, o) = a.overflowing_add(b);
        assert!(ueq(r, e.wu()) && o == !e.fits_u());
        assert!(ueq(a.wrapping_add(b), e.wu()));
        assert!(oueq(a.checked_add(b), e.opt_u()));
        assert!(ueq(a.saturating_add(b), e.sat_u()));
    }
    fn c01_u_sub() {
        let (a, b) = (nd::u256(), nd::u256());
        let e = X::u(a).sub(X::u(b));
        let (r, o) = a.overflowing_sub(b);
        assert!(ueq(r, e.wu()) && o == !e.fits_u());
        assert!(ueq(a.wrapping_sub(b), e.wu()));
        assert!(oueq(a.checked_sub(b), e.opt_u()));
        assert!(ueq(a.saturating_sub(b), e.sat_u()));
    }
    fn c01_u_add_signed() {
        let (a, b) = (nd::u256(), nd::i256());
        let e = X::u(a).add(X::i(b));
        let (r, o) = a.overflowing_add_signed(b);
        assert!(ueq(r, e.wu()) && o == !e.fits_u());
        assert!(ueq(a.wrapping_add_signed(b), e.wu()));
        assert!(oueq(a.checked_add_signed(b), e.opt_u()));
        assert!(ueq(a.saturating_add_signed(b), e.sat_u()));
    }
    fn c01_u_neg() {
        let a = nd::u256();
        let e = X::u(a).neg();
        let (r, o) = a.overflowing_neg();
        assert!(ueq(r, e.wu()) && o == !e.fits_u());
        assert!(ueq(a.wrapping_neg(), e.wu()));
        assert!(oueq(a.checked_neg(), e.opt_u()));
    }
    fn c01_u_abs_diff() {
        let (a, b) = (nd::u256(), nd::u256());
        let e = X::u(a).sub(X::u(b)).abs();
        assert!(ueq(a.abs_diff(b), e.wu()));
    }
    fn c01_i_add() {
        let (a, b) = (nd::i256(), nd::i256());
        let e = X::i(a).add(X::i(b));
        let (r, o) = a.overflowing_add(b);
        assert!(ieq(r, e.wi()) && o == !e.fits_i());
        assert!(ieq(a.wrapping_add(b), e.wi()));
        assert!(oieq(a.checked_add(b), e.opt_i()));
        assert!(ieq(a.saturating_add(b), e.sat_i()));
    }
    fn c01_i_sub() {
        let (a, b) = (nd::i256(), nd::i256());
        let e = X::i(a).sub(X::i(b));
        let (r, o) = a.overflowing_sub(b);
        assert!(ieq(r, e.wi()) && o == !e.fits_i());
        assert!(ieq(a.wrapping_sub(b), e.wi()));
        assert!(oieq(a.checked_sub(b), e.opt_i()));
        assert!(ieq(a.saturating_sub(b), e.sat_i()));
    }
    fn c01_i_add_unsigned() {
        let (a, b) = (nd::i256(), nd::u256());
        let e = X::i(a).add(X::u(b));
        let (r, o) = a.overflowing_add_unsigned(b);
        assert!(ieq(r, e.wi()) && o == !e.fits_i());
        assert!(ieq(a.wrapping_add_unsigned(b), e.wi()));
        assert!(oieq(a.checked_add_unsigned(b), e.opt_i()));
        assert!(ieq(a.saturating_add_unsigned(b), e.sat_i()));
    }
    fn c01_i_sub_unsigned() {
        let (a, b) = (nd::i256(), nd::u256());
        let e = X::i(a).sub(X::u(b));
        let (r, o) = a.overflowing_sub_unsigned(b);
        assert!(ieq(r, e.wi()) && o == !e.fits_i());
        assert!(ieq(a.wrapping_sub_unsigned(b), e.wi()));
        assert!(oieq(a.checked_sub_unsigned(b), e.opt_i()));
        assert!(ieq(a.saturating_sub_unsigned(b), e.sat_i()));
    }
    fn c01_i_neg() {
        let a = nd::i256();
        let e = X::i(a).neg();
        let (r, o) = a.overflowing_neg();
        assert!(ieq(r, e.wi()) && o == !e.fits_i());
        assert!(ieq(a.wrapping_neg(), e.wi()));
        assert!(oieq(a.checked_neg(), e.opt_i()));
        assert!(ieq(a.saturating_neg(), e.sat_i()));
        if e.fits_i() || !DEBUG {
            assert!(ieq(-a, e.wi()));
            assert!(ieq(-&a, e.wi()));
        }
    }
    fn c01_i_abs() {
        let a = nd::i256();
        let e = X::i(a).abs();
        let (r, o) = a.overflowing_abs();
        assert!(ieq(r, e.wi()) && o == !e.fits_i());
        assert!(ieq(a.wrapping_abs(), e.wi()));
        assert!(oieq(a.checked_abs(), e.opt_i()));
        assert!(ieq(a.saturating_abs(), e.sat_i()));
        assert!(ueq(a.unsigned_abs(), e.wu()));
        if e.fits_i() || !DEBUG {
            assert!(ieq(a.abs(), e.wi()));
        }
    }
    fn c01_i_abs_diff() {
        let (a, b) = (nd::i256(), nd::i256());
        let e = X::i(a).sub(X::i(b)).abs();
        assert!(ueq(a.abs_diff(b), e.wu()));
    }
    fn c01_i_sign() {
        let a = nd::i256();
        let v = X::i(a);
        let s = if v.is_neg() { -1 } else if v.is_zero() { 0 } else { 1 };
        assert!(a.signum128() == s);
        assert!(ieq(a.signum(), X::pi(s).wi()));
        assert!(a.is_negative() == (s < 0));
        assert!(a.is_positive() == (s > 0));
    }

    // Operators: exact when representable; without debug assertions wrapping.
    fn c01_u_op_add() {
        let (a, b) = (nd::u256(), nd::u256());
        let e = X::u(a).add(X::u(b));
        nd::assume(!DEBUG || e.fits_u());
        let chk = |r: U256| assert!(ueq(r, e.wu()));
        each_full!(chk; a, +, +=, b);
    }
    fn c01_u_op_sub() {
        let (a, b) = (nd::u256(), nd::u256());
        let e = X::u(a).sub(X::u(b));
        nd::assume(!DEBUG || e.fits_u());
        let chk = |r: U256| assert!(ueq(r, e.wu()));
        each_full!(chk; a, -, -=, b);
    }
    fn c01_i_op_add() {
        let (a, b) = (nd::i256(), nd::i256());
        let e = X::i(a).add(X::i(b));
        nd::assume(!DEBUG || e.fits_i());
        let chk = |r: I256| assert!(ieq(r, e.wi()));
        each_full!(chk; a, +, +=, b);
    }
    fn c01_i_op_sub() {
        let (a, b) = (nd::i256(), nd::i256());
        let e = X::i(a).sub(X::i(b));
        nd::assume(!DEBUG || e.fits_i());
        let chk = |r: I256| assert!(ieq(r, e.wi()));
        each_full!(chk; a, -, -=, b);
    }
    fn c01_u_op_add_prim() {
        let (a, p) = (nd::u256(), nd::u128());
        let e = X::u(a).add(X::pu(p));
        nd::assume(!DEBUG || e.fits_u());
        let chk = |r: U256| assert!(ueq(r, e.wu()));
        each_prim_r!(chk; a, +, +=, p);
        each_prim_l!(chk; p, +, a);
    }
    fn c01_u_op_sub_prim() {
        let (a, p) = (nd::u256(), nd::u128());
        let e = X::u(a).sub(X::pu(p));
        nd::assume(!DEBUG || e.fits_u());
        let chk = |r: U256| assert!(ueq(r, e.wu()));
        each_prim_r!(chk; a, -, -=, p);
    }
    fn c01_u_op_prim_sub() {
        let (a, p) = (nd::u256(), nd::u128());
        let e = X::pu(p).sub(X::u(a));
        nd::assume(!DEBUG || e.fits_u());
        let chk = |r: U256| assert!(ueq(r, e.wu()));
        each_prim_l!(chk; p, -, a);
    }
    fn c01_i_op_add_prim() {
        let (a, p) = (nd::i256(), nd::i128());
        let e = X::i(a).add(X::pi(p));
        nd::assume(!DEBUG || e.fits_i());
        let chk = |r: I256| assert!(ieq(r, e.wi()));
        each_prim_r!(chk; a, +, +=, p);
        each_prim_l!(chk; p, +, a);
    }
    fn c01_i_op_sub_prim() {
        let (a, p) = (nd::i256(), nd::i128());
        let e = X::i(a).sub(X::pi(p));
        nd::assume(!DEBUG || e.fits_i());
        let chk = |r: I256| assert!(ieq(r, e.wi()));
        each_prim_r!(chk; a, -, -=, p);
    }
    fn c01_i_op_prim_sub() {
        let (a, p) = (nd::i256(), nd::i128());
        let e = X::pi(p).sub(X::i(a));
        nd::assume(!DEBUG || e.fits_i());
        let chk = |r: I256| assert!(ieq(r, e.wi()));
        each_prim_l!(chk; p, -, a);
    }

    // Summation of up to three values is the fold of `+`.
    fn c01_u_sum() {
        let v = [nd::u256(), nd::u256(), nd::u256()];
        let n = nd::below(4) as usize;
        let mut e = X::pu(0);
        if n > 0 { e = e.add(X::u(v[0])); }
        if n > 1 { e = e.add(X::u(v[1])); }
        if n > 2 { e = e.add(X::u(v[2])); }
        nd::assume(!DEBUG || e.fits_u());
        let r: U256 = v[..n].iter().sum();
        assert!(ueq(r, e.wu()));
        let r: U256 = v[..n].iter().copied().sum();
        assert!(ueq(r, e.wu()));
    }
    fn c01_i_sum() {
        let v = [nd::i256(), nd::i256(), nd::i256()];
        let n = nd::below(4) as usize;
        let mut e = X::pu(0);
        let mut fits = true;
        if n > 0 { e = e.add(X::i(v[0])); fits &= e.fits_i(); }
        if n > 1 { e = e.add(X::i(v[1])); fits &= e.fits_i(); }
        if n > 2 { e = e.add(X::i(v[2])); fits &= e.fits_i(); }
        nd::assume(!DEBUG || fits);
        let r: I256 = v[..n].iter().sum();
        assert!(ieq(r, e.wi()));
        let r: I256 = v[..n].iter().copied().sum();
        assert!(ieq(r, e.wi()));
    }
}

panic_harnesses! {
    fn c01_p_u_add() {
        let (a, b) = (nd::u256(), nd::u256());
        nd::assume(!X::u(a).add(X::u(b)).fits_u());
        nd::must_panic(|| any_full!(a, +, +=, b));
    }
    fn c01_p_u_sub() {
        let (a, b) = (nd::u256(), nd::u256());
        nd::assume(!X::u(a).sub(X::u(b)).fits_u());
        nd::must_panic(|| any_full!(a, -, -=, b));
    }
    fn c01_p_i_add() {
        let (a, b) = (nd::i256(), nd::i256());
        nd::assume(!X::i(a).add(X::i(b)).fits_i());
        nd::must_panic(|| any_full!(a, +, +=, b));
    }
    fn c01_p_i_sub() {
        let (a, b) = (nd::i256(), nd::i256());
        nd::assume(!X::i(a).sub(X::i(b)).fits_i());
        nd::must_panic(|| any_full!(a, -, -=, b));
    }
    fn c01_p_u_prim() {
        let (a, p) = (nd::u256(), nd::u128());
        match nd::below(3) {
            0 => {
                nd::assume(!X::u(a).add(X::pu(p)).fits_u());
                nd::must_panic(|| any_prim!(a, +, +=, p));
            }
            1 => {
                nd::assume(!X::u(a).sub(X::pu(p)).fits_u());
                nd::must_panic(|| any_prim!(a, -, -=, p));
            }
            _ => {
                nd::assume(!X::pu(p).sub(X::u(a)).fits_u());
                nd::must_panic(|| any_prim_l!(p, -, a));
            }
        }
    }
    fn c01_p_i_prim() {
        let (a, p) = (nd::i256(), nd::i128());
        match nd::below(3) {
            0 => {
                nd::assume(!X::i(a).add(X::pi(p)).fits_i());
                nd::must_panic(|| any_prim!(a, +, +=, p));
            }
            1 => {
                nd::assume(!X::i(a).sub(X::pi(p)).fits_i());
                nd::must_panic(|| any_prim!(a, -, -=, p));
            }
            _ => {
                nd::assume(!X::pi(p).sub(X::i(a)).fits_i());
                nd::must_panic(|| any_prim_l!(p, -, a));
            }
        }
    }
    fn c01_p_i_neg_abs() {
        nd::must_panic(|| match nd::below(3) {
            0 => -IMIN,
            1 => -&IMIN,
            _ => IMIN.abs(),
        });
    }
}
