//! C12: compile-time literals, through the const fn behind the macros.

use crate::{nd, spec::*, text::*};
use ethnum::{I256, U256};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn draw() -> String {
    let (r, p) = [(2, "0b"), (8, "0o"), (16, "0x"), (10, "")][nd::below(4) as usize];
    let s = nd::text(|g| {
        let spaced = g.chance(2);
        gen(g, r, &[p, p, p, p, p, "", "0x", "0B"], if spaced { b"__ \n\t" } else { b"" })
    });
    match String::from_utf8(s) {
        Ok(s) => s,
        Err(_) => {
            nd::assume(false);
            unreachable!()
        }
    }
}

/// The literal `[sign] [0b|0o|0x] digits` with spacing among the digits.
enum Lit {
    Value(bool, Big),
    Malformed,
    /// Nothing but spacing where the digits should be; not decided.
    NoDigits,
}
fn literal(s: &[u8], signed: bool) -> Lit {
    let (neg, rest) = match s.first() {
        None => return Lit::Malformed,
        Some(b'+') => (false, &s[1..]),
        Some(b'-') if signed => (true, &s[1..]),
        _ => (false, s),
    };
    if rest.is_empty() {
        return Lit::Malformed;
    }
    let (radix, digits) = if let Some(d) = rest.strip_prefix(b"0b") {
        (2, d)
    } else if let Some(d) = rest.strip_prefix(b"0o") {
        (8, d)
    } else if let Some(d) = rest.strip_prefix(b"0x") {
        (16, d)
    } else {
        (10, rest)
    };
    if rest.len() == 2 && radix != 10 {
        return Lit::Malformed;
    }
    let mut v = Big::ZERO;
    let mut any = false;
    for &c in digits {
        if c == b'_' || matches!(c, b' ' | b'\t' | b'\n' | b'\r' | 0xc) {
            continue;
        }
        match digit(c, radix) {
            Some(d) => v.muladd(radix as u64, d),
            None => return Lit::Malformed,
        }
        any = true;
    }
    if !any {
        return Lit::NoDigits;
    }
    Lit::Value(neg, v)
}

fn check<T: std::fmt::Debug>(s: &str, r: Result<T, ()>, lit: Lit, eq: impl Fn(&T, bool, &Big) -> Option<bool>) {
    match lit {
        Lit::NoDigits => nd::assume(false),
        Lit::Malformed => assert!(r.is_err(), "{s:?} is malformed, but evaluates to {r:?}"),
        Lit::Value(neg, b) => match &r {
            Ok(v) => assert!(eq(v, neg, &b) == Some(true), "{s:?} evaluates to {v:?}"),
            // representable: must be accepted
            Err(()) => assert!(
                !representable::<T>(neg, &b),
                "{s:?} is representable, but rejected"
            ),
        },
    }
}
fn representable<T>(neg: bool, b: &Big) -> bool {
    if std::any::type_name::<T>().ends_with("I256") {
        b.to_i(neg).is_some()
    } else {
        b.to_u(neg).is_some()
    }
}

harnesses! {
    fn c12_u() {
        let s = draw();
        let r = catch_unwind(AssertUnwindSafe(|| U256::const_from_str_prefixed(&s))).map_err(|_| ());
        check(&s, r, literal(s.as_bytes(), false), |v, neg, b| b.to_u(neg).map(|e| ueq(*v, e)));
    }
    fn c12_i() {
        let s = draw();
        let r = catch_unwind(AssertUnwindSafe(|| I256::const_from_str_prefixed(&s))).map_err(|_| ());
        check(&s, r, literal(s.as_bytes(), true), |v, neg, b| b.to_i(neg).map(|e| ieq(*v, e)));
    }
    /// Every representable value, from the value.
    fn c12_u_value() {
        let v = nd::u256();
        let (r, p) = [(2, "0b"), (8, "0o"), (16, "0x"), (10, "")][nd::below(4) as usize];
        let (h, l) = uw(v);
        let s = format!("{p}{}", String::from_utf8(Big::of(h, l).digits(r, nd::bool())).unwrap());
        assert!(ueq(U256::const_from_str_prefixed(&s), v), "{s}");
        // agreement with run-time parsing
        assert!(U256::from_str_prefixed(&s).map_or(false, |x| ueq(x, v)), "{s}");
    }
    fn c12_i_value() {
        let v = nd::i256();
        let (r, p) = [(2, "0b"), (8, "0o"), (16, "0x"), (10, "")][nd::below(4) as usize];
        let m = X::i(v);
        let a = m.abs();
        let sign = if m.is_neg() { "-" } else if nd::bool() { "+" } else { "" };
        let s = format!("{sign}{p}{}", String::from_utf8(Big::of(a.hi, a.lo).digits(r, nd::bool())).unwrap());
        assert!(ieq(I256::const_from_str_prefixed(&s), v), "{s}");
        assert!(I256::from_str_prefixed(&s).map_or(false, |x| ieq(x, v)), "{s}");
    }
    /// The macros themselves.
    fn c12_macros() {
        use ethnum::{int, uint};
        assert!(ueq(uint!("0xffff_ffff_ffff_ffff_ffff_ffff_ffff_fffe_0123_4567_89ab_cdef_fedc_ba98_7654_3210"),
            mku(0xffff_ffff_ffff_ffff_ffff_ffff_ffff_fffe, 0x0123_4567_89ab_cdef_fedc_ba98_7654_3210)));
        assert!(ueq(uint!("115792089237316195423570985008687907853269984665640564039457584007913129639935"), UMAX));
        assert!(ueq(uint!("+0b1_0"), mku(0, 2)));
        assert!(ueq(uint!("0o17"), mku(0, 15)));
        assert!(ueq(uint!("7"), mku(0, 7)));
        assert!(ieq(int!("-57896044618658097711785492504343953926634992332820282019728792003956564819968"), IMIN));
        assert!(ieq(int!("57896044618658097711785492504343953926634992332820282019728792003956564819967"), IMAX));
        assert!(ieq(int!("-0x1_0000"), X::pi(-0x1_0000).wi()));
        assert!(ieq(int!("-0o52"), X::pi(-42).wi()));
        assert!(ieq(int!("-0"), IZERO));
    }
}
