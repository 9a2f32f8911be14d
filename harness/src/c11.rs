//! C11: run-time parsing.

use crate::{nd, spec::*, text::*};
use core::num::{IntErrorKind::*, ParseIntError};
use ethnum::{I256, U256};

fn check<T: PartialEq + std::fmt::Debug>(
    s: &str,
    r: Result<T, ParseIntError>,
    n: Num,
    value: impl Fn(bool, &Big) -> Option<T>,
    kinds: bool,
) {
    match n {
        Num::Empty => assert!(matches!(&r, Err(e) if *e.kind() == Empty), "{s:?}: {r:?}, expected Empty"),
        Num::Malformed(neg, over) => {
            let Err(e) = r else { panic!("{s:?}: accepted as {r:?}") };
            let k = e.kind().clone();
            assert!(
                k == InvalidDigit || over && k == if neg { NegOverflow } else { PosOverflow },
                "{s:?}: {k:?}, expected InvalidDigit"
            );
        }
        Num::Value(neg, v) => match value(neg, &v) {
            Some(e) => assert!(r.as_ref() == Ok(&e), "{s:?}: {r:?}, expected {e:?}"),
            None => {
                let Err(e) = r else { panic!("{s:?}: accepted as {r:?}, not representable") };
                let k = e.kind().clone();
                let exp = if neg { NegOverflow } else { PosOverflow };
                assert!(!kinds || k == exp, "{s:?}: {k:?}, expected {exp:?}");
            }
        },
    }
}
fn u(neg: bool, b: &Big) -> Option<U256> {
    b.to_u(neg)
}
fn i(neg: bool, b: &Big) -> Option<I256> {
    b.to_i(neg)
}
fn draw(radix: u32, prefixes: &[&str]) -> String {
    let s = nd::text(|g| gen(g, radix, prefixes, b""));
    match String::from_utf8(s) {
        Ok(s) => s,
        Err(_) => {
            nd::assume(false);
            unreachable!()
        }
    }
}
fn radix() -> u32 {
    let r = nd::below(70);
    if r < 35 {
        r + 2
    } else {
        [2, 8, 10, 10, 16, 16, 36][(r - 35) as usize / 5]
    }
}
fn prefixed(s: &[u8], signed: bool) -> (Num, bool) {
    let b = match s.first() {
        Some(b'+') => &s[1..],
        Some(b'-') if signed => &s[1..],
        _ => s,
    };
    for (p, r) in [(b"0b", 2), (b"0o", 8), (b"0x", 16)] {
        if b.starts_with(p) {
            return (numeral(s, r, p, signed), false);
        }
    }
    (numeral(s, 10, b"", signed), true)
}

harnesses! {
    fn c11_u_radix() {
        let r = radix();
        let s = draw(r, &["", "", "", "0x"]);
        check(&s, U256::from_str_radix(&s, r), numeral(s.as_bytes(), r, b"", false), u, true);
    }
    fn c11_i_radix() {
        let r = radix();
        let s = draw(r, &["", "", "", "0x"]);
        check(&s, I256::from_str_radix(&s, r), numeral(s.as_bytes(), r, b"", true), i, true);
    }
    fn c11_u_fromstr() {
        let s = draw(10, &["", "", "", "0x"]);
        check(&s, s.parse::<U256>(), numeral(s.as_bytes(), 10, b"", false), u, true);
    }
    fn c11_i_fromstr() {
        let s = draw(10, &["", "", "", "0x"]);
        check(&s, s.parse::<I256>(), numeral(s.as_bytes(), 10, b"", true), i, true);
    }
    fn c11_u_hex() {
        let s = draw(16, &["0x", "0x", "0x", "0x", "0x", "0X", "", "0"]);
        check(&s, U256::from_str_hex(&s), numeral(s.as_bytes(), 16, b"0x", false), u, true);
    }
    fn c11_i_hex() {
        let s = draw(16, &["0x", "0x", "0x", "0x", "0x", "0X", "", "0"]);
        check(&s, I256::from_str_hex(&s), numeral(s.as_bytes(), 16, b"0x", true), i, true);
    }
    fn c11_u_prefixed() {
        let (r, p) = [(2, "0b"), (8, "0o"), (16, "0x"), (10, "")][nd::below(4) as usize];
        let s = draw(r, &[p, p, p, p, "", "0x", "0B", "0X", "0O"]);
        let (n, k) = prefixed(s.as_bytes(), false);
        check(&s, U256::from_str_prefixed(&s), n, u, k);
    }
    fn c11_i_prefixed() {
        let (r, p) = [(2, "0b"), (8, "0o"), (16, "0x"), (10, "")][nd::below(4) as usize];
        let s = draw(r, &[p, p, p, p, "", "0x", "0B", "0X", "0O"]);
        let (n, k) = prefixed(s.as_bytes(), true);
        check(&s, I256::from_str_prefixed(&s), n, i, k);
    }
    /// Round trip through every radix, from values instead of texts.
    fn c11_u_value() {
        let v = nd::u256();
        let r = radix();
        let up = nd::bool();
        let (h, l) = uw(v);
        let s = String::from_utf8(Big::of(h, l).digits(r, up)).unwrap();
        assert!(U256::from_str_radix(&s, r).ok().map_or(false, |x| ueq(x, v)), "{s}");
    }
    fn c11_i_value() {
        let v = nd::i256();
        let r = radix();
        let up = nd::bool();
        let m = X::i(v);
        let a = m.abs();
        let mut s = String::from_utf8(Big::of(a.hi, a.lo).digits(r, up)).unwrap();
        if m.is_neg() {
            s.insert(0, '-');
        }
        assert!(I256::from_str_radix(&s, r).ok().map_or(false, |x| ieq(x, v)), "{s}");
    }
}

always_panic_harnesses! {
    fn c11_panic_radix() {
        let r = nd::u32();
        nd::assume(r < 2 || r > 36);
        let s = draw(10, &[""]);
        nd::must_panic(|| U256::from_str_radix(&s, r));
        nd::must_panic(|| I256::from_str_radix(&s, r));
    }
}
