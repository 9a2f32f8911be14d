//! C14: text serialization.

use crate::{nd, sink::*, spec::*};
#[cfg(not(kani))]
use crate::text::*;
use ethnum::{serde as es, I256, U256};
use serde::{Deserialize, Serialize};

#[cfg(not(kani))]
mod full {
    use super::*;
    pub fn hex(v: X) -> String {
        let a = v.abs();
        let d = String::from_utf8(Big::of(a.hi, a.lo).digits(16, false)).unwrap();
        format!("{}0x{d}", if v.is_neg() { "-" } else { "" })
    }
    pub fn dec(v: X) -> String {
        let a = v.abs();
        let d = String::from_utf8(Big::of(a.hi, a.lo).digits(10, false)).unwrap();
        format!("{}{d}", if v.is_neg() { "-" } else { "" })
    }
    pub fn text(radix: u32, prefixes: &[&str]) -> String {
        match String::from_utf8(nd::text(|g| gen(g, radix, prefixes, b""))) {
            Ok(s) => s,
            Err(_) => {
                nd::assume(false);
                unreachable!()
            }
        }
    }
    /// Deserializes through both visitor entry points.
    pub fn both<T: std::fmt::Debug>(f: impl Fn(Source) -> Result<T, Bad>, s: &str, exp: Option<T>, eq: impl Fn(&T, &T) -> bool) {
        for c in [Content::Str(s), Content::Bytes(s.as_bytes())] {
            let r = f(Source(c)).ok();
            let ok = match (&r, &exp) {
                (Some(a), Some(b)) => eq(a, b),
                (None, None) => true,
                _ => false,
            };
            assert!(ok, "{s:?} deserializes to {r:?}, expected {exp:?}");
        }
    }
    pub fn prefixed(s: &str, signed: bool) -> Num {
        let s = s.as_bytes();
        let b = match s.first() {
            Some(b'+') => &s[1..],
            Some(b'-') if signed => &s[1..],
            _ => s,
        };
        for (p, r) in [(b"0b", 2), (b"0o", 8), (b"0x", 16)] {
            if b.starts_with(p) {
                return numeral(s, r, p, signed);
            }
        }
        numeral(s, 10, b"", signed)
    }
    pub fn u(n: Num) -> Option<U256> {
        match n {
            Num::Value(neg, v) => v.to_u(neg),
            _ => None,
        }
    }
    pub fn i(n: Num) -> Option<I256> {
        match n {
            Num::Value(neg, v) => v.to_i(neg),
            _ => None,
        }
    }
    pub const PRE: &[(u32, &str)] = &[(2, "0b"), (8, "0o"), (16, "0x"), (16, "0x"), (10, "")];
    pub fn pre() -> String {
        let (r, p) = PRE[nd::below(5) as usize];
        text(r, &[p, p, p, p, "", "0x", "0X"])
    }
}
#[cfg(not(kani))]
use full::*;

#[cfg(not(kani))]
harnesses! {
    fn c14_u_round() {
        let v = nd::u256();
        let h = hex(X::u(v));
        assert!(v.serialize(Sink).unwrap().str() == h, "default");
        assert!(es::prefixed::serialize(&v, Sink).unwrap().str() == h, "prefixed");
        assert!(es::permissive::serialize(&v, Sink).unwrap().str() == h, "permissive");
        let d = dec(X::u(v));
        assert!(es::decimal::serialize(&v, Sink).unwrap().str() == d, "decimal");
        both(|s| U256::deserialize(s), &h, Some(v), |a, b| ueq(*a, *b));
        both(|s| es::prefixed::deserialize(s), &h, Some(v), |a, b| ueq(*a, *b));
        both(|s| es::prefixed::deserialize(s), &d, Some(v), |a, b| ueq(*a, *b));
        both(|s| es::decimal::deserialize(s), &d, Some(v), |a, b| ueq(*a, *b));
        assert!(es::permissive::deserialize(Source(Content::Str(&h))).map_or(false, |x: U256| ueq(x, v)));
        assert!(es::permissive::deserialize(Source(Content::Str(&d))).map_or(false, |x: U256| ueq(x, v)));
    }
    fn c14_i_round() {
        let v = nd::i256();
        let h = hex(X::i(v));
        assert!(v.serialize(Sink).unwrap().str() == h, "default");
        assert!(es::prefixed::serialize(&v, Sink).unwrap().str() == h, "prefixed");
        assert!(es::permissive::serialize(&v, Sink).unwrap().str() == h, "permissive");
        let d = dec(X::i(v));
        assert!(es::decimal::serialize(&v, Sink).unwrap().str() == d, "decimal");
        both(|s| I256::deserialize(s), &h, Some(v), |a, b| ieq(*a, *b));
        both(|s| es::prefixed::deserialize(s), &h, Some(v), |a, b| ieq(*a, *b));
        both(|s| es::prefixed::deserialize(s), &d, Some(v), |a, b| ieq(*a, *b));
        both(|s| es::decimal::deserialize(s), &d, Some(v), |a, b| ieq(*a, *b));
        assert!(es::permissive::deserialize(Source(Content::Str(&h))).map_or(false, |x: I256| ieq(x, v)));
        assert!(es::permissive::deserialize(Source(Content::Str(&d))).map_or(false, |x: I256| ieq(x, v)));
    }
    fn c14_u_hex() {
        let s = text(16, &["0x", "0x", "0x", "0x", "0X", ""]);
        both(|s| U256::deserialize(s), &s, u(numeral(s.as_bytes(), 16, b"0x", false)), |a, b| ueq(*a, *b));
    }
    fn c14_i_hex() {
        let s = text(16, &["0x", "0x", "0x", "0x", "0X", ""]);
        both(|s| I256::deserialize(s), &s, i(numeral(s.as_bytes(), 16, b"0x", true)), |a, b| ieq(*a, *b));
    }
    fn c14_u_decimal() {
        let s = text(10, &["", "", "", "0x"]);
        both(|s| es::decimal::deserialize(s), &s, u(numeral(s.as_bytes(), 10, b"", false)), |a, b| ueq(*a, *b));
    }
    fn c14_i_decimal() {
        let s = text(10, &["", "", "", "0x"]);
        both(|s| es::decimal::deserialize(s), &s, i(numeral(s.as_bytes(), 10, b"", true)), |a, b| ieq(*a, *b));
    }
    fn c14_u_prefixed() {
        let s = pre();
        both(|s| es::prefixed::deserialize(s), &s, u(prefixed(&s, false)), |a, b| ueq(*a, *b));
        let r: Result<U256, Bad> = es::permissive::deserialize(Source(Content::Str(&s)));
        assert!(oueq(r.ok(), u(prefixed(&s, false))), "permissive {s:?}");
    }
    fn c14_i_prefixed() {
        let s = pre();
        both(|s| es::prefixed::deserialize(s), &s, i(prefixed(&s, true)), |a, b| ieq(*a, *b));
        let r: Result<I256, Bad> = es::permissive::deserialize(Source(Content::Str(&s)));
        assert!(oieq(r.ok(), i(prefixed(&s, true))), "permissive {s:?}");
    }
    fn c14_floats() {
        let wide = nd::bool();
        let w = nd::u64();
        let k = nd::u8() % 70;
        // small integers and halves are common
        let f = match nd::below(3) {
            0 => f64::from_bits(w),
            1 => (w as i64 >> (k % 64)) as f64,
            _ => (w as i64 >> (k % 64)) as f64 / 4.0,
        };
        let (f, c, lim) = if wide { (f, Content::F64(f), 53) } else { (f as f32 as f64, Content::F32(f as f32), 24) };
        let n = (1u64 << lim) as f64;
        let r: Result<I256, Bad> = es::permissive::deserialize(Source(c));
        let q: Result<U256, Bad> = es::permissive::deserialize(Source(c));
        // exactly the integers that every value in range represents exactly;
        // the bounds themselves are not decided
        nd::assume(f.abs() != n);
        if f.abs() < n && f.fract() == 0.0 {
            let e = X::pi(f as i128);
            assert!(r.map_or(false, |v| ieq(v, e.wi())), "{f}");
            if !e.is_neg() {
                assert!(q.map_or(false, |v| ueq(v, e.wu())), "{f}");
            }
        } else {
            assert!(r.is_err() && q.is_err(), "{f}");
        }
    }
    /// Numbers, in the permissive form.  (Negative ones as U256 are not
    /// decided.)
    fn c14_numbers() {
        let k = nd::below(5);
        let w = nd::u128();
        let (c, e) = match k {
            0 => (Content::I64(w as i64), X::pi(w as i64 as i128)),
            1 => (Content::U64(w as u64), X::pu(w as u64 as u128)),
            2 => (Content::I128(w as i128), X::pi(w as i128)),
            3 => (Content::U128(w), X::pu(w)),
            _ => (Content::U64(w as u64), X::pu(w as u64 as u128)),
        };
        let r: Result<I256, Bad> = es::permissive::deserialize(Source(c));
        assert!(r.map_or(false, |v| ieq(v, e.wi())));
        if !e.is_neg() {
            let r: Result<U256, Bad> = es::permissive::deserialize(Source(c));
            assert!(r.map_or(false, |v| ueq(v, e.wu())));
        }
    }
    /// Bytes that are not text are rejected.
    fn c14_bytes() {
        let b = nd::text(|g| {
            let mut v = gen(g, 16, &["0x"], b"");
            let i = g.n(v.len() as u64 + 1) as usize;
            v.insert(i, 0x80 + g.n(0x80) as u8);
            v
        });
        nd::assume(std::str::from_utf8(&b).is_err());
        assert!(U256::deserialize(Source(Content::Bytes(&b))).is_err());
        assert!(I256::deserialize(Source(Content::Bytes(&b))).is_err());
    }
}

#[cfg(kani)]
pub mod k {
    use super::*;
    use crate::c13::digits::*;
    use core::fmt::{self, Write};
    use core::mem::MaybeUninit;
    use core::num::ParseIntError;

    /// Every bit pattern, in the permissive form.
    #[kani::proof]
    pub fn c14_k_f64() {
        let f = f64::from_bits(nd::u64());
        let r: Result<I256, Bad> = es::permissive::deserialize(Source(Content::F64(f)));
        let q: Result<U256, Bad> = es::permissive::deserialize(Source(Content::F64(f)));
        float(f, (1u64 << 53) as f64, r, q);
    }
    #[kani::proof]
    pub fn c14_k_f32() {
        let f = f32::from_bits(nd::u32());
        let r: Result<I256, Bad> = es::permissive::deserialize(Source(Content::F32(f)));
        let q: Result<U256, Bad> = es::permissive::deserialize(Source(Content::F32(f)));
        float(f as f64, (1u64 << 24) as f64, r, q);
    }
    fn float(f: f64, n: f64, r: Result<I256, Bad>, q: Result<U256, Bad>) {
        nd::assume(f != n && f != -n);
        // below 2^53 the integers are the values that survive the round trip
        if -n < f && f < n && (f as i64) as f64 == f {
            let e = X::pi((f as i64) as i128);
            assert!(r.map_or(false, |v| ieq(v, e.wi())));
            if !e.is_neg() {
                assert!(q.map_or(false, |v| ueq(v, e.wu())));
            }
        } else {
            assert!(r.is_err() && q.is_err());
        }
    }

    /// Numbers, in the permissive form.  (Negative ones as U256 are not
    /// decided.)
    macro_rules! number {
        ($($name:ident, $c:ident, $ty:ty, $nd:ident, $x:ident, $w:ty;)*) => { $(
            #[kani::proof]
            pub fn $name() {
                let w = nd::$nd() as $ty;
                let e = X::$x(w as $w);
                let r: Result<I256, Bad> = es::permissive::deserialize(Source(Content::$c(w)));
                assert!(r.map_or(false, |v| ieq(v, e.wi())));
                if !e.is_neg() {
                    let r: Result<U256, Bad> = es::permissive::deserialize(Source(Content::$c(w)));
                    assert!(r.map_or(false, |v| ueq(v, e.wu())));
                }
            }
        )* };
    }
    number! {
        c14_k_i64, I64, i64, u64, pi, i128;
        c14_k_u64, U64, u64, u64, pu, u128;
        c14_k_i128, I128, i128, u128, pi, i128;
        c14_k_u128, U128, u128, u128, pu, u128;
    }

    // Serialization, in two steps: what the form hands to
    // `Formatter::pad_integral` (for every value), and that whatever that
    // function then writes is what the serializer is given.

    static mut DIGITS: [u8; 78] = [b'0'; 78];
    static mut LEN: usize = 1;
    static mut CALLS: u32 = 0;

    pub fn pad_hex<'a>(f: &mut fmt::Formatter<'a>, nonneg: bool, prefix: &str, buf: &str) -> fmt::Result
    where
        'a: 'a,
    {
        assert!(f.alternate() && !f.sign_plus() && f.width().is_none());
        pad_radix(f, nonneg, prefix, buf)
    }
    pub fn pad_decimal<'a>(f: &mut fmt::Formatter<'a>, nonneg: bool, prefix: &str, buf: &str) -> fmt::Result
    where
        'a: 'a,
    {
        assert!(!f.sign_plus() && f.width().is_none() && (prefix.is_empty() || !f.alternate()));
        pad_dec(f, nonneg, prefix, buf)
    }
    /// Contract of `pad_integral` without a width: the sign, the prefix (when
    /// alternate) and the digits are written.
    pub fn pad_any<'a>(f: &mut fmt::Formatter<'a>, nonneg: bool, prefix: &str, _: &str) -> fmt::Result
    where
        'a: 'a,
    {
        assert!(!f.sign_plus() && f.width().is_none(), "STUB-MISS");
        unsafe {
            CALLS += 1;
            if !nonneg {
                f.write_char('-')?;
            }
            if f.alternate() {
                f.write_str(prefix)?;
            }
            f.write_str(core::str::from_utf8_unchecked(&DIGITS[..LEN]))
        }
    }
    static mut MAG: (u128, u128) = (0, 0);
    /// The first division is of the magnitude of the value, by 16 or 10000
    /// (with C03, its quotient and remainder are not looked at here).  It ends
    /// the loop over the digits at once.
    pub fn udivmod4_last(res: &mut MaybeUninit<U256>, a: &U256, b: &U256, rem: Option<&mut MaybeUninit<U256>>) {
        unsafe { assert!(uw(*a) == MAG && (uw(*b) == (0, 16) || uw(*b) == (0, 10000)), "STUB-MISS") };
        res.write(mku(0, 0));
        if let Some(rem) = rem {
            rem.write(mku(0, 1));
        }
    }
    #[macro_export]
    macro_rules! c14_handed {
        ($($name:ident, $nd:ident, $x:ident, $f:path;)*) => { $(
            #[kani::proof]
            #[kani::unwind(66)]
            #[kani::stub(ethnum::intrinsics::udivmod4, udivmod4_pow2)]
            #[kani::stub(core::fmt::Formatter::pad_integral, pad_hex)]
            pub fn $name() {
                let v = nd::$nd();
                let x = X::$x(v);
                let a = x.abs();
                expect((a.hi, a.lo), !x.is_neg(), 4, false, "0x");
                let _ = $f(&v, Sink);
                done();
            }
        )* };
    }
    pub(crate) use c14_handed;
    c14_handed! {
        c14_k_u_ser, u256, u, Serialize::serialize;
        c14_k_i_ser, i256, i, Serialize::serialize;
    }
    macro_rules! handed_dec {
        ($($name:ident, $nd:ident, $x:ident;)*) => { $(
            #[kani::proof]
            #[kani::unwind(22)]
            #[kani::stub(ethnum::intrinsics::udivmod4, udivmod4_dec)]
            #[kani::stub(core::fmt::Formatter::pad_integral, pad_decimal)]
            #[kani::solver(kissat)]
            pub fn $name() {
                let v = nd::$nd();
                let x = X::$x(v);
                let a = x.abs();
                decimal((a.hi, a.lo), !x.is_neg());
                let _ = es::decimal::serialize(&v, Sink);
                done();
            }
        )* };
    }
    handed_dec! {
        c14_k_u_ser_dec, u256, u;
        c14_k_i_ser_dec, i256, i;
    }
    macro_rules! written {
        ($($name:ident, $nd:ident, $x:ident, $f:path, $max:literal, $p:literal;)*) => { $(
            #[kani::proof]
            #[kani::unwind(4)]
            #[kani::stub(ethnum::intrinsics::udivmod4, udivmod4_last)]
            #[kani::stub(core::fmt::Formatter::pad_integral, pad_any)]
            pub fn $name() {
                let v = nd::$nd();
                let neg = X::$x(v).is_neg();
                unsafe {
                    let a = X::$x(v).abs();
                    MAG = (a.hi, a.lo);
                    // I256: |v| <= 2^255 has at most 77 decimal digits
                    LEN = nd::below(if stringify!($x).len() == 1 && stringify!($x).as_bytes()[0] == b'i' && $max == 78 { 77 } else { $max }) as usize + 1;
                    let i = nd::below(78) as usize;
                    DIGITS[i] = b'0' + (nd::u8() % 10);
                    match $f(&v, Sink) {
                        Ok(o) => {
                            let h = neg as usize;
                            assert!(CALLS == 1, "STUB-MISS");
                            assert!(o.text && o.n == h + $p.len() + LEN);
                            assert!(!neg || o.b[0] == b'-');
                            let mut k = 0;
                            while k < $p.len() {
                                assert!(o.b[h + k] == $p[k]);
                                k += 1;
                            }
                            assert!(i >= LEN || o.b[h + $p.len() + i] == DIGITS[i]);
                        }
                        Err(_) => panic!(),
                    }
                }
            }
        )* };
    }
    written! {
        c14_k_u_out, u256, u, Serialize::serialize, 64, b"0x";
        c14_k_i_out, i256, i, Serialize::serialize, 64, b"0x";
        c14_k_u_out_pre, u256, u, es::prefixed::serialize, 64, b"0x";
        c14_k_i_out_pre, i256, i, es::prefixed::serialize, 64, b"0x";
        c14_k_u_out_per, u256, u, es::permissive::serialize, 64, b"0x";
        c14_k_i_out_per, i256, i, es::permissive::serialize, 64, b"0x";
        c14_k_u_out_dec, u256, u, es::decimal::serialize, 78, b"";
        c14_k_i_out_dec, i256, i, es::decimal::serialize, 78, b"";
    }

    // Deserialization: the text reaches the parser of the form unchanged, and
    // what the parser says is what comes out.  Texts of every length: neither
    // the parser nor the UTF-8 validation reads them here.

    static mut AT: (*const u8, usize) = (core::ptr::null(), 0);
    static mut OK: bool = false;
    static mut VALID: bool = false;
    static mut WORDS: (u128, u128) = (0, 0);
    type Form = u8;
    const HEX: Form = 1;
    const DECIMAL: Form = 2;
    const PREFIXED: Form = 3;
    static mut FORM: Form = 0;
    fn called(s: &str, f: Form) {
        unsafe {
            CALLS += 1;
            assert!(f == FORM, "STUB-MISS");
            assert!(s.as_ptr() == AT.0 && s.len() == AT.1);
        }
    }
    fn answer<T>(mk: fn(u128, u128) -> T) -> Result<T, ParseIntError> {
        unsafe {
            if OK {
                Ok(mk(WORDS.0, WORDS.1))
            } else {
                Err("".parse::<u8>().unwrap_err())
            }
        }
    }
    pub fn u_hex(s: &str) -> Result<U256, ParseIntError> {
        called(s, HEX);
        answer(mku)
    }
    pub fn i_hex(s: &str) -> Result<I256, ParseIntError> {
        called(s, HEX);
        answer(mki)
    }
    pub fn u_radix(s: &str, r: u32) -> Result<U256, ParseIntError> {
        assert!(r == 10, "STUB-MISS");
        called(s, DECIMAL);
        answer(mku)
    }
    pub fn i_radix(s: &str, r: u32) -> Result<I256, ParseIntError> {
        assert!(r == 10, "STUB-MISS");
        called(s, DECIMAL);
        answer(mki)
    }
    pub fn u_prefixed(s: &str) -> Result<U256, ParseIntError> {
        called(s, PREFIXED);
        answer(mku)
    }
    pub fn i_prefixed(s: &str) -> Result<I256, ParseIntError> {
        called(s, PREFIXED);
        answer(mki)
    }
    pub fn utf8(v: &[u8]) -> Result<&str, core::str::Utf8Error> {
        unsafe {
            assert!(v.as_ptr() == AT.0 && v.len() == AT.1, "STUB-MISS");
            if VALID {
                Ok(core::str::from_utf8_unchecked(v))
            } else {
                Err(core::str::from_utf8_mut(&mut [0xff]).unwrap_err())
            }
        }
    }
    /// A text of unconstrained length and content.
    fn any_text(form: Form) -> &'static [u8] {
        let n: usize = kani::any();
        nd::assume(n > 0 && n < 1 << 40);
        unsafe {
            let p = std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(n, 1));
            AT = (p, n);
            FORM = form;
            OK = nd::bool();
            VALID = nd::bool();
            WORDS = (nd::u128(), nd::u128());
            core::slice::from_raw_parts(p, n)
        }
    }
    macro_rules! de {
        ($($name:ident, $mk:ident, $eq:ident, $form:ident, $f:path, $p:ident, $bytes:literal, $ty:ident, $method:ident;)*) => { $(
            #[kani::proof]
            #[kani::unwind(4)]
            #[kani::stub(ethnum::$ty::$method, $p)]
            #[kani::stub(core::str::from_utf8, utf8)]
            pub fn $name() {
                let t = any_text($form);
                let by = $bytes && nd::bool();
                let c = if by { Content::Bytes(t) } else { Content::Str(unsafe { core::str::from_utf8_unchecked(t) }) };
                let r: Result<$ty, Bad> = $f(Source(c));
                unsafe {
                    let reached = !by || VALID;
                    assert!(CALLS == reached as u32, "STUB-MISS");
                    match r {
                        Ok(v) => assert!(reached && OK && $eq(v, $mk(WORDS.0, WORDS.1))),
                        Err(_) => assert!(!(reached && OK)),
                    }
                }
            }
        )* };
    }
    de! {
        c14_k_u_de, mku, ueq, HEX, Deserialize::deserialize, u_hex, true, U256, from_str_hex;
        c14_k_i_de, mki, ieq, HEX, Deserialize::deserialize, i_hex, true, I256, from_str_hex;
        c14_k_u_de_dec, mku, ueq, DECIMAL, es::decimal::deserialize, u_radix, true, U256, from_str_radix;
        c14_k_i_de_dec, mki, ieq, DECIMAL, es::decimal::deserialize, i_radix, true, I256, from_str_radix;
        c14_k_u_de_pre, mku, ueq, PREFIXED, es::prefixed::deserialize, u_prefixed, true, U256, from_str_prefixed;
        c14_k_i_de_pre, mki, ieq, PREFIXED, es::prefixed::deserialize, i_prefixed, true, I256, from_str_prefixed;
        c14_k_u_de_per, mku, ueq, PREFIXED, es::permissive::deserialize, u_prefixed, false, U256, from_str_prefixed;
        c14_k_i_de_per, mki, ieq, PREFIXED, es::permissive::deserialize, i_prefixed, false, I256, from_str_prefixed;
    }
}

/// The contracts of `k` on concrete inputs, through the real formatter.
#[cfg(not(kani))]
pub mod twin {
    use super::*;

    fn float(wide: bool) {
        let w = nd::u64();
        let (f, c, n) = if wide {
            (f64::from_bits(w), Content::F64(f64::from_bits(w)), (1u64 << 53) as f64)
        } else {
            let f = f32::from_bits(w as u32);
            (f as f64, Content::F32(f), (1u64 << 24) as f64)
        };
        nd::assume(f.abs() != n);
        let r: Result<I256, Bad> = es::permissive::deserialize(Source(c));
        let q: Result<U256, Bad> = es::permissive::deserialize(Source(c));
        if f.abs() < n && f.fract() == 0.0 {
            let e = X::pi(f as i128);
            assert!(r.map_or(false, |v| ieq(v, e.wi())), "{f}");
            assert!(e.is_neg() || q.map_or(false, |v| ueq(v, e.wu())), "{f}");
        } else {
            assert!(r.is_err() && q.is_err(), "{f}");
        }
    }
    fn number(c: Content, e: X) {
        let r: Result<I256, Bad> = es::permissive::deserialize(Source(c));
        assert!(r.map_or(false, |v| ieq(v, e.wi())));
        if !e.is_neg() {
            let r: Result<U256, Bad> = es::permissive::deserialize(Source(c));
            assert!(r.map_or(false, |v| ueq(v, e.wu())));
        }
    }
    macro_rules! twins {
        ($($name:ident, $nd:ident, $x:ident, $f:path, $t:ident;)*) => {
            harnesses! {
                fn c14_k_f64() { float(true) }
                fn c14_k_f32() { float(false) }
                fn c14_k_i64() { let w = nd::u64() as i64; number(Content::I64(w), X::pi(w as i128)) }
                fn c14_k_u64() { let w = nd::u64(); number(Content::U64(w), X::pu(w as u128)) }
                fn c14_k_i128() { let w = nd::u128() as i128; number(Content::I128(w), X::pi(w)) }
                fn c14_k_u128() { let w = nd::u128(); number(Content::U128(w), X::pu(w)) }
                $(fn $name() {
                    let v = nd::$nd();
                    let (s, e) = ($f(&v, Sink).unwrap(), $t(X::$x(v)));
                    assert!(s.str() == e, "{}, expected {e}", s.str());
                })*
            }
        };
    }
    twins! {
        c14_k_u_ser, u256, u, Serialize::serialize, hex;
        c14_k_i_ser, i256, i, Serialize::serialize, hex;
        c14_k_u_ser_pre, u256, u, es::prefixed::serialize, hex;
        c14_k_i_ser_pre, i256, i, es::prefixed::serialize, hex;
        c14_k_u_ser_per, u256, u, es::permissive::serialize, hex;
        c14_k_i_ser_per, i256, i, es::permissive::serialize, hex;
        c14_k_u_ser_dec, u256, u, es::decimal::serialize, dec;
        c14_k_i_ser_dec, i256, i, es::decimal::serialize, dec;
        c14_k_u_out, u256, u, Serialize::serialize, hex;
        c14_k_i_out, i256, i, Serialize::serialize, hex;
        c14_k_u_out_pre, u256, u, es::prefixed::serialize, hex;
        c14_k_i_out_pre, i256, i, es::prefixed::serialize, hex;
        c14_k_u_out_per, u256, u, es::permissive::serialize, hex;
        c14_k_i_out_per, i256, i, es::permissive::serialize, hex;
        c14_k_u_out_dec, u256, u, es::decimal::serialize, dec;
        c14_k_i_out_dec, i256, i, es::decimal::serialize, dec;
    }
}
