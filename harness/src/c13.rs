//! C13: formatting.

use crate::{nd, spec::*};
#[cfg(not(kani))]
use crate::text::*;
use ethnum::{I256, U256};

#[cfg(not(kani))]
mod full {
    use super::*;
    use std::fmt::{Display, LowerExp, UpperExp, Debug, LowerHex, UpperHex, Octal, Binary};

    /// Flags of one format.
    #[derive(Clone, Copy, Debug)]
    pub struct Flags {
        pub width: usize,
        pub align: u32, // 0 none, 1 <, 2 ^, 3 >
        pub fill: bool,
        pub plus: bool,
        pub alt: bool,
        pub zero: bool,
    }
    pub fn flags() -> Flags {
        let w = nd::u32();
        Flags {
            width: if w % 3 == 0 { 0 } else { (w / 3 % 300) as usize },
            align: nd::below(4),
            fill: nd::bool(),
            plus: nd::bool(),
            alt: nd::bool(),
            zero: nd::bool(),
        }
    }
    /// What `Formatter::pad_integral` is specified to print.
    pub fn pad(neg: bool, prefix: &str, digits: &str, f: Flags) -> String {
        let mut head = String::new();
        if neg {
            head.push('-');
        } else if f.plus {
            head.push('+');
        }
        if f.alt {
            head.push_str(prefix);
        }
        let n = head.len() + digits.len();
        if n >= f.width {
            return format!("{head}{digits}");
        }
        let k = f.width - n;
        if f.zero {
            return format!("{head}{}{digits}", "0".repeat(k));
        }
        let c = if f.fill && f.align != 0 { "*" } else { " " };
        let (l, r) = match f.align {
            1 => (0, k),
            2 => (k / 2, k - k / 2),
            _ => (k, 0),
        };
        format!("{}{head}{digits}{}", c.repeat(l), c.repeat(r))
    }
    macro_rules! all {
        ($f:expr, $v:expr, $ty:literal) => {{
            let f: Flags = $f;
            let w = f.width;
            let v = $v;
            macro_rules! one {
                ($flags:literal) => {
                    match (f.align, f.fill) {
                        (0, _) => format!(concat!("{:", $flags, $ty, "}"), v, w = w),
                        (1, false) => format!(concat!("{:<", $flags, $ty, "}"), v, w = w),
                        (2, false) => format!(concat!("{:^", $flags, $ty, "}"), v, w = w),
                        (_, false) => format!(concat!("{:>", $flags, $ty, "}"), v, w = w),
                        (1, true) => format!(concat!("{:*<", $flags, $ty, "}"), v, w = w),
                        (2, true) => format!(concat!("{:*^", $flags, $ty, "}"), v, w = w),
                        (_, true) => format!(concat!("{:*>", $flags, $ty, "}"), v, w = w),
                    }
                };
            }
            match (f.plus, f.alt, f.zero) {
                (false, false, false) => one!("w$"),
                (false, false, true) => one!("0w$"),
                (false, true, false) => one!("#w$"),
                (false, true, true) => one!("#0w$"),
                (true, false, false) => one!("+w$"),
                (true, false, true) => one!("+0w$"),
                (true, true, false) => one!("+#w$"),
                (true, true, true) => one!("+#0w$"),
            }
        }};
    }
    pub fn radix(i: u32) -> (u32, bool, &'static str) {
        [(2, false, "0b"), (8, false, "0o"), (16, false, "0x"), (16, true, "0x")][i as usize]
    }
    pub fn fmt_radix<T: Binary + Octal + LowerHex + UpperHex>(v: T, i: u32, f: Flags) -> String {
        match i {
            0 => all!(f, &v, "b"),
            1 => all!(f, &v, "o"),
            2 => all!(f, &v, "x"),
            _ => all!(f, &v, "X"),
        }
    }
    pub fn fmt_dec<T: Display + Debug>(v: T, dbg: bool, f: Flags) -> String {
        if dbg {
            all!(f, &v, "?")
        } else {
            all!(f, &v, "")
        }
    }
    pub fn exp<T: LowerExp + UpperExp>(v: T, up: bool) -> String {
        if up {
            format!("{v:E}")
        } else {
            format!("{v:e}")
        }
    }
    pub fn dec(hi: u128, lo: u128) -> String {
        String::from_utf8(Big::of(hi, lo).digits(10, false)).unwrap()
    }
    /// A value printed in decimal: boundary-biased, or close to a power of ten.
    pub fn value() -> (u128, u128) {
        let v = nd::u256();
        let k = nd::u8();
        if k % 3 == 0 {
            let mut b = Big::of(0, 1 + (nd::u8() % 9) as u128);
            for _ in 0..(k / 3) % 80 {
                let mut t = b;
                t.muladd(10, 0);
                if t.over256() {
                    break;
                }
                b = t;
            }
            let d = nd::u8() as u128 % 3;
            let x = X { lo: b.words().1, hi: b.words().0, top: 0 };
            let y = if d == 2 { x.sub(X::pu(1)) } else { x.add(X::pu(d)) };
            (y.hi, y.lo)
        } else {
            (v.0[1], v.0[0])
        }
    }
}
#[cfg(not(kani))]
use full::*;

#[cfg(not(kani))]
harnesses! {
    fn c13_u_dec() {
        let (h, l) = value();
        let (f, dbg) = (flags(), nd::bool());
        let s = fmt_dec(mku(h, l), dbg, f);
        let e = pad(false, "", &dec(h, l), f);
        assert!(s == e, "{f:?}: {s:?}, expected {e:?}");
        // parses back
        assert!(format!("{}", mku(h, l)).parse::<U256>().map_or(false, |v| ueq(v, mku(h, l))));
    }
    fn c13_i_dec() {
        let (h, l) = value();
        let v = mki(h, l);
        let a = X::i(v).abs();
        let (f, dbg) = (flags(), nd::bool());
        let s = fmt_dec(v, dbg, f);
        let e = pad(X::i(v).is_neg(), "", &dec(a.hi, a.lo), f);
        assert!(s == e, "{f:?}: {s:?}, expected {e:?}");
        assert!(format!("{v}").parse::<I256>().map_or(false, |x| ieq(x, v)));
    }
    fn c13_u_radix() {
        let v = nd::u256();
        let (f, i) = (flags(), nd::below(4));
        let (r, up, p) = radix(i);
        let (h, l) = uw(v);
        let e = pad(false, p, &String::from_utf8(Big::of(h, l).digits(r, up)).unwrap(), f);
        let s = fmt_radix(v, i, f);
        assert!(s == e, "{f:?}: {s:?}, expected {e:?}");
    }
    fn c13_i_radix() {
        let v = nd::i256();
        let (f, i) = (flags(), nd::below(4));
        let (r, up, p) = radix(i);
        let (h, l) = iw(v);
        let e = pad(false, p, &String::from_utf8(Big::of(h, l).digits(r, up)).unwrap(), f);
        let s = fmt_radix(v, i, f);
        assert!(s == e, "{f:?}: {s:?}, expected {e:?}");
    }
    /// With the `-` flag a negative value prints its magnitude after a sign.
    fn c13_i_minus() {
        let v = nd::i256();
        let a = X::i(v).abs();
        let d = String::from_utf8(Big::of(a.hi, a.lo).digits(16, false)).unwrap();
        let e = if X::i(v).is_neg() { format!("-0x{d}") } else { format!("0x{d}") };
        assert!(format!("{v:-#x}") == e, "{v:-#x}, expected {e}");
        let d = String::from_utf8(Big::of(a.hi, a.lo).digits(2, false)).unwrap();
        let e = if X::i(v).is_neg() { format!("-{d}") } else { d };
        assert!(format!("{v:-b}") == e, "{v:-b}, expected {e}");
    }
    fn c13_debug_hex() {
        let v = nd::i256();
        let u = nd::u256();
        assert!(format!("{v:x?}") == format!("{v:x}") && format!("{v:#X?}") == format!("{v:#X}"));
        assert!(format!("{u:x?}") == format!("{u:x}") && format!("{u:#X?}") == format!("{u:#X}"));
    }
    /// 128-bit values print like the primitive integers.
    fn c13_primitive() {
        let p = nd::u128();
        let (f, i) = (flags(), nd::below(4));
        assert!(fmt_radix(mku(0, p), i, f) == fmt_radix(p, i, f));
        assert!(fmt_dec(mku(0, p), i == 0, f) == fmt_dec(p, i == 0, f));
        let q = p as i128;
        assert!(fmt_dec(X::pi(q).wi(), i == 0, f) == fmt_dec(q, i == 0, f));
    }
    /// Scientific notation, for values that are exact as an f64.
    fn c13_exp() {
        let m = nd::u64() >> 11;
        let k = nd::below(203);
        let neg = nd::bool();
        let up = nd::bool();
        let (h, l) = wshl((0, m as u128), k);
        // m * 2^k; both products are exact in binary floating point
        let x = m as f64 * 2f64.powi(k as i32);
        assert!(exp(mku(h, l), up) == exp(x, up), "{}", exp(mku(h, l), up));
        let v = X { top: 0, hi: h, lo: l };
        let v = if neg { v.neg() } else { v };
        nd::assume(v.fits_i());
        let x = if neg && m != 0 { -x } else { x };
        assert!(exp(v.wi(), up) == exp(x, up), "{}", exp(v.wi(), up));
    }
}

/// What the code hands to `Formatter::pad_integral`, for every value.
/// `pad_integral` itself (padding, sign, prefix) is the standard library's.
#[cfg(kani)]
pub mod digits {
    use super::*;
    use core::fmt::{self, Write};
    use core::mem::MaybeUninit;

    pub struct Null;
    impl Write for Null {
        fn write_str(&mut self, _: &str) -> fmt::Result {
            Ok(())
        }
    }

    static mut VALUE: (u128, u128) = (0, 0);
    static mut NONNEG: bool = true;
    static mut BITS: u32 = 4;
    static mut UPPER: bool = false;
    static mut PREFIX: &str = "";
    static mut CALLS: u32 = 0;

    /// Contract of `udivmod4` for a divisor 2^k: a shift and a mask.
    pub fn udivmod4_pow2(res: &mut MaybeUninit<U256>, a: &U256, b: &U256, rem: Option<&mut MaybeUninit<U256>>) {
        let d = uw(*b);
        assert!(d.0 == 0 && d.1.is_power_of_two() && d.1 < 256, "STUB-MISS");
        let k = d.1.trailing_zeros();
        res.write(ushr(*a, k));
        if let Some(rem) = rem {
            rem.write(mku(0, a.0[0] & (d.1 - 1)));
        }
    }
    fn bitlen(w: (u128, u128)) -> u32 {
        256 - if w.0 != 0 { w.0.leading_zeros() } else { 128 + w.1.leading_zeros() }
    }
    pub fn pad_radix<'a>(_: &mut fmt::Formatter<'a>, nonneg: bool, prefix: &str, buf: &str) -> fmt::Result
    where
        'a: 'a,
    {
        unsafe {
            CALLS += 1;
            assert!(nonneg == NONNEG);
            assert!(prefix.len() == 2 && prefix.as_bytes()[0] == b'0' && prefix.as_bytes()[1] == PREFIX.as_bytes()[1]);
            let b = buf.as_bytes();
            let l = (bitlen(VALUE) + BITS - 1) / BITS;
            let l = if l == 0 { 1 } else { l };
            assert!(b.len() == l as usize);
            let i = nd::below(256);
            if i < l {
                // digit i from the left
                let d = wshr(VALUE, (l - 1 - i) * BITS).1 as u8 & ((1u16 << BITS) - 1) as u8;
                let e = if d < 10 { b'0' + d } else { (if UPPER { b'A' } else { b'a' }) + d - 10 };
                assert!(b[i as usize] == e);
            }
        }
        Ok(())
    }
    pub fn expect(v: (u128, u128), nonneg: bool, bits: u32, upper: bool, prefix: &'static str) {
        unsafe {
            VALUE = v;
            NONNEG = nonneg;
            BITS = bits;
            UPPER = upper;
            PREFIX = prefix;
        }
    }
    pub fn done() {
        unsafe { assert!(CALLS == 1, "STUB-MISS") }
    }
    #[macro_export]
    macro_rules! c13_radix {
        ($($name:ident, $iname:ident, $mname:ident, $f:literal, $m:literal, $bits:literal, $unwind:literal, $upper:literal, $prefix:literal;)*) => { $(
            #[kani::proof]
            #[kani::unwind($unwind)]
            #[kani::stub(ethnum::intrinsics::udivmod4, udivmod4_pow2)]
            #[kani::stub(core::fmt::Formatter::pad_integral, pad_radix)]
            pub fn $name() {
                let v = nd::u256();
                expect(uw(v), true, $bits, $upper, $prefix);
                let _ = fmt::write(&mut Null, format_args!($f, v));
                done();
            }
            #[kani::proof]
            #[kani::unwind($unwind)]
            #[kani::stub(ethnum::intrinsics::udivmod4, udivmod4_pow2)]
            #[kani::stub(core::fmt::Formatter::pad_integral, pad_radix)]
            pub fn $iname() {
                let v = nd::i256();
                expect(iw(v), true, $bits, $upper, $prefix);
                let _ = fmt::write(&mut Null, format_args!($f, v));
                done();
            }
            #[kani::proof]
            #[kani::unwind($unwind)]
            #[kani::stub(ethnum::intrinsics::udivmod4, udivmod4_pow2)]
            #[kani::stub(core::fmt::Formatter::pad_integral, pad_radix)]
            pub fn $mname() {
                let v = nd::i256();
                let m = X::i(v);
                expect(uw(m.abs().wu()), !m.is_neg(), $bits, $upper, $prefix);
                let _ = fmt::write(&mut Null, format_args!($m, v));
                done();
            }
        )* };
    }
    pub(crate) use c13_radix;
    c13_radix! {
        c13_k_u_hex, c13_k_i_hex, c13_k_m_hex, "{:x}", "{:-x}", 4, 66, false, "0x";
        c13_k_u_uhex, c13_k_i_uhex, c13_k_m_uhex, "{:X}", "{:-X}", 4, 66, true, "0x";
        c13_k_u_oct, c13_k_i_oct, c13_k_m_oct, "{:o}", "{:-o}", 3, 88, false, "0o";
    }

    /// Binary, for values below 2^32 (all values: `c13deep`).
    #[kani::proof]
    #[kani::unwind(34)]
    #[kani::stub(ethnum::intrinsics::udivmod4, udivmod4_pow2)]
    #[kani::stub(core::fmt::Formatter::pad_integral, pad_radix)]
    pub fn c13_k_u_bin32() {
        let v = mku(0, nd::u32() as u128);
        expect(uw(v), true, 1, false, "0b");
        let _ = fmt::write(&mut Null, format_args!("{:b}", v));
        done();
    }
    #[kani::proof]
    #[kani::unwind(34)]
    #[kani::stub(ethnum::intrinsics::udivmod4, udivmod4_pow2)]
    #[kani::stub(core::fmt::Formatter::pad_integral, pad_radix)]
    pub fn c13_k_m_bin32() {
        let v = X::pi((nd::u32() as i32) as i128).wi();
        let m = X::i(v);
        expect(uw(m.abs().wu()), !m.is_neg(), 1, false, "0b");
        let _ = fmt::write(&mut Null, format_args!("{:-b}", v));
        done();
    }

    /// Decimal: n_0 is the value, n_(i+1) and r_i quotient and remainder of
    /// n_i by 10000; the text is the r_i, most significant first, four digits
    /// each but for the first.
    const M: usize = 20;
    static mut N: [(u128, u128); M + 1] = [(0, 0); M + 1];
    static mut R: [u16; M] = [0; M];
    static mut DIVS: usize = 0;
    pub fn udivmod4_dec(res: &mut MaybeUninit<U256>, a: &U256, b: &U256, rem: Option<&mut MaybeUninit<U256>>) {
        assert!(uw(*b) == (0, 10000), "STUB-MISS");
        let mut found = false;
        let (mut q, mut r) = ((0, 0), 0);
        let w = uw(*a);
        // one division per digit group, or separate `/` and `%`
        unsafe {
            let c = DIVS;
            DIVS += 1;
            let mut k = 0;
            while k < 2 {
                let i = if k == 0 { c } else { c / 2 };
                if !found && i < M && N[i] == w {
                    found = true;
                    q = N[i + 1];
                    r = R[i];
                }
                k += 1;
            }
        }
        assert!(found, "STUB-MISS");
        res.write(mku(q.0, q.1));
        if let Some(rem) = rem {
            rem.write(mku(0, r as u128));
        }
    }
    pub fn decimal(v: (u128, u128), nonneg: bool) {
        unsafe {
            NONNEG = nonneg;
            N[0] = v;
            let mut i = 0;
            while i < M {
                let n = N[i];
                let q = (nd::u128(), nd::u128());
                let r = nd::u16();
                // facts of the division by 10000 >= 2^13
                nd::assume(r < 10000);
                nd::assume(q <= wshr(n, 13));
                let small = n.0 == 0 && n.1 < 10000;
                nd::assume(small == (q == (0, 0)));
                nd::assume(!small || n.1 == r as u128);
                N[i + 1] = q;
                R[i] = r;
                i += 1;
            }
        }
    }
    pub fn pad_dec<'a>(_: &mut fmt::Formatter<'a>, nonneg: bool, _: &str, buf: &str) -> fmt::Result
    where
        'a: 'a,
    {
        unsafe {
            CALLS += 1;
            assert!(nonneg == NONNEG);
            let b = buf.as_bytes();
            // the first chunk
            let mut m = 0;
            while m < M - 1 && N[m + 1] != (0, 0) {
                m += 1;
            }
            let t = R[m];
            let w = if t >= 1000 { 4 } else if t >= 100 { 3 } else if t >= 10 { 2 } else { 1 };
            assert!(b.len() == 4 * m + w);
            // digit k counted from the right
            let k = nd::below(80) as usize;
            if k < b.len() {
                let r = R[k / 4];
                let d = match k % 4 {
                    0 => r % 10,
                    1 => r / 10 % 10,
                    2 => r / 100 % 10,
                    _ => r / 1000,
                };
                assert!(b[b.len() - 1 - k] == b'0' + d as u8);
            }
        }
        Ok(())
    }
    #[kani::proof]
    #[kani::unwind(22)]
    #[kani::stub(ethnum::intrinsics::udivmod4, udivmod4_dec)]
    #[kani::stub(core::fmt::Formatter::pad_integral, pad_dec)]
    #[kani::solver(kissat)]
    pub fn c13_k_u_dec() {
        let v = nd::u256();
        decimal(uw(v), true);
        let _ = fmt::write(&mut Null, format_args!("{}", v));
        done();
    }
    #[kani::proof]
    #[kani::unwind(22)]
    #[kani::stub(ethnum::intrinsics::udivmod4, udivmod4_dec)]
    #[kani::stub(core::fmt::Formatter::pad_integral, pad_dec)]
    #[kani::solver(kissat)]
    pub fn c13_k_i_dec() {
        let v = nd::i256();
        let m = X::i(v);
        decimal(uw(m.abs().wu()), !m.is_neg());
        let _ = fmt::write(&mut Null, format_args!("{}", v));
        done();
    }
}

/// The contracts of `digits` on concrete inputs, through the real formatter.
#[cfg(not(kani))]
pub mod twin {
    use super::*;
    fn text(v: X, radix: u32, upper: bool) -> String {
        let a = v.abs();
        let d = String::from_utf8(Big::of(a.hi, a.lo).digits(radix, upper)).unwrap();
        if v.is_neg() { format!("-{d}") } else { d }
    }
    macro_rules! twins {
        ($($u:ident, $i:ident, $m:ident, $f:literal, $mf:literal, $radix:literal, $upper:literal;)*) => {
            harnesses! {
                $(
                fn $u() {
                    let v = nd::u256();
                    let (s, e) = (format!($f, v), text(X::u(v), $radix, $upper));
                    assert!(s == e, "{s}, expected {e}");
                }
                fn $i() {
                    let v = nd::i256();
                    let (h, l) = iw(v);
                    let (s, e) = (format!($f, v), text(X::u(mku(h, l)), $radix, $upper));
                    assert!(s == e, "{s}, expected {e}");
                }
                fn $m() {
                    let v = nd::i256();
                    let (s, e) = (format!($mf, v), text(X::i(v), $radix, $upper));
                    assert!(s == e, "{s}, expected {e}");
                }
                )*
                fn c13_k_u_bin32() {
                    let v = mku(0, nd::u32() as u128);
                    let (s, e) = (format!("{v:b}"), text(X::u(v), 2, false));
                    assert!(s == e, "{s}, expected {e}");
                }
                fn c13_k_m_bin32() {
                    let v = X::pi((nd::u32() as i32) as i128).wi();
                    let (s, e) = (format!("{v:-b}"), text(X::i(v), 2, false));
                    assert!(s == e, "{s}, expected {e}");
                }
                fn c13_k_u_dec() {
                    let v = nd::u256();
                    let (s, e) = (format!("{v}"), text(X::u(v), 10, false));
                    assert!(s == e, "{s}, expected {e}");
                }
                fn c13_k_i_dec() {
                    let v = nd::i256();
                    let (s, e) = (format!("{v}"), text(X::i(v), 10, false));
                    assert!(s == e, "{s}, expected {e}");
                }
            }
        };
    }
    twins! {
        c13_k_u_hex, c13_k_i_hex, c13_k_m_hex, "{:x}", "{:-x}", 16, false;
        c13_k_u_uhex, c13_k_i_uhex, c13_k_m_uhex, "{:X}", "{:-X}", 16, true;
        c13_k_u_oct, c13_k_i_oct, c13_k_m_oct, "{:o}", "{:-o}", 8, false;
        c13_k_u_bin, c13_k_i_bin, c13_k_m_bin, "{:b}", "{:-b}", 2, false;
    }
}
