//! Numerals: a bignum, an oracle for their values, and a generator.
//! Native only; nothing of `ethnum` is used.

use crate::nd::Rng;
use crate::spec::*;
use ethnum::{I256, U256};

/// 320-bit accumulator with a sticky overflow.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Big {
    pub w: [u64; 5],
    pub over: bool,
}

impl Big {
    pub const ZERO: Big = Big { w: [0; 5], over: false };
    pub fn of(hi: u128, lo: u128) -> Big {
        Big { w: [lo as u64, (lo >> 64) as u64, hi as u64, (hi >> 64) as u64, 0], over: false }
    }
    pub fn muladd(&mut self, m: u64, a: u64) {
        let mut c = a as u128;
        for w in &mut self.w {
            let t = *w as u128 * m as u128 + c;
            *w = t as u64;
            c = t >> 64;
        }
        self.over |= c != 0;
    }
    pub fn divrem(&mut self, m: u64) -> u64 {
        let mut r = 0u128;
        for w in self.w.iter_mut().rev() {
            let t = r << 64 | *w as u128;
            *w = (t / m as u128) as u64;
            r = t % m as u128;
        }
        r as u64
    }
    pub fn is_zero(&self) -> bool {
        self.w == [0; 5]
    }
    pub fn words(&self) -> (u128, u128) {
        ((self.w[3] as u128) << 64 | self.w[2] as u128, (self.w[1] as u128) << 64 | self.w[0] as u128)
    }
    /// 2^256 or more.
    pub fn over256(&self) -> bool {
        self.over || self.w[4] != 0
    }
    /// The value with the sign, when representable.
    pub fn to_u(&self, neg: bool) -> Option<U256> {
        let (h, l) = self.words();
        if self.over256() || neg && !self.is_zero() {
            None
        } else {
            Some(mku(h, l))
        }
    }
    pub fn to_i(&self, neg: bool) -> Option<I256> {
        let (h, l) = self.words();
        if self.over256() {
            return None;
        }
        let v = x(0, h, l);
        let v = if neg { v.neg() } else { v };
        v.opt_i()
    }
    /// Digits in `radix`, without leading zeros ("0" for zero).
    pub fn digits(mut self, radix: u32, upper: bool) -> Vec<u8> {
        let mut v = vec![];
        loop {
            let d = self.divrem(radix as u64) as u8;
            v.push(if d < 10 { b'0' + d } else { (if upper { b'A' } else { b'a' }) + d - 10 });
            if self.is_zero() {
                break;
            }
        }
        v.reverse();
        v
    }
}

/// Value of an ASCII digit.
pub fn digit(c: u8, radix: u32) -> Option<u64> {
    let d = match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'z' => c - b'a' + 10,
        b'A'..=b'Z' => c - b'A' + 10,
        _ => return None,
    };
    if (d as u32) < radix {
        Some(d as u64)
    } else {
        None
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Num {
    /// Sign and magnitude of a well-formed numeral.
    Value(bool, Big),
    Empty,
    /// Malformed; the flag tells whether a representability check may come
    /// first (the digits before the malformed one already overflow).
    Malformed(bool, bool),
}

/// The numeral `[sign] prefix digit+`; a minus sign only when `signed`.
pub fn numeral(s: &[u8], radix: u32, prefix: &[u8], signed: bool) -> Num {
    if s.is_empty() {
        return Num::Empty;
    }
    let (neg, rest) = match s[0] {
        b'+' => (false, &s[1..]),
        b'-' if signed => (true, &s[1..]),
        _ => (false, s),
    };
    let Some(digits) = rest.strip_prefix(prefix) else { return Num::Malformed(neg, false) };
    if digits.is_empty() {
        return Num::Malformed(neg, false);
    }
    let mut v = Big::ZERO;
    for &c in digits {
        match digit(c, radix) {
            Some(d) => v.muladd(radix as u64, d),
            None => {
                let fits = if signed { v.to_i(neg).is_some() } else { v.to_u(neg).is_some() };
                return Num::Malformed(neg, !fits);
            }
        }
    }
    Num::Value(neg, v)
}

/// A magnitude near something interesting.
pub fn magnitude(g: &mut Rng) -> Big {
    match g.n(8) {
        // around 2^255 and 2^256
        0 | 1 => {
            let mut b = match g.n(2) {
                0 => Big::of(1 << 127, 0),
                _ => Big { w: [0, 0, 0, 0, 1], over: false },
            };
            let d = g.n(4) as i64 - 2;
            let mut w = b.w;
            let mut c = d as i128;
            for x in &mut w {
                let t = *x as i128 + c;
                *x = t as u64;
                c = t >> 64;
            }
            b.w = w;
            b
        }
        2 => Big::of(0, g.word()),
        3 => Big::of(g.word(), 0),
        4 => {
            // round numbers
            let (r, n) = (g.pick(&[2u64, 8, 10, 16, 36]), g.n(90));
            let mut b = Big::of(0, 1 + g.n(12) as u128);
            for _ in 0..n {
                let t = { let mut t = b; t.muladd(r, 0); t };
                if t.over256() && g.n(3) > 0 {
                    break;
                }
                b = t;
                if b.over256() {
                    break;
                }
            }
            b
        }
        _ => Big::of(g.word(), g.word()),
    }
}

/// A text close to a numeral in `radix` with `prefix`.
pub fn gen(g: &mut Rng, radix: u32, prefixes: &[&str], extra: &[u8]) -> Vec<u8> {
    let mut s: Vec<u8> = vec![];
    s.extend_from_slice(match g.n(12) {
        0 | 1 => b"+" as &[u8],
        2 | 3 | 4 => b"-",
        5 => match g.n(8) {
            0 => b"--",
            1 => b"+-",
            2 => b" ",
            3 => b"-+",
            4 => b"++",
            _ => b"",
        },
        _ => b"",
    });
    let p = g.pick(prefixes);
    s.extend_from_slice(p.as_bytes());
    if g.chance(12) {
        s.extend_from_slice(g.pick(&["0x", "0b", "0o", "0X", "0", "x", "+", "-", "_"]).as_bytes());
    }
    if g.chance(5) {
        let long = g.chance(4);
        let n = g.n(if long { 300 } else { 10 });
        s.extend(std::iter::repeat(b'0').take(n as usize));
    }
    match g.n(12) {
        0 => {
            // random digits of any number
            let n = g.n(90);
            for _ in 0..n {
                s.push(g.pick(b"0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"));
            }
        }
        1 | 2 => {
            let n = g.n(90);
            for _ in 0..n {
                let d = g.n(radix as u64) as u8;
                s.push(if d < 10 { b'0' + d } else { b'a' + d - 10 });
            }
        }
        3 => {}
        _ => {
            let up = g.chance(3);
            s.extend(magnitude(g).digits(radix, up));
        }
    }
    if g.chance(4) && !s.is_empty() {
        for _ in 0..1 + g.n(3) {
            let i = g.n(s.len() as u64 + 1) as usize;
            match g.n(4) {
                0 if i < s.len() => {
                    s.remove(i);
                }
                1 => s.insert(i, g.pick(b"0123456789abzAZ_ +-xX/:@[`{g8")),
                2 if i < s.len() => s[i] = g.pick(b"0123456789abzAZ_ +-xX/:@[`{g8\0\n"),
                _ => {
                    let e = "\u{e9}".as_bytes();
                    if g.chance(6) {
                        s.splice(i..i, e.iter().copied());
                    }
                }
            }
            if s.is_empty() {
                break;
            }
        }
    }
    if !extra.is_empty() {
        let n = g.n(6);
        for _ in 0..n {
            let i = g.n(s.len() as u64 + 1) as usize;
            s.insert(i, g.pick(extra));
        }
    }
    s
}
